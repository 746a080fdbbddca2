//! C20: what a GraphQL upstream resolves is served as that upstream itself would
use crate::env;
use crate::rt::*;
use async_graphql::parser::parse_query;
use async_graphql::parser::types::{DocumentOperations, Field, OperationDefinition, OperationType, Selection, SelectionSet};
use async_graphql_value::Value as Q;
use serde_json::{json, Map, Value};
use std::sync::{Arc, Mutex};
use tailcall::core::app_context::AppContext;
use tailcall::core::http::Response;

const SDL: &str = "{query: Query mutation: Mutation}
type Query {
 user(id: Int!): U @graphQL(url: \"http://up/graphql\", name: \"user\", args: [{key: \"id\", value: \"{{.args.id}}\"}])
 person(id: Int, tag: String): U @graphQL(url: \"http://up/graphql\", name: \"find\", args: [{key: \"by\", value: \"{{.args.tag}}\"}, {key: \"id\", value: \"{{.args.id}}\"}])
 users: [U] @graphQL(url: \"http://up/graphql\", name: \"users\")
 node(id: Int!): Node @graphQL(url: \"http://up/graphql\", name: \"node\", args: [{key: \"id\", value: \"{{.args.id}}\"}])
 both(id: Int!): U @graphQL(url: \"http://up/graphql\", name: \"user\", args: [{key: \"id\", value: \"{{.args.id}}\"}]) @graphQL(url: \"http://up/graphql\", name: \"user\", args: [{key: \"id\", value: \"{{.args.id}}\"}])
 one: Int @graphQL(url: \"http://up/graphql\", name: \"one\")
}
type Mutation { rename(id: Int!): U @graphQL(url: \"http://up/graphql\", name: \"user\", args: [{key: \"id\", value: \"{{.args.id}}\"}]) }
interface Node { id: Int! }
type N implements Node { id: Int! n: Int }
type M implements Node { id: Int! m: Int home: A }
input In { a: Int s: String l: [Int] }
type U @addField(name: \"town\", path: [\"home\", \"city\"]) @addField(name: \"first\", path: [\"friends\", \"0\", \"name\"]) { id: Int! name: String pic(n: Int, s: String, b: Boolean, o: In): String friend: U friends: [U!] home: A work: A nick: String @modify(name: \"handle\")
 count: Int @http(url: \"http://h/c/{{.value.id}}\") kept: Int @http(url: \"http://h/c/{{.value.id}}\") @cache(maxAge: 10) best: U @graphQL(url: \"http://up/graphql\", name: \"user\", args: [{key: \"id\", value: \"{{.value.id}}\"}]) }
type A { city: String zip: Int owner: U }";

/// an upstream of fixed data, which answers what it is asked
fn show(v: &Q) -> String {
    match v {
        Q::Null => "-".into(),
        Q::Object(o) => {
            let mut l: Vec<String> = o.iter().map(|(k, v)| format!("{k}={}", show(v))).collect();
            l.sort();
            format!("<{}>", l.join(","))
        }
        Q::List(l) => format!("({})", l.iter().map(show).collect::<Vec<_>>().join(",")),
        Q::String(s) => format!("'{s}'"),
        Q::Number(n) => n.to_string(),
        Q::Boolean(b) => b.to_string(),
        _ => "?".into(),
    }
}
struct World<'a> {
    /// as the client sees it: aliases, names of the configuration and fields resolved elsewhere
    client: bool,
    vars: &'a Map<String, Value>,
    doc: &'a async_graphql::parser::types::ExecutableDocument,
    op: &'a OperationDefinition,
}
impl World<'_> {
    fn value(&self, v: &Q) -> Q {
        match v {
            Q::Variable(n) => {
                let given = self.vars.get(n.as_str()).map(|v| Q::from_json(v.clone()).unwrap());
                let default = || self.op.variable_definitions.iter().find(|d| d.node.name.node == *n).and_then(|d| d.node.default_value.as_ref().map(|v| v.node.clone().into_value()));
                given.or_else(default).unwrap_or(Q::Null)
            }
            Q::List(l) => Q::List(l.iter().map(|x| self.value(x)).collect()),
            Q::Object(o) => Q::Object(o.iter().map(|(k, v)| (k.clone(), self.value(v))).collect()),
            v => v.clone(),
        }
    }
    fn arg(&self, f: &Field, name: &str) -> Option<Q> {
        f.arguments.iter().find(|(k, _)| k.node == name).map(|(_, v)| self.value(&v.node))
    }
    fn int(&self, f: &Field, name: &str) -> Option<i64> {
        match self.arg(f, name) {
            Some(Q::Number(n)) => n.as_i64(),
            _ => None,
        }
    }
    fn set(&self, on: &str, id: i64, s: &SelectionSet, out: &mut Map<String, Value>) -> Result<(), String> {
        for x in &s.items {
            match &x.node {
                Selection::Field(f) => {
                    let f = &f.node;
                    if self.left_out(&f.directives) {
                        continue;
                    }
                    let key = f.alias.as_ref().unwrap_or(&f.name).node.to_string();
                    let v = self.field(on, id, f)?;
                    match out.get_mut(&key) {
                        None => {
                            out.insert(key, v);
                        }
                        Some(old) if old.is_object() || old.is_array() => merge(old, v),
                        Some(old) if *old == v => {}
                        Some(_) => return Err(format!("fields {key} conflict")),
                    }
                }
                Selection::InlineFragment(g) => {
                    let g = &g.node;
                    let t = g.type_condition.as_ref().map(|t| t.node.on.node.as_str()).unwrap_or(on);
                    if !self.left_out(&g.directives) && applies(t, on) {
                        self.set(on, id, &g.selection_set.node, out)?;
                    }
                }
                Selection::FragmentSpread(g) => {
                    let d = self.doc.fragments.get(&g.node.fragment_name.node).ok_or("no such fragment")?;
                    if !self.left_out(&g.node.directives) && applies(d.node.type_condition.node.on.node.as_str(), on) {
                        self.set(on, id, &d.node.selection_set.node, out)?;
                    }
                }
            }
        }
        Ok(())
    }
    fn left_out(&self, d: &[async_graphql::Positioned<async_graphql::parser::types::Directive>]) -> bool {
        d.iter().any(|d| {
            let on = d.node.get_argument("if").map(|v| self.value(&v.node)) == Some(Q::Boolean(true));
            match d.node.name.node.as_str() {
                "skip" => on,
                "include" => !on,
                _ => false,
            }
        })
    }
    fn object(&self, on: &str, id: i64, f: &Field) -> Result<Value, String> {
        if f.selection_set.node.items.is_empty() {
            return Err(format!("field {} needs a selection", f.name.node));
        }
        let mut out = Map::new();
        self.set(on, id, &f.selection_set.node, &mut out)?;
        Ok(Value::Object(out))
    }
    fn field(&self, on: &str, id: i64, f: &Field) -> Result<Value, String> {
        let name = f.name.node.as_str();
        let leaf = |v: Value| {
            if f.selection_set.node.items.is_empty() {
                Ok(v)
            } else {
                Err(format!("field {name} has no fields"))
            }
        };
        let node = |id: i64| if id % 2 == 0 { "N" } else { "M" };
        match (on, name) {
            (_, "__typename") => leaf(json!(on)),
            ("Query" | "Mutation", "user" | "rename" | "both") if name == "user" || self.client => match self.int(f, "id") {
                Some(i) => self.object("U", i, f),
                None => Err("no id".into()),
            },
            ("Query", "find" | "person") if self.client == (name == "person") => {
                let id = self.int(f, "id").unwrap_or(0);
                let by = match self.arg(f, if self.client { "tag" } else { "by" }) {
                    Some(Q::String(s)) => s.len() as i64 * 10,
                    _ => 0,
                };
                self.object("U", id + by, f)
            }
            ("Query", "users") => Ok(json!([self.object("U", 1, f)?, self.object("U", 2, f)?])),
            ("Query", "node") => {
                let id = self.int(f, "id").ok_or("no id")?;
                self.object(node(id), id, f)
            }
            ("Query", "one") => leaf(json!(1)),
            ("U" | "N" | "M", "id") => leaf(json!(id)),
            ("N", "n") | ("M", "m") => leaf(json!(id * 2)),
            ("U", "name") => leaf(json!(format!("n{id}"))),
            ("U", "nick") if !self.client => leaf(json!(format!("k{id}"))),
            ("U", "handle") if self.client => leaf(json!(format!("k{id}"))),
            ("U", "town") if self.client => leaf(json!(format!("c{}", id * 7))),
            ("U", "first") if self.client => leaf(json!(format!("n{}", id + 2))),
            ("U", "pic") => {
                let mut t = format!("p{id}");
                for a in ["n", "s", "b", "o"] {
                    // what is null is as good as what is absent
                    if let Some(v) = self.arg(f, a).filter(|v| *v != Q::Null) {
                        t.push_str(&format!(" {a}:{}", show(&v)));
                    }
                }
                leaf(json!(t))
            }
            ("U", "friend") => self.object("U", id + 1, f),
            ("U", "friends") => Ok(json!([self.object("U", id + 2, f)?, self.object("U", id + 3, f)?])),
            ("U" | "M", "home") => self.object("A", id * 7, f),
            ("U", "work") => self.object("A", id * 11, f),
            ("A", "city") => leaf(json!(format!("c{id}"))),
            ("A", "zip") => leaf(json!(id)),
            ("A", "owner") => self.object("U", id + 1, f),
            ("U", "count" | "kept") if self.client => leaf(json!(id * 100)),
            ("U", "best") if self.client => self.object("U", id, f),
            _ => Err(format!("no field {name} on {on}")),
        }
    }
}
fn applies(t: &str, on: &str) -> bool {
    t == on || (t == "Node" && matches!(on, "N" | "M"))
}
fn merge(a: &mut Value, b: Value) {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                match a.get_mut(&k) {
                    Some(x) => merge(x, v),
                    None => {
                        a.insert(k, v);
                    }
                }
            }
        }
        (Value::Array(a), Value::Array(b)) => a.iter_mut().zip(b).for_each(|(x, y)| merge(x, y)),
        _ => {}
    }
}
fn answer(query: &str, client: bool, vars: &Map<String, Value>) -> Result<Value, String> {
    let doc = parse_query(query).map_err(|e| e.to_string())?;
    let op = match &doc.operations {
        DocumentOperations::Single(op) => op,
        DocumentOperations::Multiple(m) => m.values().next().ok_or("no operation")?,
    };
    let op = &op.node;
    let on = if op.ty == OperationType::Mutation { "Mutation" } else { "Query" };
    let mut out = Map::new();
    World { client, vars, doc: &doc, op }.set(on, 0, &op.selection_set.node, &mut out)?;
    Ok(Value::Object(out))
}
fn served(q: &Value) -> Value {
    let Some(text) = q["query"].as_str() else { return json!({"data": null, "errors": [{"message": "no query"}]}) };
    match answer(text, false, &Map::new()) {
        Ok(v) => json!({ "data": v }),
        Err(e) => json!({"data": null, "errors": [{"message": format!("{e} in {text}")}]}),
    }
}
struct Up {
    app: Arc<AppContext>,
    log: Arc<Mutex<Vec<String>>>,
}
fn up(schema: &str) -> Up {
    let log: Arc<Mutex<Vec<String>>> = Arc::default();
    let l2 = log.clone();
    let http = env::Http::new(move |r, _| {
        let body = match r.url().host_str() {
            Some("up") => {
                let text = String::from_utf8_lossy(r.body().unwrap().as_bytes().unwrap()).to_string();
                let v = match serde_json::from_str::<Value>(&text) {
                    Ok(Value::Array(l)) => Value::Array(l.iter().map(served).collect()),
                    Ok(v) => served(&v),
                    Err(e) => json!({"data": null, "errors": [{"message": format!("{e} in {text}")}]}),
                };
                l2.lock().unwrap().push(text);
                v
            }
            _ => {
                let id: i64 = r.url().path().rsplit('/').next().unwrap().parse().unwrap_or(-1);
                json!(id * 100)
            }
        };
        Ok(Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: body.to_string().into() })
    });
    let mut sdl = format!("schema {schema} {SDL}");
    if schema.contains("batch") {
        sdl = sdl.replace("name: \"user\"", "batch: true, name: \"user\"");
    }
    Up { app: env::app(env::blueprint(&sdl), http), log }
}
fn go(schema: &str, q: &str, vars: Value) {
    let up = up(schema);
    let Value::Object(vars) = vars else { unreachable!() };
    let more = if vars.is_empty() { String::new() } else { format!(",\"variables\":{}", Value::Object(vars.clone())) };
    let got = env::query(&up.app, q, &[], &more).unwrap();
    observe(&got.body);
    let got: Value = serde_json::from_slice(&got.body).unwrap();
    let want = match answer(q, true, &vars) {
        Ok(w) => w,
        Err(e) => {
            print(&format!("{e}: {q}"));
            check(false, "C20: the harness asks what can be answered");
            reject()
        }
    };
    if got["data"] != want || got.get("errors").is_some() {
        print(&format!("query {q} {}\nwant {want}\ngot  {got}\nsent {}", Value::Object(vars), up.log.lock().unwrap().join("\n     ")));
    }
    check(got.get("errors").is_none(), "C20: what the upstream could answer fails");
    check(got["data"] == want, "C20: another answer than the upstream's");
    cover("served");
}

// ---- what a client asks

fn leaf() -> &'static str {
    ["id", "name", "al: name", "handle", "__typename", "h: handle", "town", "first"][choose(8) as usize]
}
fn address() -> &'static str {
    ["{city}", "{zip}", "{zip city}", "{c: city}", "{owner {id}}"][choose(5) as usize]
}
fn user(depth: u8) -> String {
    match choose(if depth == 0 { 1 } else { 8 }) {
        0 => leaf().into(),
        1 => format!("friend {{{}}}", user(depth - 1)),
        2 => format!("friends {{{}}}", user(depth - 1)),
        3 => format!("home {}", address()),
        4 => format!("w: work {}", address()),
        5 => format!("... on U {{{}}}", user(depth - 1)),
        6 => format!("... {{{}}}", user(depth - 1)),
        _ => format!("f: friend {{{}}}", user(depth - 1)),
    }
}
fn root(sel: &str) -> String {
    match choose(7) {
        6 => {
            // lists of two resolvers are put together
            assume(!sel.contains("friends") && !sel.contains("first"));
            format!("{{both(id: 3) {{{sel}}}}}")
        }
        0 => format!("{{user(id: 3) {{{sel}}}}}"),
        1 => format!("{{a: user(id: 3) {{{sel}}} b: user(id: 4) {{{sel}}}}}"),
        2 => format!("{{users {{{sel}}}}}"),
        3 => format!("mutation {{rename(id: 3) {{{sel}}}}}"),
        4 => format!("{{one user(id: 3) {{...F}}}} fragment F on U {{{sel}}}"),
        _ => format!("{{person(tag: \"ab\") {{{sel}}}}}"),
    }
}
pub extern "C" fn h_c20_selected() {
    let sel = user(1);
    go("", &root(&sel), json!({}));
}
pub extern "C" fn h_c20_selected_deep() {
    let sel = user(2);
    go("", &root(&sel), json!({}));
}
pub extern "C" fn h_c20_two() {
    let sel = format!("{} {}", user(1), user(1));
    go("", &format!("{{user(id: 3) {{{sel}}}}}"), json!({}));
}
/// fields that others resolve
fn other() -> &'static str {
    match choose(8) {
        0 => "count",
        1 => "kept",
        2 => "best {name}",
        3 => "friend {id count name}",
        4 => "best {id friend {id kept}}",
        5 => "c: count",
        6 => "best {one: best {id}  id}",
        _ => "home {owner {id count}}",
    }
}
pub extern "C" fn h_c20_others() {
    let sel = format!("id {} {}", other(), other());
    go("", &root(&sel), json!({}));
}
/// queries of one batch, and a validated query
pub extern "C" fn h_c20_batched() {
    let sel = format!("id {}", other());
    go(["@upstream(batch: {delay: 1})", "@upstream(batch: {delay: 1, maxSize: 1})", "@server(queryValidation: true)"][choose(3) as usize], &root(&sel), json!({}));
}
/// known: what another resolver uses is only asked for when the client selects it too
pub extern "C" fn h_c20_unselected() {
    let sel = ["count", "kept", "best {name}", "friend {count}", "home {owner {count}}"][choose(5) as usize];
    let up = up("");
    let got = env::query(&up.app, &format!("{{user(id: 3) {{{sel}}}}}"), &[], "").unwrap();
    let got: Value = serde_json::from_slice(&got.body).unwrap();
    let want = answer(&format!("{{user(id: 3) {{{sel}}}}}"), true, &Map::new()).unwrap();
    check(got["data"] == want, "known value-not-selected");
    cover("served");
}
/// texts of every kind as arguments, written in the query or as variables
fn arguments(max: u8) {
    let n = choose(max + 2) as usize;
    let s = if n <= max as usize { conc_string_of(b"a\"\\\n{}.$", n) } else { String::new() };
    let s = if n > max as usize { ["{{.args.id}}", "{{.env.X}}", "{{.v}}", "$v"][choose(4) as usize].to_string() } else { s };
    let lit = serde_json::to_string(&s).unwrap();
    let (q, vars) = match choose(6) {
        0 => (format!("{{user(id: 3) {{pic(s: {lit})}}}}"), json!({})),
        1 => ("query($v: String) {user(id: 3) {pic(s: $v)}}".into(), json!({"v": s})),
        2 => (format!("{{user(id: 3) {{pic(o: {{s: {lit}, l: [1, 2]}})}}}}"), json!({})),
        3 => ("query($v: In) {user(id: 3) {pic(o: $v)}}".into(), json!({"v": {"s": s, "a": 1}})),
        4 => (format!("{{person(tag: {lit}) {{name}}}}"), json!({})),
        _ => ("query($v: String) {person(id: 1, tag: $v) {name}}".into(), json!({"v": s})),
    };
    go("", &q, vars);
}
pub extern "C" fn h_c20_arguments() {
    arguments(1)
}
pub extern "C" fn h_c20_arguments_deep() {
    arguments(2)
}
pub extern "C" fn h_c20_variables() {
    let given = choose_bool();
    let (q, vars) = match choose(8) {
        0 => ("query($v: Int = 4) {user(id: 3) {pic(n: $v)}}", json!({"v": 5})),
        1 => ("query($v: Int) {user(id: 3) {pic(n: $v, b: true)}}", json!({"v": 5})),
        2 => ("query($v: Boolean) {user(id: 3) {pic(b: $v, n: -1)}}", json!({"v": false})),
        3 => ("query($v: Int!) {user(id: $v) {id}}", json!({"v": 5})),
        4 => ("query($v: Boolean = true) {user(id: 3) {id name @include(if: $v)}}", json!({"v": false})),
        5 => ("query($v: Boolean = true) {user(id: 3) {id friend @skip(if: $v) {name}}}", json!({"v": false})),
        6 => ("query($v: Int = 4) {user(id: 3) {pic(o: {a: $v, l: [$v]})}}", json!({"v": 5})),
        _ => ("query($v: [Int]) {user(id: 3) {pic(o: {l: $v})}}", json!({"v": [1, 2]})),
    };
    assume(given || !q.contains("Int!"));
    if !given && vars.get("v").is_some() && !q.contains(" = ") {
        let up = up("");
        let got = env::query(&up.app, q, &[], "").unwrap();
        let got: Value = serde_json::from_slice(&got.body).unwrap();
        check(got.get("errors").is_none(), "known optional-variable");
        cover("served");
        return;
    }
    go("", q, if given { vars } else { json!({}) });
}
pub extern "C" fn h_c20_interface() {
    let part = || match choose(8) {
        0 => "id",
        1 => "... on N {n}",
        2 => "... on M {m}",
        3 => "... on M {home {city}}",
        4 => "__typename",
        5 => "... on Node {id}",
        6 => "...F",
        _ => "i: id",
    };
    let (a, b) = (part(), part());
    let id = 3 + choose(2);
    let frag = if a == "...F" || b == "...F" { "fragment F on M {m id}" } else { "" };
    go("", &format!("{{node(id: {id}) {{{a} {b}}}}} {frag}"), json!({}));
}
crate::harnesses!(h_c20_selected, h_c20_selected_deep, h_c20_two, h_c20_others, h_c20_batched, h_c20_unselected, h_c20_arguments, h_c20_arguments_deep, h_c20_variables, h_c20_interface);
