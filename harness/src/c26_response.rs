//! C26: the response has the shape the query asks for
use crate::env;
use crate::rt::*;
use crate::util::*;
use std::sync::{Arc, Mutex};
use tailcall::core::app_context::AppContext;
use tailcall::core::http::Response;

/// the types; resolved fields have a path of the upstream
const SDL: &str = "schema @server { query: Query }
type Query { one: Obj @http(url: \"http://up/one\") must: Obj! @http(url: \"http://up/one\") list: [Obj] @http(url: \"http://up/list\")
 node: Node @http(url: \"http://up/node\") @discriminate(field: \"t\") nodes: [Node] @http(url: \"http://up/nodes\") @discriminate(field: \"t\")
 any: Any @http(url: \"http://up/node\") @discriminate(field: \"t\")
 i: Int @http(url: \"http://up/v\") ii: Int! @http(url: \"http://up/v\") w: Wrap @http(url: \"http://up/w\") 
 arg(v: Int): Int @expr(body: \"{{.args.v}}\") both(v: Int, u: Int = 7): Two @expr(body: {a: \"{{.args.v}}\", b: \"{{.args.u}}\"}) }
type Two { a: Int b: Int }
type Obj { a: Int! b: Int child: Obj kids: [Obj] deep: Obj @http(url: \"http://up/deep/{{.value.a}}\") }
interface Node { a: Int child: Obj }
type A implements Node { a: Int child: Obj x: Int c: Obj }
type B implements Node { a: Int child: Obj x: Int y: Int c: Obj }
union Any = A | B
enum Color { RED GREEN }
type Wrap { n: Int nn: Int! l: [Int] ln: [Int!] nl: [Int]! nln: [Int!]! ll: [[Int!]] o: [Obj!] oo: Must e: Color le: [Color!] u: [UInt8] }
type Must { m: Int! q: Must }
";
#[derive(Clone)]
enum T {
    N(&'static str, bool),
    L(Box<T>, bool),
}
impl T {
    fn name(&self) -> &'static str {
        match self {
            T::N(n, _) => n,
            T::L(t, _) => t.name(),
        }
    }
    fn required(&self) -> bool {
        match self {
            T::N(_, r) | T::L(_, r) => *r,
        }
    }
}
/// a type as it is written
fn ty(s: &'static str) -> T {
    let (r, s) = match s.strip_suffix('!') {
        Some(s) => (true, s),
        None => (false, s),
    };
    match s.strip_prefix('[') {
        Some(s) => T::L(Box::new(ty(&s[..s.len() - 1])), r),
        None => T::N(s, r),
    }
}
/// the type of a field
fn field(on: &str, name: &str) -> Option<&'static str> {
    Some(match (on, name) {
        (_, "__typename") => "String!",
        ("Query", "one") => "Obj",
        ("Query", "must") => "Obj!",
        ("Query", "list") => "[Obj]",
        ("Query", "node") => "Node",
        ("Query", "nodes") => "[Node]",
        ("Query", "any") => "Any",
        ("Query", "i") => "Int",
        ("Query", "ii") => "Int!",
        ("Query", "w") => "Wrap",
        ("Obj", "a") => "Int!",
        ("Node" | "A" | "B", "a") | ("Obj", "b") | ("A" | "B", "x") | ("B", "y") => "Int",
        ("Obj" | "Node" | "A" | "B", "child") | ("Obj", "deep") | ("A" | "B", "c") => "Obj",
        ("Obj", "kids") => "[Obj]",
        ("Wrap", "n") => "Int",
        ("Wrap", "nn") => "Int!",
        ("Wrap", "l") => "[Int]",
        ("Wrap", "ln") => "[Int!]",
        ("Wrap", "nl") => "[Int]!",
        ("Wrap", "nln") => "[Int!]!",
        ("Wrap", "ll") => "[[Int!]]",
        ("Wrap", "o") => "[Obj!]",
        ("Wrap", "oo") | ("Must", "q") => "Must",
        ("Must", "m") => "Int!",
        ("Wrap", "e") => "Color",
        ("Wrap", "le") => "[Color!]",
        ("Wrap", "u") => "[UInt8]",
        _ => return None,
    })
}
fn applies(on: &str, t: &str) -> bool {
    on == t || matches!((on, t), ("Node" | "Any", "A" | "B"))
}
fn path_of(on: &str, name: &str, value: &J) -> Option<String> {
    Some(match (on, name) {
        ("Query", "one" | "must") => "/one".into(),
        ("Query", "list") => "/list".into(),
        ("Query", "node" | "any") => "/node".into(),
        ("Query", "nodes") => "/nodes".into(),
        ("Query", "i" | "ii") => "/v".into(),
        ("Query", "w") => "/w".into(),
        ("Obj", "deep") => format!("/deep/{}", value.get("a").map(|x| x.json()).unwrap_or_default()),
        _ => return None,
    })
}

#[derive(Clone)]
enum If {
    Lit(bool),
    /// the variable s or t
    Var(u8),
}
#[derive(Clone, Default)]
struct Dirs {
    skip: Option<If>,
    include: Option<If>,
}
enum Sel {
    F { alias: Option<&'static str>, name: &'static str, dirs: Dirs, sub: Vec<Sel> },
    /// an inline fragment or a spread
    Frag { on: Option<&'static str>, spread: bool, dirs: Dirs, sub: Vec<Sel> },
}
fn f(name: &'static str, sub: Vec<Sel>) -> Sel {
    Sel::F { alias: None, name, dirs: Dirs::default(), sub }
}
fn a(alias: &'static str, name: &'static str, sub: Vec<Sel>) -> Sel {
    Sel::F { alias: Some(alias), name, dirs: Dirs::default(), sub }
}
fn on(t: &'static str, sub: Vec<Sel>) -> Sel {
    Sel::Frag { on: Some(t), spread: false, dirs: Dirs::default(), sub }
}
fn dirs(d: &Dirs, out: &mut String) {
    for (n, c) in [("skip", &d.skip), ("include", &d.include)] {
        match c {
            Some(If::Lit(b)) => out.push_str(&format!(" @{n}(if: {b})")),
            Some(If::Var(v)) => out.push_str(&format!(" @{n}(if: ${})", ["s", "t"][*v as usize])),
            None => {}
        }
    }
}
fn print_set(sels: &[Sel], out: &mut String, frags: &mut Vec<String>) {
    out.push_str(" {");
    for s in sels {
        out.push(' ');
        match s {
            Sel::F { alias, name, dirs: d, sub } => {
                if let Some(x) = alias {
                    out.push_str(x);
                    out.push_str(": ");
                }
                out.push_str(name);
                dirs(d, out);
                if !sub.is_empty() {
                    print_set(sub, out, frags);
                }
            }
            Sel::Frag { on, spread: false, dirs: d, sub } => {
                out.push_str("...");
                if let Some(t) = on {
                    out.push_str(" on ");
                    out.push_str(t);
                }
                dirs(d, out);
                print_set(sub, out, frags);
            }
            Sel::Frag { on, dirs: d, sub, .. } => {
                let n = frags.len();
                frags.push(String::new());
                let mut t = format!(" fragment F{n} on {}", on.unwrap());
                print_set(sub, &mut t, frags);
                frags[n] = t;
                out.push_str(&format!("...F{n}"));
                dirs(d, out);
            }
        }
    }
    out.push_str(" }");
}
fn query(sels: &[Sel]) -> String {
    let (mut body, mut frags) = (String::new(), vec![]);
    print_set(sels, &mut body, &mut frags);
    let mut q = String::from("query");
    if body.contains('$') || frags.iter().any(|f| f.contains('$')) {
        q.push_str("($s: Boolean = false, $t: Boolean = true)");
    }
    q + &body + &frags.concat()
}

/// what GraphQL says the answer is
struct Oracle<'a> {
    vars: [Option<bool>; 2],
    upstream: &'a dyn Fn(&str) -> J,
    /// where a value is missing which must not be
    bad: Vec<Vec<J>>,
}
impl Oracle<'_> {
    fn holds(&self, c: &If) -> bool {
        match c {
            If::Lit(b) => *b,
            If::Var(v) => self.vars[*v as usize].unwrap_or([false, true][*v as usize]),
        }
    }
    fn wanted(&self, d: &Dirs) -> bool {
        !d.skip.as_ref().is_some_and(|c| self.holds(c)) && d.include.as_ref().is_none_or(|c| self.holds(c))
    }
    fn collect<'s>(&self, t: &str, sels: &[&'s Sel], out: &mut Vec<(&'static str, Vec<&'s Sel>)>) {
        for s in sels {
            match s {
                Sel::F { alias, name, dirs, .. } if self.wanted(dirs) => {
                    let n = alias.unwrap_or(name);
                    match out.iter_mut().find(|x| x.0 == n) {
                        Some(x) => x.1.push(s),
                        None => out.push((n, vec![s])),
                    }
                }
                Sel::Frag { on, dirs, sub, .. } if self.wanted(dirs) && on.is_none_or(|o| applies(o, t)) => {
                    self.collect(t, &sub.iter().collect::<Vec<_>>(), out)
                }
                _ => {}
            }
        }
    }
    fn object(&mut self, t: &'static str, value: &J, sels: &[&Sel], path: &mut Vec<J>) -> J {
        let t = match value.get("t") {
            Some(J::Str(s)) if s == "A" => "A",
            Some(J::Str(s)) if s == "B" => "B",
            _ => t,
        };
        let mut groups = vec![];
        self.collect(t, sels, &mut groups);
        let mut out = vec![];
        for (n, group) in groups {
            let Sel::F { name, .. } = group[0] else { continue };
            let subs: Vec<&Sel> = group
                .iter()
                .flat_map(|s| match s {
                    Sel::F { sub, .. } => sub.iter(),
                    _ => [].iter(),
                })
                .collect();
            if *name == "__typename" {
                out.push((n.to_string(), J::Str(t.to_string())));
                continue;
            }
            let ft = ty(field(t, name).unwrap());
            let v = match path_of(t, name, value) {
                Some(p) => (self.upstream)(&p),
                None => value.get(name).cloned().unwrap_or(J::Null),
            };
            path.push(J::Str(n.to_string()));
            let v = self.complete(&ft, &v, &subs, path);
            path.pop();
            out.push((n.to_string(), v));
        }
        J::Obj(out)
    }
    fn complete(&mut self, t: &T, v: &J, subs: &[&Sel], path: &mut Vec<J>) -> J {
        match (t, v) {
            (_, J::Null) => {
                if t.required() {
                    self.bad.push(path.clone());
                }
                J::Null
            }
            (T::L(t, _), J::List(l)) => J::List(
                l.iter()
                    .enumerate()
                    .map(|(i, v)| {
                        path.push(J::Int(i as i64));
                        let v = self.complete(t, v, subs, path);
                        path.pop();
                        v
                    })
                    .collect(),
            ),
            (T::N("Color", _), v) => {
                if !matches!(v, J::Str(s) if s == "RED" || s == "GREEN") {
                    self.bad.push(path.clone());
                }
                v.clone()
            }
            (T::N("UInt8", _), v) => {
                if !matches!(v, J::Int(0..=255)) {
                    self.bad.push(path.clone());
                }
                v.clone()
            }
            (_, J::Obj(_)) => self.object(t.name(), v, subs, path),
            _ => v.clone(),
        }
    }
}

fn deep(p: &str) -> J {
    let n = p.len() as i64;
    J::Obj(vec![("a".into(), J::Int(n)), ("b".into(), J::Int(n * 10)), ("child".into(), J::Obj(vec![("b".into(), J::Int(n + 2))]))])
}
/// a usual upstream
fn usual(p: &str) -> J {
    let obj = |n: i64| {
        J::Obj(vec![
            ("a".into(), J::Int(n)),
            ("b".into(), J::Int(n + 1)),
            ("child".into(), J::Obj(vec![("a".into(), J::Int(n + 2)), ("b".into(), J::Int(n + 3)), ("child".into(), J::Null)])),
            ("kids".into(), J::List(vec![J::Obj(vec![("a".into(), J::Int(n + 4)), ("b".into(), J::Int(n + 5))]), J::Null])),
        ])
    };
    let node = |t: &str, n: i64| {
        let J::Obj(mut o) = obj(n) else { unreachable!() };
        o.push(("t".into(), J::Str(t.into())));
        o.push(("x".into(), J::Int(n + 6)));
        o.push(("y".into(), J::Int(n + 7)));
        o.push(("c".into(), obj(n + 20)));
        J::Obj(o)
    };
    match p {
        "/one" => obj(10),
        "/v" => J::Int(4),
        "/list" => J::List(vec![obj(100), J::Null, obj(200)]),
        "/node" => node("A", 300),
        "/nodes" => J::List(vec![node("B", 400), node("A", 500)]),
        _ => deep(p),
    }
}
struct Up {
    app: Arc<AppContext>,
    /// bodies which are not the usual ones
    special: Arc<Mutex<Vec<(String, J)>>>,
}
fn up() -> Up {
    let special: Arc<Mutex<Vec<(String, J)>>> = Arc::default();
    let s2 = special.clone();
    let http = env::Http::new(move |r, _| {
        let p = r.url().path();
        let j = s2.lock().unwrap().iter().find(|x| x.0 == p).map(|x| x.1.clone()).unwrap_or_else(|| usual(p));
        Ok(Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: j.json().into() })
    });
    Up { app: env::app(env::blueprint(SDL), http), special }
}
fn same_path(want: &[J], got: &serde_json::Value) -> bool {
    got.as_array().is_some_and(|l| l.len() == want.len() && want.iter().zip(l).all(|(w, g)| same_serde(w, g)))
}
fn go(up: &Up, sels: Vec<Sel>, vars: [Option<bool>; 2]) {
    let q = query(&sels);
    let mut more: Vec<String> = vec![];
    for (n, v) in ["s", "t"].iter().zip(vars) {
        if let Some(v) = v {
            more.push(format!("\"{n}\":{v}"));
        }
    }
    let got = env::query(&up.app, &q, &[], &format!(",\"variables\":{{{}}}", more.join(","))).unwrap();
    let special = up.special.lock().unwrap().clone();
    let upstream = |p: &str| special.iter().find(|x| x.0 == p).map(|x| x.1.clone()).unwrap_or_else(|| usual(p));
    let mut o = Oracle { vars, upstream: &upstream, bad: vec![] };
    let want = o.object("Query", &J::Obj(vec![]), &sels.iter().collect::<Vec<_>>(), &mut vec![]);
    check(got.status == 200, "the status is 200");
    let got = got.body;
    observe(&got);
    if o.bad.is_empty() {
        let mut t = b"{\"data\":".to_vec();
        want.text(&mut t);
        t.push(b'}');
        if got != t {
            print(&format!("query {q}\nwant {}\ngot  {}", String::from_utf8_lossy(&t), String::from_utf8_lossy(&got)));
        }
        check(got == t, "the response is what the query selects");
        cover("answered");
    } else {
        let v: serde_json::Value = serde_json::from_slice(&got).unwrap();
        let ok = v.get("data").is_none_or(|d| d.is_null())
            && v["errors"].as_array().is_some_and(|l| !l.is_empty() && l.iter().all(|e| o.bad.iter().any(|p| same_path(p, &e["path"]))));
        if !ok {
            print(&format!("query {q}\nwant {:?}\ngot  {}", o.bad.iter().map(|x| x.iter().map(|y| y.json()).collect::<Vec<_>>()).collect::<Vec<_>>(), String::from_utf8_lossy(&got)));
        }
        check(ok, "an invalid value is reported at its path");
        cover("refused");
    }
}
const NONE: [Option<bool>; 2] = [None, None];

fn cond() -> If {
    match choose(4) {
        0 => If::Lit(false),
        1 => If::Lit(true),
        2 => If::Var(0),
        _ => If::Var(1),
    }
}
fn variables() -> [Option<bool>; 2] {
    let one = || match choose(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    [one(), one()]
}
/// a leaf of an object
fn leaf() -> Sel {
    match choose(4) {
        0 => f("a", vec![]),
        1 => f("b", vec![]),
        2 => a("x", "a", vec![]),
        _ => a("a", "b", vec![]),
    }
}
fn leaf2() -> Sel {
    if choose_bool() { f("a", vec![]) } else { a("x", "b", vec![]) }
}
/// a selection in an object, where a response name always is of one field
fn item(sub: impl Fn() -> Vec<Sel>) -> Sel {
    match choose(8) {
        0 => f("a", vec![]),
        1 => a("x", "a", vec![]),
        2 => f("child", sub()),
        3 => a("y", "child", sub()),
        4 => f("deep", sub()),
        5 => a("z", "deep", sub()),
        6 => on("Obj", sub()),
        _ => f("kids", sub()),
    }
}
fn root(sub: Vec<Sel>) -> Sel {
    match choose(4) {
        0 => f("one", sub),
        1 => a("r", "one", sub),
        2 => f("list", sub),
        _ => a("l", "list", sub),
    }
}
/// aliases, resolvers within objects, a field selected repeatedly
pub fn h_c26_merge() {
    let up = up();
    let sub = || vec![if choose_bool() { f("a", vec![]) } else { f("b", vec![]) }];
    let sels = vec![item(sub), item(sub)];
    let r = root(sels);
    go(&up, vec![r], NONE)
}
/// more of them, at several levels
pub fn h_c26_nested() {
    let up = up();
    let leaf = || vec![f(["a", "b"][choose(2) as usize], vec![])];
    let sub = || match choose(4) {
        0 => vec![f("child", leaf())],
        1 => vec![a("y", "deep", leaf()), f("a", vec![])],
        2 => vec![f("deep", vec![f("deep", leaf())])],
        _ => vec![f("kids", vec![a("z", "deep", leaf())])],
    };
    let mut out = vec![];
    for _ in 0..2 {
        let name = ["child", "deep", "kids"][choose(3) as usize];
        let s = sub();
        out.push(if choose_bool() { a("q", name, s) } else { f(name, s) });
    }
    // one response name, two fields: not a valid query
    if let [Sel::F { alias: Some(_), name: n1, .. }, Sel::F { alias: Some(_), name: n2, .. }] = &out[..] {
        assume(n1 == n2);
    }
    let r = if choose_bool() { f("one", out) } else { f("list", out) };
    go(&up, vec![r], NONE)
}
/// the same root field twice
pub fn h_c26_roots() {
    let up = up();
    let s = || vec![item(|| vec![f("a", vec![])])];
    let x = root(s());
    let y = root(s());
    let frag = choose(3);
    let y = match frag {
        0 => y,
        1 => on("Query", vec![y]),
        _ => Sel::Frag { on: Some("Query"), spread: true, dirs: Dirs::default(), sub: vec![y] },
    };
    go(&up, vec![x, f("__typename", vec![]), y], NONE)
}
fn put_dirs(s: Sel, d: Dirs) -> Sel {
    match s {
        Sel::F { alias, name, sub, .. } => Sel::F { alias, name, dirs: d, sub },
        Sel::Frag { on, spread, sub, .. } => Sel::Frag { on, spread, dirs: d, sub },
    }
}
/// conditions on one selection: both, any order of variables
pub fn h_c26_conditions() {
    let up = up();
    let d = Dirs { skip: if choose_bool() { Some(cond()) } else { None }, include: if choose_bool() { Some(cond()) } else { None } };
    let vars = variables();
    let sub = vec![f("a", vec![]), f("b", vec![])];
    let s = match choose(6) {
        0 => f("one", vec![put_dirs(f("b", vec![]), d), f("a", vec![])]),
        1 => f("one", vec![f("a", vec![]), put_dirs(on("Obj", vec![f("b", vec![])]), d)]),
        2 => f("one", vec![put_dirs(Sel::Frag { on: Some("Obj"), spread: true, dirs: Dirs::default(), sub }, d), a("x", "a", vec![])]),
        3 => f("list", vec![f("a", vec![]), put_dirs(f("deep", sub), d)]),
        4 => put_dirs(f("one", sub), d),
        _ => f("one", vec![f("a", vec![]), put_dirs(Sel::Frag { on: None, spread: false, dirs: Dirs::default(), sub: vec![f("b", vec![])] }, d)]),
    };
    go(&up, vec![s, f("__typename", vec![])], vars)
}
/// one condition each on two occurrences of a field, possibly in fragments
pub fn h_c26_guards() {
    let up = up();
    let one = |sub: Vec<Sel>| {
        let d = match choose(5) {
            0 => Dirs::default(),
            1 => Dirs { skip: Some(If::Var(0)), include: None },
            2 => Dirs { skip: None, include: Some(If::Var(0)) },
            3 => Dirs { skip: Some(If::Var(1)), include: Some(If::Var(0)) },
            _ => Dirs { skip: None, include: Some(If::Lit(false)) },
        };
        let s = f("child", sub);
        match choose(3) {
            0 => put_dirs(s, d),
            1 => put_dirs(on("Obj", vec![s]), d),
            _ => put_dirs(on("Obj", vec![put_dirs(s, Dirs { skip: None, include: Some(If::Var(1)) })]), d),
        }
    };
    let x = one(vec![f("a", vec![]), f("b", vec![])]);
    let y = one(vec![f("b", vec![])]);
    let vars = [Some(choose_bool()), Some(choose_bool())];
    go(&up, vec![f("one", vec![x, y, f("a", vec![])])], vars)
}
fn poly(items: usize) -> Vec<Sel> {
    let mut out = vec![];
    for _ in 0..items {
        let sub = |t: &'static str| {
            let mut l = vec![if t != "Any" && choose_bool() { f("a", vec![]) } else { f("__typename", vec![]) }];
            match (t, choose(3)) {
                ("A" | "B", 0) => l.push(f("x", vec![])),
                ("B", 1) => l.push(f("y", vec![])),
                ("Node" | "A", 1) => l.push(f("child", vec![f("a", vec![])])),
                (_, 2) if t != "Any" => l.push(a("x", "child", vec![f("b", vec![])])),
                _ => {}
            }
            l
        };
        let t = ["A", "B", "Node"][choose(3) as usize];
        let l = sub(t);
        out.push(match choose(3) {
            0 => on(t, l),
            1 => Sel::Frag { on: Some(t), spread: true, dirs: Dirs::default(), sub: l },
            _ => on("Node", vec![on(t, l)]),
        });
    }
    out
}
/// x is either the number or the child for all types
fn valid(sels: &[Sel], seen: &mut Vec<&'static str>) {
    for s in sels {
        match s {
            Sel::F { alias: Some("x"), .. } => seen.push("child"),
            Sel::F { name: "x", .. } => seen.push("x"),
            Sel::F { .. } => {}
            Sel::Frag { sub, .. } => valid(sub, seen),
        }
    }
}
/// fragments on the types of an interface or a union
pub fn h_c26_types() {
    let up = up();
    let sels = poly(2);
    let mut seen = vec![];
    valid(&sels, &mut seen);
    assume(seen.windows(2).all(|w| w[0] == w[1]));
    let r = f(["node", "nodes", "any"][choose(3) as usize], sels);
    go(&up, vec![r], NONE)
}
/// the same with fields of the interface among them
pub fn h_c26_interface() {
    let up = up();
    let mut sels = vec![];
    for _ in 0..2 {
        let sub = || vec![f(["a", "b"][choose(2) as usize], vec![])];
        let t = ["A", "B", "Node"][choose(3) as usize];
        sels.push(match choose(5) {
            0 => f("child", sub()),
            1 => f("__typename", vec![]),
            2 => on(t, vec![f("child", sub())]),
            3 => on(t, vec![f("__typename", vec![]), f("a", vec![])]),
            _ => on(t, vec![f("child", vec![f("deep", sub())])]),
        });
    }
    let r = f(["node", "nodes"][choose(2) as usize], sels);
    go(&up, vec![r], NONE)
}
fn value_of(t: &T, depth: u8) -> J {
    let n = J::Null;
    if choose(3) == 0 {
        return n;
    }
    match t {
        T::L(t, _) => J::List((0..choose(3)).map(|_| value_of(t, depth)).collect()),
        T::N("Color", _) => J::Str(["RED", "GREEN", "red", ""][choose(4) as usize].into()),
        T::N("UInt8", _) => [J::Int(0), J::Int(255), J::Int(256), J::Int(-1), J::Str("1".into())][choose(5) as usize].clone(),
        T::N("Int", _) => J::Int(5),
        T::N("Obj", _) => J::Obj(if choose_bool() { vec![] } else { vec![("a".into(), J::Int(3))] }),
        T::N(_, _) => {
            let mut o = vec![];
            if choose_bool() {
                o.push(("m".to_string(), value_of(&ty("Int!"), 0)));
            }
            if depth > 0 && choose_bool() {
                o.push(("q".to_string(), value_of(t, depth - 1)));
            }
            J::Obj(o)
        }
    }
}
fn nulls(names: &[&'static str]) {
    let up = up();
    let n = names[choose(names.len() as u8) as usize];
    let t = ty(field("Wrap", n).unwrap());
    let v = value_of(&t, 1);
    let w = match choose(3) {
        0 => J::Obj(vec![(n.to_string(), v)]),
        1 => J::Obj(vec![("n".to_string(), J::Int(1)), (n.to_string(), v)]),
        _ => J::Obj(vec![("other".to_string(), v)]),
    };
    *up.special.lock().unwrap() = vec![("/w".to_string(), w)];
    let sub = match t.name() {
        "Obj" => vec![f("a", vec![])],
        "Must" => vec![f("m", vec![]), f("q", vec![f("m", vec![])])],
        _ => vec![],
    };
    let s = if choose_bool() { f(n, sub) } else { a("k", n, sub) };
    go(&up, vec![f("w", vec![s, f("n", vec![])])], NONE)
}
/// values which are missing, at each level of their type
pub fn h_c26_nulls() {
    nulls(&["nn", "l", "ln", "nl", "nln", "o"])
}
pub fn h_c26_nulls2() {
    nulls(&["ll", "oo"])
}
pub fn h_c26_scalars() {
    nulls(&["e", "le", "u"])
}
/// a value of the upstream itself
pub fn h_c26_tops() {
    let up = up();
    let (p, v) = match choose(7) {
        0 => ("/v", J::Null),
        1 => ("/v", J::Int(4)),
        2 => ("/one", J::Null),
        3 => ("/one", J::Obj(vec![])),
        4 => ("/list", J::Null),
        5 => ("/list", J::List(vec![])),
        _ => ("/nodes", J::List(vec![J::Null])),
    };
    *up.special.lock().unwrap() = vec![(p.to_string(), v)];
    let l = || vec![f("a", vec![]), f("child", vec![f("a", vec![])])];
    let s = match choose(6) {
        0 => f("i", vec![]),
        1 => a("k", "ii", vec![]),
        2 => f("one", l()),
        3 => a("k", "must", l()),
        4 => f("list", l()),
        _ => f("nodes", l()),
    };
    let which = ["/v", "/v", "/one", "/one", "/list", "/nodes"];
    let _ = which;
    go(&up, vec![s], NONE)
}
/// fragments which spread each other
pub fn h_c26_cycles() {
    let up = up();
    let names = ["F", "G", "H"];
    let mut q = String::from("{ one { ...F } }");
    let mut edges = [[false; 3]; 3];
    for (i, n) in names.iter().enumerate() {
        let mut b = String::from("a");
        for (j, m) in names.iter().enumerate() {
            if choose_bool() {
                edges[i][j] = true;
                b.push_str(&match (i + j) % 3 {
                    0 => format!(" child {{ ...{m} }}"),
                    1 => format!(" ...{m}"),
                    _ => format!(" ... on Obj {{ ...{m} }}"),
                });
            }
        }
        q.push_str(&format!(" fragment {n} on Obj {{ {b} }}"));
    }
    // whether a fragment within F spreads itself
    let mut reach = edges;
    for k in 0..3 {
        for i in 0..3 {
            for j in 0..3 {
                reach[i][j] |= reach[i][k] && reach[k][j];
            }
        }
    }
    let cyclic = (0..3).any(|i| reach[i][i] && (i == 0 || reach[0][i]));
    let got = env::query(&up.app, &q, &[], "").unwrap();
    let v: serde_json::Value = serde_json::from_slice(&got.body).unwrap();
    let errors = v["errors"].as_array().is_some_and(|l| !l.is_empty());
    check(errors == cyclic, "an error just for fragments which spread themselves");
    check(cyclic || v["data"]["one"]["a"] == 10, "and the data otherwise");
    observe(&got.body);
    cover(if cyclic { "refused" } else { "answered" });
}
/// the values of variables: given, by default, of the argument
pub fn h_c26_defaults() {
    let up = up();
    let decl = choose(3);
    let given = choose(3);
    let q = match decl {
        0 => "query($v: Int) { arg(v: $v) both(v: $v, u: $v) { a b } }",
        1 => "query($v: Int = 3) { arg(v: $v) both(v: $v, u: $v) { a b } }",
        _ => "query($v: Int = null) { arg(v: $v) both(v: 1) { a b } }",
    };
    let more = [",\"variables\":{}", ",\"variables\":{\"v\":null}", ",\"variables\":{\"v\":5}"][given as usize];
    let got = env::query(&up.app, q, &[], more).unwrap();
    let v: serde_json::Value = serde_json::from_slice(&got.body).unwrap();
    observe(&got.body);
    let val = match (given, decl) {
        (2, _) => Some(5),
        (0, 1) => Some(3),
        (0, 0) => return,
        _ => None,
    };
    check(v["data"]["arg"].as_i64() == val, "the value of the variable");
    let (a, b) = if decl == 2 { (Some(1), Some(7)) } else { (val, val) };
    check(v["data"]["both"]["a"].as_i64() == a && v["data"]["both"]["b"].as_i64() == b, "and of the others");
    cover("values");
}
crate::harnesses!(h_c26_merge, h_c26_nested, h_c26_roots, h_c26_conditions, h_c26_guards, h_c26_types, h_c26_interface, h_c26_nulls, h_c26_nulls2, h_c26_scalars, h_c26_tops, h_c26_cycles, h_c26_defaults);
