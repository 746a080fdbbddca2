//! C02: templates are rendered with exactly the values they name
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use tailcall::core::blueprint::DynamicValue;
use tailcall::core::mustache::{Mustache, PathStringEval, Segment};
use tailcall::core::ir::{model::IR, EvalContext};

fn eval(d: &DynamicValue<GV>, c: &EvalContext<'_, G>) -> GV {
    let ir = IR::Dynamic(d.clone());
    let mut c = c.clone();
    let r = block_on(ir.eval(&mut c));
    check(r.is_ok(), "a body can always be rendered");
    r.unwrap_or_default()
}
fn scalar(set: &[u8], n: usize) -> J {
    match choose(8) {
        0 => J::Null,
        1 => J::Bool(any_bool()),
        2 => J::Int(INTS[choose(INTS.len() as u8) as usize]),
        3 => J::Float(1.5),
        4 => J::Str("12".into()),
        5 => J::Str("true".into()),
        6 => J::Str("".into()),
        _ => J::Str(string_of(set, n)),
    }
}
const SET: &[u8] = b"ab {}\"\\.1&\n";
fn any(set: &[u8]) -> J {
    match choose(4) {
        0 => J::List(vec![J::Str(string_of(set, 1)), J::Null, J::Int(3)]),
        1 => J::Obj(vec![("k".into(), J::Str(string_of(set, 1))), ("n".into(), J::Int(-4))]),
        _ => scalar(set, 2),
    }
}
const PATHS: &[&[&str]] = &[
    &["value", "a"], &["args", "x"], &["vars", "v"], &["headers", "h1"], &["env", "E"],
    &["value", "a", "k"], &["args", "x", "0"], &["value"], &["args"],
    &["value", "zz"], &["args", "X"], &["vars", "zz"], &["headers", "zz"], &["env", "e"], &["other", "a"], &["args", "x", "k", "y"],
    &["value", "a", "2"], &["args", "x", "n"], &["vars"],
];
fn any_path() -> &'static [&'static str] {
    PATHS[choose(PATHS.len() as u8) as usize]
}
fn base() -> World {
    World {
        value: Some(J::Obj(vec![("a".into(), J::Str("va".into()))])),
        args: Some(J::Obj(vec![("x".into(), J::Int(5)), ("y".into(), J::Str("ay".into()))])),
        vars: vec![pair("v", "var"), pair("w", "War")],
        headers: vec![pair("h1", "head"), pair("h2", "er")],
        env: vec![pair("E", "env")],
    }
}
/// a world with something arbitrary at the path's place
fn world_for(path: &[&str], set: &[u8]) -> World {
    let mut w = base();
    match path[0] {
        "value" => w.value = match choose(4) {
            0 => None,
            1 => Some(J::Null),
            _ => Some(J::Obj(vec![("b".into(), J::Int(1)), ("a".into(), any(set))])),
        },
        "args" => w.args = if choose_bool() { None } else { Some(J::Obj(vec![("x".into(), any(set))])) },
        "vars" => w.vars = vec![pair("v", &string_of(set, 2)), pair("w", "War")],
        "env" => w.env = vec![pair("D", "no"), pair("E", &string_of(set, 2))],
        _ => {}
    }
    w
}
fn expression(path: &[&str]) -> Segment {
    Segment::Expression(path.iter().map(|x| x.to_string()).collect())
}
fn one() {
    let p = any_path();
    let w = world_for(p, SET);
    let lit = string_of(b"a{ }\"", choose(2) as usize);
    let after = choose_bool();
    let mut segments = vec![];
    let mut want = String::new();
    if !lit.is_empty() {
        segments.push(Segment::Literal(lit.clone()));
        want.push_str(&lit);
    }
    segments.push(expression(p));
    let t = w.text(p);
    want.push_str(t.as_deref().unwrap_or(""));
    if after {
        segments.push(Segment::Literal("}}z".into()));
        want.push_str("}}z");
    }
    let m = Mustache::from(segments);
    let got = w.with(|c| m.render(c));
    check(got == want, "a rendered template is its text with each expression replaced by the text of its value");
    let partial = w.with(|c| PathStringEval::new().eval_partial(&m, c));
    let kept = match &t {
        Some(_) => want.clone(),
        None => format!("{lit}{{{{.{}}}}}{}", p.join("."), if after { "}}z" } else { "" }),
    };
    check(partial == kept, "partially rendered, only expressions without a value remain");
    cover(if t.is_some() { "value" } else { "no value" });
    observe(got.as_bytes());
}
pub fn h_c02_one() {
    one();
}
/// several expressions in one template
pub fn h_c02_many() {
    let mut w = base();
    w.value = Some(J::Obj(vec![("a".into(), J::Str(string_of(b"ab{", 1)))]));
    w.args = Some(J::Obj(vec![("x".into(), J::Int(5)), ("y".into(), J::Str(string_of(b"ab{", 1)))]));
    let paths: &[&[&str]] = &[&["value", "a"], &["args", "y"], &["args", "x"], &["vars", "w"], &["headers", "h2"], &["headers", "H1"], &["env", "E"], &["args", "none"]];
    let mut segments = vec![];
    let mut want = String::new();
    for k in 0..3 {
        match choose(paths.len() as u8 + 2) as usize {
            8 => {}
            9 => {
                segments.push(Segment::Literal(format!("-{k}")));
                want.push_str(&format!("-{k}"));
            }
            i => {
                segments.push(expression(paths[i]));
                want.push_str(&w.text(paths[i]).unwrap_or_default());
            }
        }
    }
    let m = Mustache::from(segments);
    let got = w.with(|c| m.render(c));
    check(got == want, "each expression of a template is replaced by its own value");
    check(!m.is_const() || World::default().with(|c| m.render(c)) == want, "a constant template does not depend on the context");
    if m.is_const() {
        cover("constant");
    }
    cover("several");
    observe(got.as_bytes());
}
pub fn h_c02_graphql() {
    let p = any_path();
    let w = world_for(p, SET);
    let m = Mustache::from(vec![Segment::Literal("(".into()), expression(p)]);
    let mut want = "(".to_string();
    if p.len() > 1 {
        match w.at(p) {
            Found::Not => {}
            Found::Text(s) => literal(&J::Str(s), &mut want),
            Found::Val(j) => literal(&j, &mut want),
        }
    }
    let got = w.with(|c| m.render_graphql(c));
    check(got == want, "in a GraphQL operation a value is written as GraphQL writes it");
    cover("GraphQL");
    observe(got.as_bytes());
}
fn reads_as(text: &str) -> J {
    match text {
        "null" => J::Null,
        "true" => J::Bool(true),
        "12" => J::Int(12),
        "[12,true]" => J::List(vec![J::Int(12), J::Bool(true)]),
        t => J::Str(t.to_string()),
    }
}
fn template(p: &[&str]) -> String {
    format!("{{{{.{}}}}}", p.join("."))
}
/// what the expressions of a body become
pub fn h_c02_body() {
    let p = any_path();
    // as the parser of templates takes them
    if *p == ["vars"] || p.iter().any(|x| x.as_bytes()[0].is_ascii_digit()) {
        reject();
    }
    let mut w = world_for(p, b"ab");
    let texts = ["12", "null", "true", "[12,true]", "x", ""];
    if ["vars", "env", "headers"].contains(&p[0]) {
        let t = texts[choose(if p[0] == "headers" { 5 } else { 6 }) as usize];
        w.vars = vec![pair("v", t)];
        w.env = vec![pair("E", t)];
        w.headers = vec![pair("h1", t)];
    }
    let lone = choose_bool();
    let text = if lone { template(p) } else { format!("q{}", template(p)) };
    let want = match (lone, w.at(p)) {
        (true, Found::Val(j)) => j,
        (true, Found::Not) if p[0] == "value" || p[0] == "args" => J::Null,
        (true, _) => reads_as(&w.text(p).unwrap_or_default()),
        _ => J::Str(format!("q{}", w.text(p).unwrap_or_default())),
    };
    // at some place of the body
    let other = J::Str("value.a {{".into());
    let (body, want) = match choose(4) {
        0 => (J::Str(text), want),
        1 => (J::List(vec![J::Int(1), J::Str(text), J::Null]), J::List(vec![J::Int(1), want, J::Null])),
        2 => (
            J::Obj(vec![("o".into(), other.clone()), ("t".into(), J::Str(text))]),
            J::Obj(vec![("o".into(), other), ("t".into(), want)]),
        ),
        _ => (
            J::Obj(vec![("l".into(), J::List(vec![J::Obj(vec![("t".into(), J::Str(text))])])), ("z".into(), J::Bool(true))]),
            J::Obj(vec![("l".into(), J::List(vec![J::Obj(vec![("t".into(), want)])])), ("z".into(), J::Bool(true))]),
        ),
    };
    let d = DynamicValue::try_from(&body.serde());
    check(d.as_ref().is_ok_and(|d| !d.is_const()), "a body with an expression is not constant");
    let Ok(d) = d else { return };
    let got = w.with(|c| eval(&d, c));
    check(same_gql(&want, &got), "a body is itself with its expressions replaced by their values");
    cover("body");
    observe_bool(lone);
}
/// bodies without expressions
pub fn h_c02_constant() {
    let leaf = |d: J| match choose(7) {
        0 => J::Null,
        1 => J::Bool(any_bool()),
        2 => J::Int(INTS[choose(INTS.len() as u8) as usize]),
        3 => J::Str(string_of(b"a{}\"", 1)),
        4 => J::Str(["{{", "}}", "{{}}", "a{{b", "{{.a", "12", "true", "", "\"", "{{1}}"][choose(10) as usize].into()),
        _ => d,
    };
    let a = leaf(J::List(vec![]));
    let b = leaf(J::Obj(vec![]));
    let body = match choose(4) {
        0 => a,
        1 => J::List(vec![a, b]),
        2 => J::Obj(vec![("k".into(), a), ("l".into(), b)]),
        _ => J::List(vec![J::Obj(vec![("k".into(), J::List(vec![a]))]), b]),
    };
    let d = DynamicValue::try_from(&body.serde());
    check(d.as_ref().is_ok_and(|d| d.is_const()), "a body without expressions is constant");
    let Ok(d) = d else { return };
    check(same_gql(&body, &World::default().with(|c| eval(&d, c))), "a constant body is itself");
    check(GV::try_from(&d).is_ok_and(|v| same_gql(&body, &v)), "a constant body has a value");
    cover("constant body");
    observe_bool(true);
}
/// selections within a response
pub fn h_c02_select() {
    let response = J::Obj(vec![("a".into(), any(b"ab")), ("args".into(), J::Str("no".into()))]);
    let paths: &[&[&str]] = &[&["a"], &["a", "k"], &["zz"], &["args"], &["a", "n"]];
    let (p, q) = (paths[choose(5) as usize], paths[choose(3) as usize]);
    let w = World { args: Some(response.clone()), ..World::default() };
    let at = |p: &[&str]| response.at(p).cloned();
    let text = |p: &[&str]| w.text(&[&["args"], p].concat()).unwrap_or_default();
    let (body, want) = match choose(4) {
        0 => (J::Str(template(p)), at(p).unwrap_or(J::Null)),
        1 => (J::Str(format!("q{}", template(p))), J::Str(format!("q{}", text(p)))),
        2 => (J::Str(format!("q{}-{}", template(p), template(q))), J::Str(format!("q{}-{}", text(p), text(q)))),
        _ => (
            J::Obj(vec![("l".into(), J::List(vec![J::Str(template(p)), J::Str("a".into())])), ("m".into(), J::Str(template(q)))]),
            J::Obj(vec![("l".into(), J::List(vec![at(p).unwrap_or(J::Null), J::Str("a".into())])), ("m".into(), at(q).unwrap_or(J::Null))]),
        ),
    };
    let Ok(d) = DynamicValue::try_from(&body.serde()) else { return check(false, "a selection is a body") };
    let d = d.prepend("args");
    let got = World { args: None, ..w.clone() }.with(|c| eval(&d, &c.with_args(response.gql())));
    check(same_gql(&want, &got), "a selection names parts of the response");
    cover("selected");
    observe_bool(true);
}
crate::harnesses!(h_c02_one, h_c02_many, h_c02_graphql, h_c02_body, h_c02_constant, h_c02_select);
