//! C18: REST endpoints
use crate::rt::*;
use async_graphql::parser::types::Type;
use async_graphql::Variables;
use async_graphql_value::ConstValue;
use std::collections::BTreeMap;
use tailcall::core::symex::rest::{Endpoint, Path, QueryParams, TypeMap};

#[derive(Clone, Copy, PartialEq)]
enum T {
    Int,
    Str,
    Bool,
    Float,
}
const TYPES: [(T, &str); 4] = [(T::Int, "Int"), (T::Str, "String"), (T::Bool, "Boolean"), (T::Float, "Float")];
#[derive(Clone)]
enum Seg {
    Lit(String),
    Par(&'static str, T),
}
#[derive(Clone, PartialEq)]
enum V {
    Int(i64),
    Str(String),
    Bool(bool),
    Float(f64),
}
fn segments(path: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = vec![];
    for b in path.bytes() {
        if b == b'/' {
            if !cur.is_empty() {
                out.push(unsafe { String::from_utf8_unchecked(std::mem::take(&mut cur)) });
            }
        } else {
            cur.push(b);
        }
    }
    if !cur.is_empty() {
        out.push(unsafe { String::from_utf8_unchecked(cur) });
    }
    out
}
fn int(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || d.len() > 24 {
        return None;
    }
    let mut n: i128 = 0;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (*c - b'0') as i128;
        if n > 1 << 64 {
            return None;
        }
    }
    i64::try_from(if neg { -n } else { n }).ok()
}
fn read(t: T, s: &str) -> Option<V> {
    match t {
        T::Str => Some(V::Str(s.to_string())),
        T::Bool if s == "true" => Some(V::Bool(true)),
        T::Bool if s == "false" => Some(V::Bool(false)),
        T::Bool => None,
        T::Int => int(s).map(V::Int),
        T::Float => s.parse::<f64>().ok().map(V::Float),
    }
}
fn same(v: &V, g: &ConstValue) -> bool {
    match (v, g) {
        (V::Int(i), ConstValue::Number(n)) => n.as_i64() == Some(*i),
        (V::Str(s), ConstValue::String(t)) => s == t,
        (V::Bool(b), ConstValue::Boolean(c)) => b == c,
        (V::Float(f), ConstValue::Number(n)) => float(n) == Some(*f),
        (V::Float(f), ConstValue::Null) => !finite(f),
        _ => false,
    }
}
// kept apart: a conversion to float of a symbolic integer decides the integer
#[inline(never)]
fn float(n: &async_graphql_value::Number) -> Option<f64> {
    n.as_f64()
}
#[inline(never)]
fn finite(f: &f64) -> bool {
    f.is_finite()
}
fn expected(pat: &[Seg], req: &str) -> Option<Vec<(&'static str, V)>> {
    let r = segments(req);
    if r.len() != pat.len() {
        return None;
    }
    let mut out: Vec<(&'static str, V)> = vec![];
    for (p, s) in pat.iter().zip(&r) {
        match p {
            Seg::Lit(l) => {
                if l != s {
                    return None;
                }
            }
            Seg::Par(n, t) => {
                let v = read(*t, s)?;
                out.retain(|x| x.0 != *n);
                out.push((n, v));
            }
        }
    }
    Some(out)
}
fn agree(want: &Option<Vec<(&'static str, V)>>, got: &Option<Variables>) -> bool {
    match (want, got) {
        (None, None) => true,
        (Some(w), Some(g)) => w.len() == g.len() && w.iter().all(|(n, v)| g.iter().any(|(k, x)| k.as_str() == *n && same(v, x))),
        _ => false,
    }
}
fn type_map() -> TypeMap {
    TypeMap::from(vec![("a", Type::new("Int").unwrap()), ("b", Type::new("String!").unwrap()), ("c", Type::new("Boolean").unwrap()), ("d", Type::new("Float").unwrap()), ("l", Type::new("[Int]").unwrap()), ("u", Type::new("User").unwrap())])
}
fn pattern_text(p: &[Seg]) -> String {
    let mut s = String::new();
    let style = choose(3);
    for x in p {
        s.push('/');
        if style == 1 {
            s.push('/');
        }
        match x {
            Seg::Lit(l) => s.push_str(l),
            Seg::Par(n, _) => {
                s.push('$');
                s.push_str(n);
            }
        }
    }
    if style == 2 {
        s.push('/');
    }
    s
}
fn go(p: &[Seg], req: &str) {
    let t = pattern_text(p);
    let path = match Path::parse(&type_map(), &t) {
        Ok(p) => p,
        Err(_) => return check(false, "a pattern over declared variables is accepted"),
    };
    check(path.as_str() == t, "pattern text kept");
    let want = expected(p, req);
    let got = path.matches(req);
    check(want.is_some() == got.is_some(), "match decision");
    check(agree(&want, &got), "extracted variables");
    match &want {
        Some(v) if !v.is_empty() => cover("match with variables"),
        Some(_) => cover("literal match"),
        None => cover("no match"),
    }
    observe_bool(want.is_some());
}
fn lit() -> Seg {
    Seg::Lit(["x", "ab", "A", "1"][choose(4) as usize].to_string())
}
fn par() -> Seg {
    match choose(3) {
        0 => Seg::Par("a", T::Int),
        1 => Seg::Par("b", T::Str),
        _ => Seg::Par("c", T::Bool),
    }
}
fn any_pattern(max: u8) -> Vec<Seg> {
    (0..choose(max + 1)).map(|_| if choose_bool() { lit() } else { par() }).collect()
}
/// any request text against every pattern of up to two segments
pub fn h_c18_path() {
    let p = any_pattern(2);
    let req = ascii(choose(5) as usize);
    go(&p, &req)
}
pub fn h_c18_path_deep() {
    let p = any_pattern(3);
    let req = ascii(choose(7) as usize);
    go(&p, &req)
}
/// segment-wise: literal text symbolic on both sides
pub fn h_c18_literal() {
    let l = ascii_no(b"/$", choose(3) as usize + 1);
    let p = vec![Seg::Lit(l), par()];
    let mut req = String::from("/");
    req.push_str(&ascii(choose(3) as usize + 1));
    if choose_bool() {
        req.push('/');
        req.push_str(["true", "7", "-", ""][choose(4) as usize]);
    }
    go(&p, &req)
}
fn ascii_no(no: &[u8], n: usize) -> String {
    let s = ascii(n);
    for b in s.bytes() {
        for x in no {
            assume(b != *x);
        }
    }
    s
}
const WORDS: &[&str] = &["true", "false", "True", "TRUE", "0", "-0", "+5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "00012", "1e3", "1.5", ".5", "5.", "-", "+", "1_0", "0x1", "é", "NaN1", "1e400x", "null"];
/// one parameter of every type, tricky and arbitrary texts
pub fn h_c18_typed() {
    let (t, _) = TYPES[choose(4) as usize];
    let n = match t {
        T::Int => "a",
        T::Str => "b",
        T::Bool => "c",
        T::Float => "d",
    };
    let s = match choose(3) {
        0 => WORDS[choose(WORDS.len() as u8) as usize].to_string(),
        1 if t == T::Float => conc_string_of(b"1.e-", choose(4) as usize),
        1 => ascii(choose(5) as usize),
        _ if t == T::Float => "2.25".into(),
        _ => {
            let mut x = string_of(b"-+0123456789", 1);
            x.push_str("922337203685477580");
            x.push_str(&string_of(b"0123456789", 1));
            x
        }
    };
    let p = vec![Seg::Lit("v".into()), Seg::Par(n, t)];
    go(&p, &format!("/v/{s}"))
}
/// patterns that name unknown or unsupported variables are rejected
pub fn h_c18_reject() {
    let n = string_of(b"abcdluxyz", 1);
    let m = type_map();
    let p = Path::parse(&m, &format!("/x/${n}"));
    let known = matches!(n.as_bytes()[0], b'a' | b'b' | b'c' | b'd');
    check(p.is_ok() == known, "only declared scalar variables in a path");
    let q: BTreeMap<String, String> = [("k".to_string(), n.clone())].into_iter().collect();
    check(QueryParams::try_from_map(&m, q).is_ok() == known, "only declared scalar variables in a query");
}
/// query parameters: absent is fine, present has to read as the declared type
pub fn h_c18_query() {
    let vars: [(&'static str, T); 4] = [("a", T::Int), ("b", T::Str), ("c", T::Bool), ("d", T::Float)];
    let keys = ["k", "b"];
    let mut decl: Vec<(&str, &'static str, T)> = vec![];
    for k in keys.iter().take(1 + choose(2) as usize) {
        let (n, t) = vars[choose(4) as usize];
        if decl.iter().all(|x| x.1 != n) {
            decl.push((k, n, t));
        }
    }
    let q: BTreeMap<String, String> = decl.iter().map(|(k, n, _)| (k.to_string(), n.to_string())).collect();
    let qp = match QueryParams::try_from_map(&type_map(), q) {
        Ok(q) => q,
        Err(_) => return check(false, "query parameters of declared variables are accepted"),
    };
    let mut req: BTreeMap<String, String> = BTreeMap::new();
    for k in ["k", "b", "a"] {
        match choose(3) {
            0 => {}
            1 => {
                req.insert(k.into(), ascii(choose(2) as usize));
            }
            _ => {
                req.insert(k.into(), ["true", "12", "1.5", "x"][choose(4) as usize].into());
            }
        }
    }
    let mut want: Option<Vec<(&'static str, V)>> = Some(vec![]);
    for (k, n, t) in &decl {
        if let Some(s) = req.get(*k) {
            if *t == T::Float {
                let mut b = s.clone().into_bytes();
                concretize(&mut b);
            }
            let s = if *t == T::Float {
                let mut b = s.clone().into_bytes();
                concretize(&mut b);
                unsafe { String::from_utf8_unchecked(b) }
            } else {
                s.clone()
            };
            match (read(*t, &s), &mut want) {
                (Some(v), Some(w)) => w.push((n, v)),
                (None, _) => want = None,
                _ => {}
            }
        }
    }
    let got = qp.matches(req);
    check(agree(&want, &got), "query parameters");
    match &want {
        Some(v) if !v.is_empty() => cover("query variables"),
        Some(_) => cover("no query variables"),
        None => cover("query mismatch"),
    }
}
const METHODS: [&str; 9] = ["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"];
/// whole endpoints: method, path and query together
pub fn h_c18_endpoint() {
    let m = choose(9) as usize;
    let text = format!("query q($a: Int, $b: String, $c: Boolean) @rest(method: {}, path: \"/foo/$a\", query: {{page: $b, c: $c}}) {{ f }}", METHODS[m]);
    let e = match Endpoint::try_new(&text) {
        Ok(e) if e.len() == 1 => e.into_iter().next().unwrap(),
        _ => return check(false, "endpoint definition accepted"),
    };
    let rm = choose(10) as usize;
    let p = choose(4) as usize;
    let q = choose(5) as usize;
    let uri = format!("http://h{}{}", ["/foo/12", "/foo/x", "/foo", "/foo/12/"][p], ["", "?page=p%20q&c=true", "?c=no", "?page=1&x=2", "?c=false"][q]);
    let req = http::Request::builder().method(if rm < 9 { METHODS[rm] } else { "GETS" }).uri(uri).body(hyper::Body::empty()).unwrap();
    let got = e.matches(&req);
    let want = rm == m && (p == 0 || p == 3) && q != 2;
    check(got.is_some() == want, "endpoint match decision");
    if let Some(g) = got {
        let mut w: Vec<(&'static str, V)> = vec![("a", V::Int(12))];
        match q {
            1 => w.extend([("b", V::Str("p q".into())), ("c", V::Bool(true))]),
            3 => w.push(("b", V::Str("1".into()))),
            4 => w.push(("c", V::Bool(false))),
            _ => {}
        }
        check(agree(&Some(w), &Some(g.variables)), "endpoint variables");
        cover("endpoint match");
    }
}
const API: &str = "schema @server(routes: {status: \"/api/up\", graphQL: \"/api/gql\"}) { query: Query mutation: Mutation }
input In { n: Int }
type Out { v: Int s: String b: Boolean }
type Query { one(v: Int, s: String, b: Boolean): Out @expr(body: {v: \"{{.args.v}}\", s: \"{{.args.s}}\", b: \"{{.args.b}}\"}) hi: String @expr(body: \"hi\") }
type Mutation { put(v: Int, n: In): Out @expr(body: {v: \"{{.args.v}}\", s: \"{{.args.n.n}}\"}) }";
const OPS: &str = "query a($v: Int) @rest(method: GET, path: \"/one/$v\") { one(v: $v) { v } }
query b($v: Int, $s: String, $b: Boolean) @rest(method: GET, path: \"/two/$v/api/$s\", query: {flag: $b}) { one(v: $v, s: $s, b: $b) { v s b } }
query c @rest(method: GET, path: \"/\") { hi }
mutation d($v: Int, $n: In) @rest(method: POST, path: \"/put/$v\", body: $n) { put(v: $v, n: $n) { v s } }
query e($s: String) @rest(method: GET, path: \"/q\", query: {s: $s}) { one(s: $s) { s } }";
/// whole requests: the endpoint, its variables and the answer
pub fn h_c18_served() {
    use crate::env;
    use tailcall::core::app_context::AppContext;
    use tailcall::core::rest::EndpointSet;
    let b = env::blueprint(API);
    let rt = env::runtime(env::Http::none(), vec![]);
    let ends = match block_on(EndpointSet::try_new(OPS).unwrap().into_checked(&b, rt.clone())) {
        Ok(e) => e,
        Err(_) => return check(false, "the operations are valid"),
    };
    let app = std::sync::Arc::new(AppContext::new(b, rt, ends));
    let prefix = ["/api", "", "/apis", "/API", "/api/api"][choose(5) as usize];
    let method = ["GET", "POST"][choose(2) as usize];
    let (path, which) = match choose(10) {
        0 => ("/one/7", 0),
        1 => ("/one/x", 9),
        2 => ("/two/7/api/z", 1),
        3 => ("/two/7/z", 9),
        4 => ("", 2),
        5 => ("/", 2),
        6 => ("/put/5", 3),
        7 => ("/q", 4),
        8 => ("/up", 5),
        _ => ("/gql", 6),
    };
    let q = choose(4) as usize;
    let query = ["", "?flag=true&s=p+q", "?flag=no", "?s="][q];
    let body = if which == 6 { "{\"query\":\"{ hi }\"}" } else { "{\"n\":3}" };
    let uri = format!("http://h{prefix}{path}{query}");
    let got = env::serve(&app, env::request(method, &uri, &[], body)).unwrap();
    let want: Option<String> = if prefix != "/api" {
        None
    } else {
        match (which, method) {
            (0, "GET") => Some("{\"v\":7}".into()),
            (1, "GET") if q != 2 => Some(format!("{{\"v\":7,\"s\":\"z\",\"b\":{}}}", if q == 1 { "true" } else { "null" })),
            (2, "GET") => Some("\"hi\"".into()),
            (3, "POST") => Some("{\"v\":5,\"s\":3}".into()),
            (4, "GET") => Some(format!("{{\"s\":{}}}", ["null", "\"p q\"", "null", "\"\""][q])),
            (5, "GET") => Some("{\"message\": \"ready\"}".into()),
            (6, "POST") => Some("{\"data\":{\"hi\":\"hi\"}}".into()),
            _ => None,
        }
    };
    observe(&got.body);
    match want {
        Some(w) => {
            if got.body != w.as_bytes() {
                print(&format!("{method} {uri}\nwant {w}\ngot  {}", String::from_utf8_lossy(&got.body)));
            }
            check(got.status == 200, "the request is answered");
            check(got.body == w.as_bytes(), "the answer is that of the operation");
            cover("served");
        }
        None => {
            if got.status != 404 {
                print(&format!("{method} {uri} got {} {}", got.status, String::from_utf8_lossy(&got.body)));
            }
            check(got.status == 404, "no other request is answered");
            cover("not found");
        }
    }
}
crate::harnesses!(h_c18_served, h_c18_path, h_c18_path_deep, h_c18_literal, h_c18_typed, h_c18_reject, h_c18_query, h_c18_endpoint);
