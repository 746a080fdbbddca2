//! C19: an upstream request carries what its template and context say
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use http::HeaderName;
use tailcall::core::config::{Encoding, GraphQLOperationType, KeyValue};
use tailcall::core::endpoint::Endpoint;
use tailcall::core::helpers::headers::to_mustache_headers;
use tailcall::core::http::{Method, RequestTemplate};
use tailcall::core::ir::model::CacheKey;
use tailcall::core::mustache::{Mustache, Segment};
use tailcall_valid::Validator;

fn list(s: &str) -> J {
    J::List(vec![J::Str(s.into()), J::Int(3), J::Null])
}
/// symbolic or, where texts are parsed again, one after the other
fn text_of(set: &[u8], n: usize, symbolic: bool) -> String {
    if symbolic {
        string_of(set, n)
    } else {
        conc_string_of(set, n)
    }
}
fn any_value(set: &[u8], n: usize, symbolic: bool) -> J {
    match choose(8) {
        0 => J::Null,
        1 => J::Bool(any_bool()),
        2 => J::Int(INTS[choose(INTS.len() as u8) as usize]),
        3 => list(&text_of(set, 1, symbolic)),
        4 => J::List(vec![]),
        5 => J::Obj(vec![("k".into(), J::Str(text_of(set, 1, symbolic)))]),
        6 => J::Str("\u{e9}\u{20ac}".into()),
        _ => J::Str(text_of(set, n, symbolic)),
    }
}
const SPECIAL: &[u8] = b"a&=%+# ,'\"\\/?;";
fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'A'..=b'F' => Some(b - b'A' + 10),
        b'a'..=b'f' => Some(b - b'a' + 10),
        _ => None,
    }
}
fn unescape(t: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let b = t[i];
        if b == b'%' && i + 2 < t.len() && hex(t[i + 1]).is_some() && hex(t[i + 2]).is_some() {
            out.push(hex(t[i + 1]).unwrap() * 16 + hex(t[i + 2]).unwrap());
            i += 3;
            continue;
        }
        out.push(if b == b'+' { b' ' } else { b });
        i += 1;
    }
    out
}
type Pair = (Vec<u8>, Option<Vec<u8>>);
fn pairs(q: Option<&str>) -> Vec<Pair> {
    let Some(q) = q else { return vec![] };
    q.as_bytes()
        .split(|b| *b == b'&')
        .map(|p| match p.iter().position(|b| *b == b'=') {
            None => (unescape(p), None),
            Some(i) => (unescape(&p[..i]), Some(unescape(&p[i + 1..]))),
        })
        .collect()
}
fn p(k: &str, v: Option<&str>) -> Pair {
    (k.as_bytes().to_vec(), v.map(|v| v.as_bytes().to_vec()))
}
/// what a query parameter says for a value
fn parameters(k: &str, v: &J, out: &mut Vec<Pair>) {
    match v {
        J::List(l) if !l.is_empty() => {
            for x in l {
                parameters(k, x, out);
            }
        }
        J::Null | J::List(_) | J::Obj(_) => out.push(p(k, None)),
        J::Str(s) => out.push(p(k, Some(s))),
        x => out.push(p(k, Some(&x.json()))),
    }
}
const TEMPLATES: &[&str] = &[
    "{{.args.x}}", "lit", "", "p-{{.args.x}}", "{{.args.x}}{{.vars.v}}z", "{{.args.none}}", "{{.vars.v}}", "{{.headers.none}}", "q{{.value.none}}", "{{.value.y}}",
];
fn template_pairs(w: &World, k: &str, t: &str, skip: bool, out: &mut Vec<Pair>) {
    let segments = Mustache::parse(t).segments().clone();
    match segments.as_slice() {
        [Segment::Expression(e)] => {
            let e: Vec<&str> = e.iter().map(|x| x.as_str()).collect();
            match w.at(&e) {
                Found::Not if skip => {}
                Found::Not => out.push(p(k, None)),
                Found::Text(s) => out.push(p(k, Some(&s))),
                Found::Val(j) => parameters(k, &j, out),
            }
        }
        [] if skip => {}
        [] => out.push(p(k, None)),
        _ => out.push(p(k, Some(&w.template(t)))),
    }
}
fn query(n: usize, values: usize) {
    let mut w = World {
        value: Some(J::Obj(vec![("y".into(), J::Str("wy".into()))])),
        args: Some(J::Obj(vec![("x".into(), any_value(SPECIAL, values, true))])),
        vars: vec![pair("v", "var")],
        ..Default::default()
    };
    let bases: &[(&str, &[(&str, &str)])] = &[
        ("http://h/p", &[]),
        ("http://h:81/p?a=1&b=&c=x%26y%3D%2B+z", &[("a", "1"), ("c", "x&y=+ z")]),
        ("http://h/{{.vars.v}}?q={{.value.y}}&d", &[("q", "wy")]),
    ];
    let (base, own) = bases[choose(if n > 1 { 2 } else { 3 }) as usize];
    let mut q = vec![];
    let mut want: Vec<Pair> = own.iter().map(|(k, v)| p(k, Some(v))).collect();
    for i in 0..n {
        let k = ["k", "a"][i];
        let t = TEMPLATES[choose(TEMPLATES.len() as u8) as usize];
        if n > 1 && t.contains("args.x") {
            w.args = Some(J::Obj(vec![("x".into(), list("&"))]));
        }
        let skip = choose_bool();
        q.push((k.to_string(), t.to_string(), skip));
    }
    for (k, t, skip) in &q {
        template_pairs(&w, k, t, *skip, &mut want);
    }
    let t = RequestTemplate::try_from(Endpoint::new(base.to_string()).query(q));
    check(t.is_ok(), "a template is accepted");
    let Ok(t) = t else { return };
    let r = w.with(|c| t.to_request(c).map(|r| r.into_request()));
    check(r.is_ok(), "a request can be made");
    let Ok(r) = r else { return };
    let path = if base.contains("vars") { "/var" } else { "/p" };
    check(r.url().path() == path && r.url().host_str() == Some("h") && r.url().port() == base.contains(":81").then_some(81), "the request goes to the template's place");
    let got = pairs(r.url().query());
    check(got == want, "the query has exactly the parameters of the template with their values");
    cover(if got.is_empty() { "no query" } else { "query" });
    observe_bool(true);
}
pub fn h_c19_query() {
    query(1, 2);
}
pub fn h_c19_query_two() {
    query(2, 0);
}
pub fn h_c19_query_deep() {
    query(1, 3);
}

const HEADER_SET: &[u8] = b"a \n\x7f\t\"";
/// headers of the template, of the encoding, and those forwarded
pub fn h_c19_headers() {
    let w = World {
        args: Some(J::Obj(vec![("x".into(), match choose(4) {
            0 => J::Null,
            1 => J::Int(-7),
            2 => J::List(vec![J::Int(1), J::Bool(true)]),
            _ => J::Str(string_of(HEADER_SET, 2)),
        })])),
        vars: vec![pair("v", "var")],
        headers: match choose(4) {
            0 => vec![],
            1 => vec![pair("x-a", "fwd")],
            2 => vec![pair("x-f", "one"), pair("x-f", "two")],
            _ => vec![pair("content-type", "text/plain"), pair("x-c", "c")],
        },
        ..Default::default()
    };
    let names = ["x-a", "X-B", "content-type"];
    let texts = ["lit", "{{.args.x}}", "p{{.args.x}}{{.vars.v}}", ""];
    let mut kv = vec![];
    for _ in 0..1 + choose(2) {
        kv.push((names[choose(3) as usize], texts[choose(4) as usize]));
    }
    let method = [Method::GET, Method::POST, Method::DELETE][choose(3) as usize].clone();
    let form = choose_bool();
    let mut want: Vec<(String, Vec<String>)> = vec![];
    let set = |want: &mut Vec<(String, Vec<String>)>, k: &str, v: &str| {
        want.retain(|x| x.0 != k);
        want.push((k.to_string(), vec![v.to_string()]));
    };
    for (k, t) in &kv {
        let v = w.template(t);
        if v.bytes().all(|b| b == b'\t' || (b >= 32 && b < 127)) {
            set(&mut want, &k.to_ascii_lowercase(), &v);
        }
    }
    if method != Method::GET {
        set(&mut want, "content-type", if form { "application/x-www-form-urlencoded" } else { "application/json" });
    }
    let forwarded: Vec<String> = w.headers.iter().map(|x| x.0.clone()).collect();
    want.retain(|x| !forwarded.contains(&x.0));
    for (k, v) in &w.headers {
        match want.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1.push(v.clone()),
            None => want.push((k.clone(), vec![v.clone()])),
        }
    }
    let kv: Vec<KeyValue> = kv.iter().map(|(k, t)| KeyValue { key: k.to_string(), value: t.to_string() }).collect();
    let Ok(hs) = to_mustache_headers(&kv).to_result() else { return check(false, "the headers are accepted") };
    let t = RequestTemplate::try_from(Endpoint::new("http://h/".to_string()).method(method.clone()).encoding(if form { Encoding::ApplicationXWwwFormUrlencoded } else { Encoding::ApplicationJson }));
    let Ok(t) = t else { return check(false, "a template is accepted") };
    let t = t.headers(hs);
    let r = w.with(|c| t.to_request(c).map(|r| r.into_request()));
    let Ok(r) = r else { return check(false, "a request can be made") };
    check(*r.method() == method.to_hyper(), "the request has the template's method");
    let n: usize = want.iter().map(|x| x.1.len()).sum();
    check(r.headers().len() == n, "the request has no further headers");
    for (k, v) in &want {
        let got: Vec<&[u8]> = r.headers().get_all(k.as_str()).iter().map(|x| x.as_bytes()).collect();
        check(got.len() == v.len() && got.iter().zip(v).all(|(g, w)| *g == w.as_bytes()), "the request has the headers of the template and those forwarded");
    }
    check(r.body().is_none() && r.url().as_str() == "http://h/", "the request has nothing else");
    cover(if n < kv.len() { "dropped" } else { "kept" });
    observe_bool(true);
}
/// the headers of a configuration
pub fn h_c19_names() {
    let names = ["x-a", "X-B", "x a", "", "x-a:", "\u{e9}"];
    let values = ["lit", "{{.args.x}}", "a{{.vars.v}}", ""];
    let kv: Vec<KeyValue> = (0..choose(4)).map(|_| KeyValue { key: names[choose(6) as usize].into(), value: values[choose(4) as usize].into() }).collect();
    named(&kv, |k| k == "x-a" || k == "X-B");
}
fn named(kv: &[KeyValue], ok: impl Fn(&str) -> bool) {
    let bad: Vec<&str> = kv.iter().map(|x| x.key.as_str()).filter(|k| !ok(k)).collect();
    let got = to_mustache_headers(kv).to_result();
    match got {
        Ok(h) => {
            check(bad.is_empty(), "a name which cannot be a header's is reported");
            check(h.len() == kv.len(), "every header is kept");
            check(h.iter().zip(kv).all(|(a, b)| a.0.as_str() == b.key.to_ascii_lowercase() && a.1 == Mustache::parse(&b.value)), "every header keeps its place, its name and its value");
            cover("accepted");
        }
        Err(e) => {
            let e: Vec<String> = e.as_vec().iter().map(|x| x.trace.iter().cloned().collect::<Vec<String>>().join("/")).collect();
            check(e.len() == bad.len() && e.iter().zip(&bad).all(|(a, b)| a == b), "exactly the names which cannot be a header's are reported");
            cover("reported");
        }
    }
    observe_bool(true);
}
/// a header whose name or value begins and ends with any character
pub fn h_c19_name_text() {
    let c = byte();
    assume(c < 128);
    let c = (c as char).to_string();
    let d = if choose_bool() { c.clone() } else { String::new() };
    let kv = match choose(3) {
        0 => KeyValue { key: format!("{c}x"), value: "v".into() },
        1 => KeyValue { key: format!("x{c}"), value: "v".into() },
        _ => KeyValue { key: "x".into(), value: format!("{d}v{{{{.args.x}}}}w{c}") },
    };
    // the library takes a quote for a character of a name
    assume(c != "\"" || kv.key == "x");
    named(&[kv], |k| k.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)));
}

const BODY_SET: &[u8] = b"a\"\\\n{}:,";
fn bodies(w: &World, which: u8) -> (J, Option<J>) {
    let x = "{{.args.x}}".to_string();
    let t = |s: &str| J::Str(w.template(s));
    match which {
        0 => (
            J::Obj(vec![("a".into(), J::Str(x.clone())), ("n".into(), J::Obj(vec![("l".into(), J::List(vec![J::Str("{{.vars.v}}".into()), J::Str("c\"".into())]))]))]),
            Some(J::Obj(vec![("a".into(), t(&x)), ("n".into(), J::Obj(vec![("l".into(), J::List(vec![t("{{.vars.v}}"), J::Str("c\"".into())]))]))])),
        ),
        1 => (
            J::List(vec![J::Str(format!("a{x}b{x}")), J::Int(3), J::Null, J::Bool(true)]),
            Some(J::List(vec![t(&format!("a{x}b{x}")), J::Int(3), J::Null, J::Bool(true)])),
        ),
        2 => (J::Str("text".into()), Some(J::Str("text".into()))),
        3 => (J::Obj(vec![("k".into(), J::Str("{{.value.none}}".into()))]), Some(J::Obj(vec![("k".into(), J::Str("".into()))]))),
        _ => (J::Str(x), None),
    }
}
fn body_world(n: usize) -> World {
    World { args: Some(J::Obj(vec![("x".into(), any_value(BODY_SET, n, false))])), vars: vec![pair("v", &conc_string_of(b"v\"", 1))], ..Default::default() }
}
pub fn h_c19_body() {
    let w = body_world(2);
    let (body, want) = bodies(&w, choose(5));
    let t = RequestTemplate::try_from(Endpoint::new("http://h/".to_string()).method(Method::POST).body(Some(body.serde())));
    let Ok(t) = t else { return check(false, "a template is accepted") };
    let r = w.with(|c| t.to_request(c).map(|r| r.into_request()));
    let Ok(r) = r else { return check(false, "a request can be made") };
    let got = r.body().and_then(|b| b.as_bytes()).unwrap_or_default();
    match want {
        Some(j) => {
            let v = serde_json::from_slice::<SV>(got);
            check(v.is_ok_and(|v| same_serde(&j, &v)), "the body is the template's document with its expressions replaced within their texts");
            cover("document");
        }
        None => {
            check(got == w.template("{{.args.x}}").as_bytes(), "a body which is one expression is the text of its value");
            cover("lone");
        }
    }
    observe(got);
}
pub fn h_c19_form() {
    let w = World { args: Some(J::Obj(vec![("x".into(), match choose(3) {
        0 => J::Int(12),
        1 => J::Null,
        _ => J::Str(conc_string_of(b"a\"&=+% \\", 2)),
    })])), ..Default::default() };
    let x = w.text(&["args", "x"]).unwrap_or_default();
    let obj = |a: &str, b: J| J::Obj(vec![("a".into(), J::Str(a.into())), ("b".into(), b)]);
    let (body, want) = match choose(3) {
        0 => (obj("{{.args.x}}", J::Str("c d".into())), vec![p("a", Some(&x)), p("b", Some("c d"))]),
        1 => (obj("q&{{.args.x}}", J::Int(4)), vec![p("a", Some(&format!("q&{x}"))), p("b", Some("4"))]),
        _ => (obj("-", J::Bool(true)), vec![p("a", Some("-")), p("b", Some("true"))]),
    };
    let t = RequestTemplate::try_from(Endpoint::new("http://h/".to_string()).method(Method::POST).encoding(Encoding::ApplicationXWwwFormUrlencoded).body(Some(body.serde())));
    let Ok(t) = t else { return check(false, "a template is accepted") };
    let r = w.with(|c| t.to_request(c).map(|r| r.into_request()));
    let Ok(r) = r else { return check(false, "a request can be made") };
    let got = r.body().and_then(|b| b.as_bytes()).and_then(|b| std::str::from_utf8(b).ok());
    check(pairs(got) == want, "a form has exactly the members of the template with their values");
    cover("form");
    observe_bool(true);
}

/// one alternative of everything a request consists of
struct Alt {
    method: u8,
    url: u8,
    query: u8,
    header: u8,
    body: u8,
    forwarded: u8,
}
fn alt(n: u8, base: &Alt) -> Alt {
    let mut a = Alt { ..*base };
    // what differs
    for _ in 0..n {
        match choose(7) {
            0 => a.method = choose(3),
            1 => a.url = choose(4),
            2 => a.query = choose(5),
            3 => a.header = choose(6),
            4 => a.body = choose(6),
            5 => a.forwarded = choose(5),
            _ => {}
        }
    }
    a
}
impl Alt {
    fn world(&self) -> World {
        World {
            args: Some(J::Obj(vec![
                ("u".into(), J::Str(["a", "b", "a", "A"][self.url as usize].into())),
                ("q".into(), [J::Str("a".into()), J::Str("b".into()), J::Null, J::List(vec![J::Str("a".into())]), J::Str("".into())][self.query as usize].clone()),
                ("h".into(), J::Str(["a", "b", "a", "a", "", "ab"][self.header as usize].into())),
                ("b".into(), [J::Str("a".into()), J::Str("b".into()), J::Null, J::Str("a".into()), J::Str("a\"".into()), J::Str("a".into())][self.body as usize].clone()),
            ])),
            headers: match self.forwarded {
                0 => vec![],
                1 => vec![pair("x-f", "a")],
                2 => vec![pair("x-f", "b")],
                3 => vec![pair("x-g", "a")],
                _ => vec![pair("x-f", "a"), pair("x-f", "b")],
            },
            ..Default::default()
        }
    }
    fn header(&self) -> (HeaderName, Mustache) {
        match self.header {
            2 => (HeaderName::from_static("x-b"), Mustache::parse("{{.args.h}}")),
            3 => (HeaderName::from_static("x-a"), Mustache::parse("b")),
            _ => (HeaderName::from_static("x-a"), Mustache::parse("{{.args.h}}")),
        }
    }
    fn http(&self) -> RequestTemplate {
        let body = match self.body {
            3 => None,
            5 => Some(J::Obj(vec![("k".into(), J::Str("a".into())), ("l".into(), J::Str("{{.args.b}}".into()))])),
            _ => Some(J::Obj(vec![("k".into(), J::Str("{{.args.b}}".into())), ("l".into(), J::Str("b".into()))])),
        };
        let e = Endpoint::new(if self.url == 2 { "http://g/{{.args.u}}" } else { "http://h/{{.args.u}}" }.to_string())
            .method([Method::POST, Method::PUT, Method::PATCH][self.method as usize].clone())
            .query(vec![("q".to_string(), "{{.args.q}}".to_string(), true)])
            .body(body.map(|b| b.serde()));
        RequestTemplate::try_from(e).unwrap().headers(vec![self.header()])
    }
    fn graphql(&self) -> tailcall::core::graphql::RequestTemplate {
        use tailcall::core::graphql::{RequestTemplate, Selection};
        let args = vec![KeyValue { key: ["q", "r", "q"][self.method as usize].into(), value: "{{.args.q}}".into() }, KeyValue { key: "b".into(), value: "{{.args.b}}".into() }];
        let mut t = RequestTemplate::new(
            ["http://h/a", "http://h/b", "http://g/a", "http://h/A"][self.url as usize].into(),
            if self.method == 2 { &GraphQLOperationType::Mutation } else { &GraphQLOperationType::Query },
            if self.body == 3 { "op" } else { "other" },
            if self.body == 5 { None } else { Some(&args) },
            vec![self.header()],
            Default::default(),
        )
        .unwrap();
        t.selection = Some(Selection::Resolved(if self.body == 4 { "{ x y }" } else { "{ x }" }.into()));
        t
    }
    fn grpc(&self, pool: &prost_reflect::DescriptorPool) -> tailcall::core::grpc::request_template::RequestTemplate {
        use tailcall::core::grpc::request_template::{RequestBody, RequestTemplate};
        let mustache = match self.body {
            3 => None,
            5 => Some(Mustache::parse("{\"a\":\"{{.args.b}}\",\"b\":\"{{.args.q}}\"}")),
            _ => Some(Mustache::parse("{\"b\":\"{{.args.b}}\"}")),
        };
        RequestTemplate {
            url: Mustache::parse(if self.url == 2 { "http://g/{{.args.u}}" } else { "http://h/{{.args.u}}" }),
            headers: vec![self.header()],
            body: Some(RequestBody { mustache, value: "{\"a\":\"v\"}".into() }),
            operation: operation(pool),
            operation_type: GraphQLOperationType::Query,
        }
    }
}
fn pool() -> prost_reflect::DescriptorPool {
    use prost_reflect::prost_types::{field_descriptor_proto::{Label, Type}, DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet, MethodDescriptorProto, ServiceDescriptorProto};
    let field = |n: &str, number: i32| FieldDescriptorProto {
        name: Some(n.into()), number: Some(number), label: Some(Label::Optional as i32), r#type: Some(Type::String as i32), ..Default::default()
    };
    let file = FileDescriptorProto {
        name: Some("p.proto".into()),
        package: Some("p".into()),
        syntax: Some("proto3".into()),
        message_type: vec![DescriptorProto { name: Some("M".into()), field: vec![field("a", 1), field("b", 2)], ..Default::default() }],
        service: vec![ServiceDescriptorProto {
            name: Some("S".into()),
            method: vec![MethodDescriptorProto { name: Some("Do".into()), input_type: Some(".p.M".into()), output_type: Some(".p.M".into()), ..Default::default() }],
            ..Default::default()
        }],
        ..Default::default()
    };
    prost_reflect::DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: vec![file] }).unwrap()
}
fn operation(pool: &prost_reflect::DescriptorPool) -> tailcall::core::grpc::protobuf::ProtobufOperation {
    let m = pool.get_service_by_name("p.S").unwrap().methods().next().unwrap();
    let t = pool.get_message_by_name("p.M").unwrap();
    tailcall::core::grpc::protobuf::ProtobufOperation::new(m, t.clone(), t)
}
type Sent = (reqwest::Method, String, Vec<(String, Vec<u8>)>, Vec<u8>);
fn sent(r: &reqwest::Request) -> Sent {
    let mut h: Vec<(String, Vec<u8>)> = r.headers().iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect();
    h.sort_by(|a, b| a.0.cmp(&b.0));
    (r.method().clone(), r.url().as_str().to_string(), h, r.body().and_then(|b| b.as_bytes()).unwrap_or_default().to_vec())
}
const ALT: Alt = Alt { method: 0, url: 0, query: 0, header: 0, body: 0, forwarded: 0 };
fn compare(a: (Option<impl PartialEq>, Option<Sent>), b: (Option<impl PartialEq>, Option<Sent>), same: impl Fn() -> bool) {
    check(a.1.is_some() && b.1.is_some(), "a request can be made");
    check(a.0.is_some() && b.0.is_some(), "a request has a cache key");
    if a.1 == b.1 {
        check(same(), "requests which are the same have the same cache key");
        cover("same");
    } else {
        check(!same(), "requests which differ have different cache keys");
        cover("different");
    }
    observe_bool(true);
}
fn key(a: Alt) {
    let b = alt(2, &a);
    let make = |x: &Alt| x.world().with(|c| (x.http().cache_key(c), x.http().to_request(c).ok().map(|r| sent(&r.into_request()))));
    let (x, y) = (make(&a), make(&b));
    let same = x.0 == y.0;
    compare(x, y, || same);
}
fn graphql_key(a: Alt) {
    let b = alt(2, &a);
    let make = |x: &Alt| x.world().with(|c| (x.graphql().cache_key(c), x.graphql().to_request(c).ok().map(|r| sent(&r))));
    let (x, y) = (make(&a), make(&b));
    let same = x.0 == y.0;
    compare(x, y, || same);
}
fn grpc_key(a: Alt) {
    let pool = pool();
    let b = alt(2, &a);
    let make = |x: &Alt| x.world().with(|c| {
        let t = x.grpc(&pool);
        (t.cache_key(c), t.render(c).and_then(|r| r.to_request()).ok().map(|r| sent(&r)))
    });
    let (x, y) = (make(&a), make(&b));
    // the key distinguishes texts of bodies that stand for the same message
    if x.1.is_some() && x.1 == y.1 && x.0 != y.0 {
        check(a.body != b.body || a.query != b.query, "requests which are the same have the same cache key");
        reject();
    }
    let same = x.0 == y.0;
    compare(x, y, || same);
}
pub fn h_c19_key() {
    key(ALT);
}
pub fn h_c19_graphql_key() {
    graphql_key(ALT);
}
pub fn h_c19_grpc_key() {
    grpc_key(ALT);
}
pub fn h_c19_key_deep() {
    key(alt(1, &ALT));
}
pub fn h_c19_graphql_key_deep() {
    graphql_key(alt(1, &ALT));
}
pub fn h_c19_grpc_key_deep() {
    grpc_key(alt(1, &ALT));
}
/// what cannot be rendered as a URL
pub fn h_c19_url() {
    let ports = ["80", "8080", "65536", "x", "", "-1"];
    let port = ports[choose(6) as usize];
    let w = World { args: Some(J::Obj(vec![("p".into(), J::Str(port.into()))])), ..Default::default() };
    let text = ["http://h:{{.args.p}}/", "{{.args.p}}"][choose(2) as usize];
    let t = RequestTemplate::try_from(Endpoint::new(text.to_string())).unwrap();
    let (k, r) = w.with(|c| (t.cache_key(c), t.to_request(c).map(|r| r.into_request())));
    let ok = text != "{{.args.p}}" && (port == "80" || port == "8080" || port == "");
    check(r.is_ok() == ok, "a request is made exactly when its URL is one");
    check(k.is_some() == ok, "a request has a cache key exactly when its URL is one");
    if let Ok(r) = r {
        check(r.url().as_str() == if port == "8080" { "http://h:8080/" } else { "http://h/" }, "the request goes to the rendered URL");
    }
    cover(if ok { "a URL" } else { "not a URL" });
    observe_bool(ok);
}
/// the text of an operation sent to a GraphQL upstream
pub fn h_c19_graphql() {
    use tailcall::core::graphql::{RequestTemplate, Selection};
    let x = match choose(4) {
        0 => None,
        1 => Some(J::Obj(vec![("k".into(), J::Str(conc_string_of(BODY_SET, 1))), ("n".into(), J::Null)])),
        2 => Some(list(&conc_string_of(BODY_SET, 1))),
        _ => Some(any_value(BODY_SET, 2, false)),
    };
    let var = conc_string_of(b"v\"\\", 1);
    let w = World {
        args: Some(J::Obj(x.iter().map(|x| ("x".to_string(), x.clone())).collect())),
        vars: vec![pair("v", &var)],
        headers: if choose_bool() { vec![pair("x-f", "f")] } else { vec![] },
        ..Default::default()
    };
    let args = vec![KeyValue { key: "a".into(), value: "{{.args.x}}".into() }, KeyValue { key: "c".into(), value: "5".into() }, KeyValue { key: "v".into(), value: "{{.vars.v}}".into() }];
    let mutation = choose_bool();
    let t = RequestTemplate::new("http://h/g".into(), if mutation { &GraphQLOperationType::Mutation } else { &GraphQLOperationType::Query }, "op", Some(&args),
        vec![(HeaderName::from_static("x-t"), Mustache::parse("t{{.vars.v}}"))], Default::default());
    let Ok(mut t) = t else { return check(false, "a template is accepted") };
    t.selection = Some(Selection::Resolved("{ s }".into()));
    let r = w.with(|c| t.to_request(c));
    let Ok(r) = r else { return check(false, "a request can be made") };
    check(*r.method() == reqwest::Method::POST && r.url().as_str() == "http://h/g", "a GraphQL request is posted to its URL");
    let h = |k: &str| r.headers().get(k).map(|v| v.as_bytes().to_vec());
    check(h("content-type") == Some(b"application/json".to_vec()) && h("x-f") == w.headers.first().map(|x| x.1.clone().into_bytes()), "a GraphQL request has the forwarded headers");
    check(h("x-t") == Some(format!("t{var}").into_bytes()), "a GraphQL request has the template's headers");
    let mut want = format!("{} {{ op(", if mutation { "mutation" } else { "query" });
    if let Some(x) = &x {
        want.push_str("a: ");
        literal(x, &mut want);
        want.push_str(", ");
    }
    want.push_str("c: 5, v: ");
    literal(&J::Str(var), &mut want);
    want.push_str(") { s } }");
    let got = r.body().and_then(|b| b.as_bytes()).unwrap_or_default();
    let v = serde_json::from_slice::<SV>(got);
    let SV::Object(o) = v.unwrap_or_default() else { return check(false, "the body of a GraphQL request is a document") };
    check(o.len() == 1 && o.get("query") == Some(&SV::String(want)), "a GraphQL request asks for exactly its operation with the values of its arguments");
    cover("operation");
    observe_bool(true);
}
/// the message sent to a gRPC upstream
pub fn h_c19_grpc() {
    use tailcall::core::grpc::request_template::{RequestBody, RequestTemplate};
    let w = World {
        args: Some(J::Obj(vec![("x".into(), J::Str(conc_string_of(BODY_SET, 2)))])),
        headers: if choose_bool() { vec![pair("x-f", "f")] } else { vec![] },
        ..Default::default()
    };
    let x = w.text(&["args", "x"]).unwrap();
    let (body, a, b): (RequestBody, String, String) = match choose(3) {
        0 => (RequestBody { mustache: Some(Mustache::parse("{\"a\":\"{{.args.x}}\",\"b\":\"c\"}")), value: String::new() }, x, "c".into()),
        1 => (RequestBody { mustache: Some(Mustache::parse("{\"b\":\"p{{.args.x}}\"}")), value: String::new() }, "".into(), format!("p{x}")),
        _ => (RequestBody { mustache: None, value: "{\"a\":\"const\"}".into() }, "const".into(), "".into()),
    };
    let t = RequestTemplate { url: Mustache::parse("http://h/p.S/Do"), headers: vec![(HeaderName::from_static("x-t"), Mustache::parse("t"))], body: Some(body), operation: operation(&pool()), operation_type: GraphQLOperationType::Query };
    let r = w.with(|c| t.render(c).and_then(|r| r.to_request()));
    let Ok(r) = r else { return check(false, "a gRPC request can be made") };
    check(*r.method() == reqwest::Method::POST && r.url().as_str() == "http://h/p.S/Do", "a gRPC request is posted to its URL");
    let h = |k: &str| r.headers().get(k).map(|v| v.as_bytes().to_vec());
    check(h("content-type") == Some(b"application/grpc".to_vec()) && h("x-t") == Some(b"t".to_vec()) && h("x-f") == w.headers.first().map(|x| x.1.clone().into_bytes()), "a gRPC request has the headers of its template and those forwarded");
    let mut m = vec![];
    for (tag, s) in [(0x0a, a), (0x12, b)] {
        if !s.is_empty() {
            m.push(tag);
            m.push(s.len() as u8);
            m.extend(s.bytes());
        }
    }
    let mut want = vec![0, 0, 0, 0, m.len() as u8];
    want.extend(m);
    check(r.body().and_then(|b| b.as_bytes()) == Some(want.as_slice()), "a gRPC request has exactly the message of its template");
    cover("message");
    observe_bool(true);
}
/// which of a client's headers reach the upstream
pub fn h_c19_served() {
    use crate::env::*;
    let allowed: &[&[&str]] = &[&[], &["x-a"], &["X-A", "x-c"], &["x-b"]];
    let list = allowed[choose(4) as usize];
    let names: Vec<String> = list.iter().map(|x| format!("{x:?}")).collect();
    let b = blueprint(&format!(
        "schema @server @upstream(allowedHeaders: [{}]) {{ query: Query }} type Query {{ a(x: String): String @http(url: \"http://h/a\", query: [{{key: \"x\", value: \"{{{{.args.x}}}}\"}}], headers: [{{key: \"x-t\", value: \"{{{{.args.x}}}}\"}}]) }}",
        names.join(", ")
    ));
    let http = Http::new(|_, _| Ok(tailcall::core::http::Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: hyper::body::Bytes::from_static(b"\"r\"") }));
    let app = app(b, http.clone());
    let headers: &[&[(&str, &str)]] = &[&[], &[("x-a", "1")], &[("x-a", "1"), ("x-b", "2")], &[("x-a", "1"), ("x-c", "3"), ("x-a", "4")], &[("X-B", "5"), ("x-t", "6")]];
    let hs = headers[choose(5) as usize];
    let x = ["v", "a b&c=1"][choose(2) as usize];
    let r = crate::env::query(&app, &format!("{{ a(x: {x:?}) }}"), hs, "");
    check(r.is_ok_and(|r| r.body == b"{\"data\":{\"a\":\"r\"}}"), "the request is answered");
    let log = http.log.lock().unwrap();
    check(log.len() == 1, "one request is sent");
    let Some(u) = log.first() else { return };
    for k in ["x-a", "x-b", "x-c"] {
        let ok = list.iter().any(|a| a.eq_ignore_ascii_case(k));
        let want: Vec<&[u8]> = hs.iter().filter(|h| ok && h.0.eq_ignore_ascii_case(k)).map(|h| h.1.as_bytes()).collect();
        let got: Vec<&[u8]> = u.headers().get_all(k).iter().map(|v| v.as_bytes()).collect();
        check(got == want, "the upstream gets exactly the allowed headers of the client");
        if !want.is_empty() {
            cover("forwarded");
        }
    }
    check(u.headers().get("x-t").map(|v| v.as_bytes()) == Some(x.as_bytes()), "the upstream gets the configured header");
    check(pairs(u.url().query()) == vec![p("x", Some(x))], "the upstream gets the configured query");
    cover("served");
}
crate::harnesses!(h_c19_query, h_c19_query_two, h_c19_query_deep, h_c19_headers, h_c19_names, h_c19_name_text, h_c19_body, h_c19_form, h_c19_key, h_c19_graphql_key, h_c19_grpc_key, h_c19_key_deep, h_c19_graphql_key_deep, h_c19_grpc_key_deep, h_c19_url, h_c19_graphql, h_c19_grpc, h_c19_served);
