//! C30: a generated configuration follows the source it is generated from
use crate::env;
use crate::rt::*;
use prost_reflect::prost_types::{
    field_descriptor_proto::{Label, Type as P},
    source_code_info::Location,
    DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet, MessageOptions, MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto, SourceCodeInfo,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use tailcall::core::config::{self, Arg, Config, Enum, Field, Grpc, Http, KeyValue, Resolver, ResolverSet, Union, Variant};
use tailcall::core::generator::{Generator, Input};
use tailcall::core::symex::generator::{from_proto, CommentsBuilder, ConnectRPC, GraphQLType, PathBuilder, PathField};
use tailcall::core::Transform;
use tailcall::core::Type;
use tailcall_valid::Validator;

// ---- names

const RESERVED: [&str; 5] = ["JSON", "Empty", "Int", "Date", "String"];
fn camel(s: &str) -> String {
    use convert_case::{Case, Casing};
    s.to_case(Case::Camel)
}
fn split(s: &[String]) -> Vec<String> {
    let mut out = vec![];
    for x in s {
        let mut cur = String::new();
        for c in x.chars().chain(['.']) {
            if c == '.' {
                let t = cur.trim_matches(' ').to_string();
                if !t.is_empty() {
                    out.push(t);
                }
                cur.clear();
            } else {
                cur.push(c);
            }
        }
    }
    out
}
fn names(head: String, tail: Vec<String>) {
    let make = || {
        let t = GraphQLType::new(&head);
        match tail.len() {
            2 => t.push(&tail[0]).push(&tail[1]),
            _ => t.extend(&tail),
        }
    };
    let name: String = head.chars().map(|c| if c == '.' { '_' } else { c }).collect();
    let ns = split(&tail);
    let mut full = ns.clone();
    full.push(name.clone());
    let prefix = if RESERVED.contains(&name.as_str()) { "" } else { "GEN__" };
    let entity = choose(5);
    let got = match entity {
        0 => make().into_enum(),
        1 => make().into_object_type(),
        2 => make().into_method(),
        3 => make().into_field(),
        _ => make().into_enum_variant(),
    };
    let want = match entity {
        0 | 1 => format!("{prefix}{}", full.join("__")),
        2 => format!("GEN__{}", full.join("__")),
        3 => camel(&name),
        _ => name.clone(),
    };
    let text = got.to_string();
    check(text == want, "the name of a generated type, method, field or variant");
    check(got.id() == full.join("."), "and its full name in the source");
    observe(text.as_bytes());
    cover("named");
}
const TAILS: [&[&str]; 8] = [&[], &[""], &["p"], &["p.q"], &[" p. q "], &["p", "Q.r"], &["p", ""], &["..p", "JSON"]];
fn tail() -> Vec<String> {
    TAILS[choose(8) as usize].iter().map(|x| x.to_string()).collect()
}
pub fn h_c30_names() {
    let n = 1 + choose(2) as usize;
    names(conc_string_of(b"aB_.1", n), tail())
}
pub fn h_c30_names_deep() {
    names(conc_string_of(b"aB_.1", 3), tail())
}
pub fn h_c30_reserved() {
    let h = RESERVED[choose(5) as usize];
    let h = match choose(3) {
        0 => h.to_string(),
        1 => format!("{h}x"),
        _ => h.to_lowercase(),
    };
    names(h, tail())
}

// ---- gRPC resolvers as HTTP ones

fn pick<T>(some: bool, v: T) -> Option<T> {
    if some { Some(v) } else { None }
}
pub fn h_c30_connect() {
    let small = |n| string_of(b"aB/", n);
    let method = ["p.S.M", "S.M", "p.q.S.Method", "p.p.p", "a.b..c"][choose(5) as usize];
    let body = match choose(4) {
        0 => None,
        1 => Some(json!({"a": 1})),
        2 => Some(json!("{{.args.in}}")),
        _ => Some(Value::Null),
    };
    let nheaders = choose(3);
    let headers: Vec<KeyValue> = (0..nheaders)
        .map(|i| KeyValue { key: ["x-a", "Connect-Protocol-Version"][i as usize].into(), value: small(1) })
        .collect();
    let more = choose(5);
    let flag = any_bool();
    let grpc = Grpc {
        url: format!("http://h{}", small(1)),
        body: body.clone(),
        batch_key: if more == 1 { vec![small(1), "id".into()] } else { vec![] },
        headers: headers.clone(),
        method: method.into(),
        dedupe: pick(more == 2, flag),
        select: pick(more == 3, json!({"x": "{{.y}}"})),
        on_response_body: pick(more == 4, small(2)),
    };
    let (service, name) = method.rsplit_once('.').unwrap();
    let mut want = headers.clone();
    want.push(KeyValue { key: "Connect-Protocol-Version".into(), value: "1".into() });
    let http = Http {
        url: format!("{}/{service}/{name}", grpc.url),
        body: Some(body.unwrap_or(json!({}))),
        method: tailcall::core::http::Method::POST,
        headers: want,
        batch_key: grpc.batch_key.clone(),
        dedupe: grpc.dedupe,
        select: grpc.select.clone(),
        on_response_body: grpc.on_response_body.clone(),
        ..Default::default()
    };
    // one of several resolvers of one of several fields
    let other = Resolver::Http(Http { url: "http://other".into(), ..Default::default() });
    let place = choose(3);
    let set = |r: Resolver| match place {
        0 => ResolverSet(vec![r]),
        1 => ResolverSet(vec![other.clone(), r]),
        _ => ResolverSet(vec![r.clone(), r, other.clone()]),
    };
    let config = |r: Resolver| {
        let mut c = Config::default();
        let mut t = config::Type::default();
        t.fields.insert("f".into(), Field { resolvers: set(r), doc: Some("d".into()), ..Default::default() });
        t.fields.insert("g".into(), Field { resolvers: ResolverSet(vec![other.clone()]), ..Default::default() });
        t.fields.insert("h".into(), Field::default());
        c.types.insert("Query".into(), t);
        c.types.insert("T".into(), config::Type::default());
        c
    };
    let got = ConnectRPC.transform(config(Resolver::Grpc(grpc))).to_result().unwrap();
    let Resolver::Http(h) = &got.types["Query"].fields["f"].resolvers.0[if place == 1 { 1 } else { 0 }] else {
        check(false, "a gRPC call becomes an HTTP request");
        return;
    };
    observe(h.url.as_bytes());
    check(h.url == http.url, "to the service and method");
    check(h.body == http.body, "with its message");
    check(h.headers == http.headers, "its headers and the protocol's");
    check(got == config(Resolver::Http(http)), "and all else is kept");
    cover("connect");
}

// ---- descriptions

pub fn h_c30_comments() {
    let n = 1 + choose(2) as usize;
    let path = |k: u8| match k {
        0 => vec![4, 0],
        1 => vec![4, 0, 2, 1],
        _ => vec![6, 0, 2, 1],
    };
    let locs: Vec<(u8, Option<String>)> = (0..n)
        .map(|i| {
            let k = choose(3);
            let t = match choose(4) {
                0 => None,
                1 => Some(if i == 0 { conc_string_of(b"* a\n", 3) } else { "*\n b* \n".to_string() }),
                2 => Some("* a * b\n\n ** c \n".into()),
                _ => Some(" */x\r\n y".into()),
            };
            (k, t)
        })
        .collect();
    let info = SourceCodeInfo {
        location: locs.iter().map(|(k, t)| Location { path: path(*k), leading_comments: t.clone(), trailing_comments: Some("t".into()), ..Default::default() }).collect(),
    };
    let none = choose(8) == 0;
    let b = CommentsBuilder::new(if none { None } else { Some(info) });
    let want = choose(3);
    let p = match want {
        0 => PathBuilder::new(&[]).extend(PathField::MessageType, 0),
        1 => PathBuilder::new(&[4, 0]).extend(PathField::Field, 1),
        _ => PathBuilder::new(&[6, 0]).extend(PathField::Method, 1),
    };
    let got = b.get_comments(&p);
    let text = |t: &String| {
        let mut lines = vec![];
        for l in t.split('\n') {
            let l = l.strip_suffix('\r').unwrap_or(l);
            let mut l = &l[l.bytes().take_while(|c| *c == b'*').count()..];
            while let Some(x) = l.strip_prefix(' ') {
                l = x;
            }
            while let Some(x) = l.strip_suffix(' ') {
                l = x;
            }
            if !l.is_empty() {
                lines.push(l);
            }
        }
        lines.join("\n  ")
    };
    let expected = locs.iter().find(|x| x.0 == want && !none).and_then(|x| x.1.as_ref()).map(|t| text(t));
    check(got == expected, "the description is the comment of the element");
    observe(format!("{got:?}").as_bytes());
    cover("described");
}
/// where the comment of each kind of element is kept
pub fn h_c30_paths() {
    let base: Vec<i32> = (0..choose(3)).map(|_| byte() as i32).collect();
    let index = byte() as i32;
    let (f, n) = [
        (PathField::MessageType, 4),
        (PathField::EnumType, 5),
        (PathField::Service, 6),
        (PathField::Field, 2),
        (PathField::Method, 2),
        (PathField::EnumValue, 2),
        (PathField::NestedType, 3),
        (PathField::NestedEnum, 4),
    ]
    .into_iter()
    .nth(choose(8) as usize)
    .unwrap();
    let got = PathBuilder::new(&base).extend(f, index);
    let mut want = base.clone();
    want.push(n);
    want.push(index);
    check(got == want, "the path of an element");
    let got: Vec<u8> = got.iter().map(|x| *x as u8).collect();
    observe(&got);
}

// ---- whole protocols

fn field(n: &str, number: i32, l: Label, t: P, tn: Option<&str>) -> FieldDescriptorProto {
    let mut f = FieldDescriptorProto { name: Some(n.into()), number: Some(number), type_name: tn.map(|x| x.into()), ..Default::default() };
    f.set_label(l);
    f.set_type(t);
    f
}
fn message(n: &str, f: Vec<FieldDescriptorProto>) -> DescriptorProto {
    DescriptorProto { name: Some(n.into()), field: f, ..Default::default() }
}
fn method(n: &str, i: &str, o: &str) -> MethodDescriptorProto {
    MethodDescriptorProto { name: Some(n.into()), input_type: Some(i.into()), output_type: Some(o.into()), ..Default::default() }
}
fn service(n: &str, m: Vec<MethodDescriptorProto>) -> ServiceDescriptorProto {
    ServiceDescriptorProto { name: Some(n.into()), method: m, ..Default::default() }
}
fn an_enum(n: &str, vs: &[&str]) -> EnumDescriptorProto {
    EnumDescriptorProto {
        name: Some(n.into()),
        value: vs.iter().enumerate().map(|(i, v)| EnumValueDescriptorProto { name: Some((*v).into()), number: Some(i as i32), ..Default::default() }).collect(),
        ..Default::default()
    }
}
fn wrapped(l: Label, name: &str) -> Type {
    match l {
        Label::Optional => Type::Named { name: name.into(), non_null: false },
        Label::Required => Type::Named { name: name.into(), non_null: true },
        Label::Repeated => Type::List { of_type: Box::new(Type::Named { name: name.into(), non_null: false }), non_null: false },
    }
}
fn of(t: Type) -> Field {
    Field { type_of: t, ..Default::default() }
}
fn variants(vs: &[&str]) -> Enum {
    Enum { variants: vs.iter().map(|v| Variant { name: v.to_string(), alias: None }).collect(), doc: None }
}
/// a package, what it is called in type names and before names in the protocol
const PACKAGES: [(&str, &str, &str); 3] = [("", "GEN__", ""), ("p", "GEN__p__", "p."), ("p.q", "GEN__p__q__", "p.q.")];
fn call(pre: &str, svc: &str, name: &str, input: Option<(&str, &str)>, out: &str) -> (String, Field) {
    let mut f = of(wrapped(Label::Optional, out));
    if let Some((k, t)) = input {
        f.args.insert(k.into(), Arg { type_of: wrapped(Label::Required, t), ..Default::default() });
    }
    f.resolvers = Resolver::Grpc(Grpc {
        url: "http://u".into(),
        body: input.map(|(k, _)| json!(format!("{{{{.args.{k}}}}}"))),
        method: format!("{pre}{svc}.{name}"),
        ..Default::default()
    })
    .into();
    let ns: String = pre.split('.').filter(|x| !x.is_empty()).map(|x| format!("{x}__")).collect();
    (format!("GEN__{ns}{svc}__{name}"), f)
}
fn compare(got: &Config, types: Vec<(String, config::Type)>, unions: Vec<(String, Union)>, enums: Vec<(String, Enum)>) {
    let types: BTreeMap<_, _> = types.into_iter().collect();
    let names: Vec<_> = got.types.keys().cloned().collect();
    observe(names.join(" ").as_bytes());
    check(got.schema.query.as_deref() == Some("Query") && got.schema.mutation.is_none(), "the query root");
    for (n, t) in &types {
        match got.types.get(n) {
            None => {
                print(n);
                check(false, "every message has its type")
            }
            Some(g) => {
                for (k, f) in &t.fields {
                    if g.fields.get(k) != Some(f) {
                        print(&format!("{n}.{k}: {:?} {f:?}", g.fields.get(k)));
                    }
                    check(g.fields.get(k) == Some(f), "every field is there with its type, arguments and call");
                }
                check(g.fields.len() == t.fields.len(), "and no other field");
                check(g == t, "and the type has its description and interfaces");
            }
        }
    }
    check(got.types.len() == types.len(), "no other types");
    check(got.unions == unions.into_iter().collect(), "the alternatives");
    let enums: BTreeMap<String, Enum> = enums.into_iter().collect();
    check(got.enums == enums, "the enumerations");
    cover("protocol");
}
fn ty(fields: Vec<(&str, Field)>) -> config::Type {
    config::Type { fields: fields.into_iter().map(|(n, f)| (n.to_string(), f)).collect(), ..Default::default() }
}
const SCALARS: [(P, &str); 15] = [
    (P::Double, "Float"),
    (P::Float, "Float"),
    (P::Int32, "Int"),
    (P::Sint32, "Int"),
    (P::Fixed32, "Int"),
    (P::Sfixed32, "Int"),
    (P::Int64, "Int64"),
    (P::Sint64, "Int64"),
    (P::Fixed64, "Int64"),
    (P::Sfixed64, "Int64"),
    (P::Uint32, "UInt32"),
    (P::Uint64, "UInt64"),
    (P::Bool, "Boolean"),
    (P::String, "String"),
    (P::Bytes, "Bytes"),
];
fn label() -> Label {
    [Label::Optional, Label::Required, Label::Repeated][choose(3) as usize]
}
/// a field of every type, label and name, in every place
pub fn h_c30_fields() {
    let (pkg, gen, pre) = PACKAGES[choose(3) as usize];
    let nested = choose_bool();
    let kind = choose(19);
    let (fname, camel) = [("a", "a"), ("snake_case", "snakeCase"), ("CamelCase", "camelCase")][choose(3) as usize];
    let l = label();
    let holder = if nested { "Out.In1" } else { "Out" };
    let inner = format!("{gen}{}", holder.replace('.', "__"));
    let mut types = vec![];
    let enums = vec![(format!("{gen}Top"), variants(&["A", "B"])), (format!("{gen}Out__Sub"), variants(&["C"]))];
    let mut entry = None;
    let f = match kind {
        0..=14 => {
            let (p, g) = SCALARS[kind as usize];
            (field(fname, 1, l, p, None), wrapped(l, g))
        }
        15 => (field(fname, 1, l, P::Enum, Some(&format!(".{pre}Top"))), wrapped(l, &format!("{gen}Top"))),
        16 => (field(fname, 1, l, P::Enum, Some(&format!(".{pre}Out.Sub"))), wrapped(l, &format!("{gen}Out__Sub"))),
        17 => {
            types.push((format!("{gen}Other"), ty(vec![("n", of(wrapped(Label::Optional, "Int")))])));
            (field(fname, 1, l, P::Message, Some(&format!(".{pre}Other"))), wrapped(l, &format!("{gen}Other")))
        }
        _ => {
            let mut e = message("MEntry", vec![field("key", 1, Label::Optional, P::String, None), field("value", 2, Label::Optional, P::Int32, None)]);
            e.options = Some(MessageOptions { map_entry: Some(true), ..Default::default() });
            entry = Some(e);
            (field(fname, 1, Label::Repeated, P::Message, Some(&format!(".{pre}{holder}.MEntry"))), wrapped(Label::Optional, "JSON"))
        }
    };
    let second = field("second_one", 2, Label::Optional, P::Bool, None);
    let mut m = message(if nested { "In1" } else { "Out" }, vec![f.0, second]);
    m.nested_type.extend(entry);
    let want = ty(vec![(camel, of(f.1)), ("secondOne", of(wrapped(Label::Optional, "Boolean")))]);
    let out = if nested {
        let mut o = message("Out", vec![field("in1", 1, Label::Optional, P::Message, Some(&format!(".{pre}Out.In1")))]);
        o.nested_type.push(m);
        types.push((format!("{gen}Out"), ty(vec![("in1", of(wrapped(Label::Optional, &inner)))])));
        o
    } else {
        m
    };
    types.push((inner, want));
    let mut out = out;
    out.enum_type.push(an_enum("Sub", &["C"]));
    let file = FileDescriptorProto {
        name: Some("a.proto".into()),
        package: Some(pkg.into()),
        message_type: vec![out, message("Other", vec![field("n", 1, Label::Optional, P::Int32, None)]), message("Unused", vec![field("n", 1, Label::Optional, P::Int32, None)])],
        enum_type: vec![an_enum("Top", &["B", "A"])],
        service: vec![service("Svc", vec![method("Get", ".google.protobuf.Empty", &format!(".{pre}Out"))])],
        ..Default::default()
    };
    let c = call(pre, "Svc", "Get", None, &format!("{gen}Out"));
    types.push(("Query".into(), ty(vec![(&c.0, c.1)])));
    let got = from_proto(&[FileDescriptorSet { file: vec![file] }], "Query", "http://u").unwrap();
    compare(&got, types, vec![], enums)
}
/// calls of services of several files, with their messages
pub fn h_c30_services() {
    services(1)
}
pub fn h_c30_services_deep() {
    services(2)
}
fn services(most: u8) {
    let (p1, g1, pre1) = PACKAGES[choose(3) as usize];
    let (p2, g2, pre2) = PACKAGES[choose(2) as usize];
    if p1 == p2 {
        reject()
    }
    let mut types = vec![];
    let mut calls = vec![];
    let msg = |n: &str, f: &str| message(n, vec![field(f, 1, Label::Optional, P::Int32, None)]);
    let int = |f: &str| ty(vec![(f, of(wrapped(Label::Optional, "Int")))]);
    let mut files: Vec<FileDescriptorProto> = [(p1, "x"), (p2, "y")]
        .iter()
        .map(|(p, f)| FileDescriptorProto {
            name: Some(format!("{f}.proto")),
            package: Some(p.to_string()),
            message_type: vec![msg("Both", f), msg("InMsg", f), msg("OutMsg", f)],
            ..Default::default()
        })
        .collect();
    let svc2 = ["Svc", "S2"][choose(2) as usize];
    let mut used: Vec<(String, &str, bool)> = vec![];
    for (i, (g, pre, f, svc)) in [(g1, pre1, "x", "Svc"), (g2, pre2, "y", svc2)].into_iter().enumerate() {
        let n = if i == 0 { 1 + choose(most) } else { choose(2) };
        let mut ms = vec![];
        for k in 0..n {
            let name = ["Get", "get_two"][k as usize];
            let input = choose(3);
            let (it, arg) = match input {
                0 => (".google.protobuf.Empty".to_string(), None),
                1 => (format!(".{pre}InMsg"), Some(("inMsg", format!("{g}InMsg")))),
                _ => (format!(".{pre}Both"), Some(("both", format!("{g}Both")))),
            };
            // the answer may be a message of the other file
            let (ot, out, of_) = match choose(4) {
                0 => (".google.protobuf.Empty".to_string(), "Empty".to_string(), None),
                1 => (format!(".{pre}OutMsg"), format!("{g}OutMsg"), Some(f)),
                2 => (format!(".{pre1}OutMsg"), format!("{g1}OutMsg"), Some("x")),
                _ => (format!(".{pre}Both"), format!("{g}Both"), Some(f)),
            };
            ms.push(method(name, &it, &ot));
            if let Some((_, t)) = &arg {
                used.push((t.clone(), f, true));
            }
            if let Some(of_) = of_ {
                used.push((out.clone(), of_, false));
            }
            calls.push((pre, svc, name, arg, out));
        }
        if n > 0 {
            files[i].service.push(service(svc, ms));
        }
    }
    let both: Vec<String> = used.iter().filter(|u| u.2 && used.iter().any(|v| v.0 == u.0 && !v.2)).map(|u| u.0.clone()).collect();
    for (t, f, input) in &used {
        let n = if *input && both.contains(t) { format!("{t}Input") } else { t.clone() };
        types.push((n, int(f)));
    }
    let mut query = vec![];
    for (pre, svc, name, arg, out) in &calls {
        let arg = arg.as_ref().map(|(k, t)| (*k, if both.contains(t) { format!("{t}Input") } else { t.clone() }));
        query.push(call(pre, svc, name, arg.as_ref().map(|(k, t)| (*k, t.as_str())), out));
    }
    types.push(("Query".into(), ty(query.iter().map(|(n, f)| (n.as_str(), f.clone())).collect())));
    let sets = if choose_bool() {
        vec![FileDescriptorSet { file: files }]
    } else {
        files.into_iter().map(|f| FileDescriptorSet { file: vec![f] }).collect()
    };
    let got = from_proto(&sets, "Query", "http://u").unwrap();
    compare(&got, types, vec![], vec![])
}
/// fields of which only one is set
pub fn h_c30_oneofs() {
    let n1 = 1 + choose(3) as usize;
    let n2 = choose(3) as usize;
    let base = choose_bool();
    let names = ["aa", "bb", "cc", "dd", "ee"];
    let mut fs = vec![];
    if base {
        fs.push(field("base", 9, Label::Optional, P::Bool, None));
    }
    let kinds = [(P::Int32, "Int"), (P::String, "String"), (P::Bool, "Boolean")];
    for i in 0..n1 + n2 {
        let mut f = field(names[i], i as i32 + 1, Label::Optional, kinds[i % 3].0, None);
        f.oneof_index = Some(if i < n1 { 0 } else { 1 });
        fs.push(f);
    }
    let mut m = message("Out", fs);
    m.oneof_decl = (0..if n2 > 0 { 2 } else { 1 }).map(|i| OneofDescriptorProto { name: Some(format!("o{i}")), options: None }).collect();
    let file = FileDescriptorProto {
        name: Some("a.proto".into()),
        package: Some("p".into()),
        message_type: vec![m],
        service: vec![service("Svc", vec![method("Get", ".google.protobuf.Empty", ".p.Out")])],
        ..Default::default()
    };
    let f = |i: usize, l: Label| (names[i].to_string(), of(wrapped(l, kinds[i % 3].1)));
    // every choice of one field, or none, of each group
    let group = |from: usize, n: usize| -> Vec<(String, Vec<(String, Field)>)> {
        match n {
            0 => vec![(String::new(), vec![])],
            1 => vec![("__Var".into(), vec![f(from, Label::Optional)])],
            _ => std::iter::once(("__Var".to_string(), vec![]))
                .chain((0..n).map(|i| (format!("__Var{i}"), vec![f(from + i, Label::Required)])))
                .collect(),
        }
    };
    let b: Vec<(String, Field)> = if base { vec![("base".into(), of(wrapped(Label::Optional, "Boolean")))] } else { vec![] };
    let mut types = vec![];
    let mut union_ = Union::default();
    let mut all = vec![];
    for x in group(0, n1) {
        for y in group(n1, n2) {
            let mut fields = b.clone();
            fields.extend(x.1.clone());
            fields.extend(y.1.clone());
            all.push((format!("GEN__p__Out{}{}", x.0, y.0), fields));
        }
    }
    let mut unions = vec![];
    if all.len() == 1 {
        types.push(("GEN__p__Out".to_string(), config::Type { fields: all.pop().unwrap().1.into_iter().collect(), ..Default::default() }));
    } else {
        for (n, f) in all {
            union_.types.insert(n.clone());
            types.push((n, config::Type { fields: f.into_iter().collect(), implements: ["GEN__p__Out__Interface".to_string()].into(), ..Default::default() }));
        }
        types.push(("GEN__p__Out__Interface".into(), config::Type { fields: b.into_iter().collect(), ..Default::default() }));
        unions.push(("GEN__p__Out".to_string(), union_));
    }
    let c = call("p.", "Svc", "Get", None, "GEN__p__Out");
    types.push(("Query".into(), ty(vec![(&c.0, c.1)])));
    let got = from_proto(&[FileDescriptorSet { file: vec![file] }], "Query", "http://u").unwrap();
    compare(&got, types, unions, vec![])
}
/// every element has its own comment as its description
pub fn h_c30_docs() {
    const PLACES: [&[i32]; 9] = [&[4, 0], &[4, 0, 2, 0], &[4, 0, 2, 1], &[4, 0, 3, 0], &[4, 0, 3, 0, 2, 0], &[4, 0, 4, 0], &[5, 0], &[6, 0, 2, 0], &[6, 0, 2, 1]];
    let make = |pkg: &str, info: Option<SourceCodeInfo>| {
        let mut out = message("Out", vec![field("a", 1, Label::Optional, P::Message, Some(&format!(".{pkg}.Out.In1"))), field("b", 2, Label::Optional, P::Enum, Some(&format!(".{pkg}.Top")))]);
        out.nested_type.push(message("In1", vec![field("n", 1, Label::Optional, P::Enum, Some(&format!(".{pkg}.Out.Sub")))]));
        out.enum_type.push(an_enum("Sub", &["C"]));
        FileDescriptorProto {
            name: Some(format!("{pkg}.proto")),
            package: Some(pkg.into()),
            message_type: vec![out],
            enum_type: vec![an_enum("Top", &["A"])],
            service: vec![service("Svc", vec![method("One", "", &format!(".{pkg}.Out")), method("Two", "", &format!(".{pkg}.Out"))])],
            source_code_info: info,
            ..Default::default()
        }
    };
    let mut files = vec![];
    let mut want = vec![];
    let (a, b) = (choose(9) as usize, choose(9) as usize);
    let second = choose(3);
    for (pkg, i) in [("p", 0), ("q", 1)] {
        let mut locs = vec![];
        if i == 0 || second == 2 {
            for (k, x) in [a, b].iter().enumerate() {
                locs.push((*x, format!("about {pkg} {k}")));
            }
        }
        let info = if i == 1 && second == 0 {
            None
        } else {
            Some(SourceCodeInfo { location: locs.iter().map(|(p, t)| Location { path: PLACES[*p].to_vec(), leading_comments: Some(format!(" {t}\n")), ..Default::default() }).collect() })
        };
        files.push(make(pkg, info));
        for (j, _) in PLACES.iter().enumerate() {
            want.push((pkg, j, locs.iter().find(|l| l.0 == j).map(|l| l.1.clone())));
        }
    }
    let got = from_proto(&[FileDescriptorSet { file: files }], "Query", "http://u").unwrap();
    for (pkg, j, doc) in want {
        let t = |n: &str| got.types[&format!("GEN__{pkg}__{n}")].clone();
        let e = |n: &str| got.enums[&format!("GEN__{pkg}__{n}")].doc.clone();
        let m = |n: &str| got.types["Query"].fields[&format!("GEN__{pkg}__Svc__{n}")].doc.clone();
        let is = match j {
            0 => t("Out").doc,
            1 => t("Out").fields["a"].doc.clone(),
            2 => t("Out").fields["b"].doc.clone(),
            3 => t("Out__In1").doc,
            4 => t("Out__In1").fields["n"].doc.clone(),
            5 => e("Out__Sub"),
            6 => e("Top"),
            7 => m("One"),
            _ => m("Two"),
        };
        if is != doc {
            print(&format!("{pkg} {j} {is:?} {doc:?}"));
        }
        check(is == doc, "every element has its own comment as its description");
    }
    observe(&[a as u8, b as u8]);
    cover("documented");
}

// ---- samples of requests and answers

fn words(v: &str) -> bool {
    let mut c = v.chars();
    c.next().is_some_and(|x| x.is_ascii_alphabetic()) && c.all(|x| x.is_ascii_alphanumeric() || x == '_')
}
pub fn h_c30_kinds() {
    use tailcall::core::helpers::gql_type as g;
    match choose(3) {
        0 => {
            let n = choose(4) as usize;
            let s = conc_string_of(b"aZ_1- ", n);
            check(g::is_valid_field_name(&s) == words(&s), "names that can be fields");
            observe_bool(words(&s));
        }
        1 => {
            let n = choose(4) as usize;
            let s = conc_string_of(b"1-.,a", n);
            // the first of several
            let first = if number(&s).is_some() { s.as_str() } else { s.split(',').next().unwrap() };
            let want = number(first).unwrap_or("String");
            let got = g::detect_gql_data_type(&s);
            observe(got.as_bytes());
            check(got == want, "the type of the text of a parameter");
        }
        _ => {
            let (s, want) = [(" 1 ", "Int"), ("true", "Boolean"), ("false,1", "Boolean"), ("True", "String"), ("2147483647", "Int"), ("2147483648", "Float"), ("-2147483648", "Int"), ("1e3", "Float"), ("a,1", "String"), ("1,a", "Int")][choose(10) as usize];
            check(g::detect_gql_data_type(s) == want, "the type of the text of a parameter");
            let (v, want) = [(json!(null), "JSON"), (json!(true), "Boolean"), (json!("1"), "String"), (json!(7), "Int"), (json!([1]), "List"), (json!({"a": 1}), "Object")][choose(6) as usize].clone();
            check(g::to_gql_type(&v) == want, "the type of a value");
            check(g::is_primitive(&v) == (want != "List" && want != "Object"), "values without parts");
            observe(want.as_bytes());
        }
    }
    cover("kinds");
}
fn number(s: &str) -> Option<&'static str> {
    let b = s.strip_prefix('-').unwrap_or(s);
    let digits = b.bytes().filter(|c| *c == b'1').count();
    let dots = b.bytes().filter(|c| *c == b'.').count();
    if digits + dots != b.len() || digits == 0 || dots > 1 {
        return None;
    }
    Some(if dots == 0 { "Int" } else { "Float" })
}
fn generated(url: &str, res: Value, more: impl Fn(&mut Input)) -> config::ConfigModule {
    let mut i = Input::Json {
        url: url.parse().unwrap(),
        method: Default::default(),
        req_body: Value::Null,
        res_body: res,
        field_name: "f".into(),
        is_mutation: false,
        headers: None,
    };
    more(&mut i);
    Generator::default().inputs(vec![i]).generate(false).unwrap()
}
/// all there is of a type, and what a query for it gives for a value
fn selection(c: &Config, t: &str) -> String {
    match c.types.get(t) {
        None => String::new(),
        Some(t) => {
            let f: Vec<String> = t.fields.iter().map(|(n, f)| format!("{n}{}", selection(c, f.type_of.name()))).collect();
            format!(" {{ {} }}", f.join(" "))
        }
    }
}
fn shown(c: &Config, t: &str, v: &Value) -> Value {
    match (v, c.types.get(t)) {
        (Value::Array(l), _) => Value::Array(l.iter().map(|x| shown(c, t, x)).collect()),
        (Value::Object(o), Some(ty)) => {
            for k in o.keys() {
                check(ty.fields.contains_key(k), "every member of the sample is a field");
            }
            Value::Object(ty.fields.iter().map(|(n, f)| (n.clone(), shown(c, f.type_of.name(), o.get(n).unwrap_or(&Value::Null)))).collect())
        }
        _ => v.clone(),
    }
}
fn serves(sample: Value) {
    let up = sample.to_string();
    let module = generated("http://u/x", sample.clone(), |_| {});
    let config = Config::clone(&module);
    let sdl = module.to_sdl();
    observe(sdl.as_bytes());
    let http = env::Http::new(move |_, _| {
        Ok(tailcall::core::http::Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: hyper::body::Bytes::from(up.clone()) })
    });
    let app = env::app(env::blueprint(&sdl), http);
    let t = config.types["Query"].fields["f"].type_of.name().clone();
    let got = env::query(&app, &format!("{{ f{} }}", selection(&config, &t)), &[], "").unwrap();
    let v: Value = serde_json::from_slice(&got.body).unwrap();
    if v["data"]["f"] != shown(&config, &t, &sample) {
        print(&sdl);
        print(&sample.to_string());
        print(&v.to_string());
    }
    check(v.get("errors").is_none(), "the sample can be served with the configuration generated from it");
    check(v["data"]["f"] == shown(&config, &t, &sample), "and is what is served");
    cover("sample served");
}
fn leaf() -> Value {
    match choose(6) {
        0 => json!(1),
        1 => json!("s"),
        2 => json!(true),
        3 => json!(null),
        4 => json!({}),
        _ => json!([]),
    }
}
fn part() -> Value {
    match choose(6) {
        0 => leaf(),
        1 => json!([leaf(), leaf()]),
        2 => json!({ "c": leaf() }),
        3 => json!([{ "c": leaf() }, { "d": 2 }]),
        4 => json!({ "x-y": 1, "c": 2 }),
        _ => json!([[leaf()], [1]]),
    }
}
pub fn h_c30_sample() {
    serves(match choose(4) {
        0 => part(),
        1 => json!({ "a": part(), "b": 5 }),
        2 => json!({ "a": { "b": part() }, "b": "t" }),
        _ => json!([{ "a": leaf(), "b": 1 }, { "a": leaf() }]),
    })
}
/// the request of the sample can be made again
pub fn h_c30_url() {
    let uuid = "123e4567-e89b-12d3-a456-426614174000";
    let segs: Vec<&str> = (0..1 + choose(2)).map(|_| ["users", "12", "v1", uuid, "7-x", "0"][choose(6) as usize]).collect();
    const Q: [(&str, &str, &str); 8] = [
        ("", "", ""),
        ("x=1", "x", "1"),
        ("x=ab", "x", "\"ab\""),
        ("flag=true", "flag", "true"),
        ("a_b=1.5", "aB", "1.5"),
        ("id=1&id=2", "id", "[1,2]"),
        ("CamelCase=q%20r", "camelCase", "\"q r\""),
        ("t=", "t", "\"\""),
    ];
    let q = Q[choose(8) as usize];
    let second = choose_bool() && !q.0.is_empty();
    let mut url = format!("http://u/{}", segs.join("/"));
    if !q.0.is_empty() {
        url = format!("{url}?{}{}", q.0, if second { "&z=9" } else { "" });
    }
    let post = segs.len() < 2 && choose_bool();
    let module = generated(&url, json!({ "a": 1 }), |i| {
        if let Input::Json { is_mutation, method, req_body, .. } = i {
            *is_mutation = post;
            if post {
                *method = tailcall::core::http::Method::PUT;
                *req_body = json!({ "m": 1, "n": "t" });
            }
        }
    });
    let root = if post { "Mutation" } else { "Query" };
    let mut args = vec![];
    let f = module.types[root].fields["f"].clone();
    let mut k = 0;
    for s in &segs {
        if *s == "12" || *s == "0" {
            k += 1;
            args.push(format!("GEN__{k}: {s}"));
        } else if *s == "7-x" {
            k += 1;
            args.push(format!("GEN__{k}: 7"));
        }
    }
    for s in &segs {
        if *s == uuid {
            k += 1;
            args.push(format!("GEN__{k}: \"{s}\""));
        }
    }
    if !q.0.is_empty() {
        args.push(format!("{}: {}", q.1, q.2));
    }
    if second {
        args.push("z: 9".into());
    }
    if post {
        args.push("GEN__Input1: { m: 1, n: \"t\" }".into());
    }
    if f.args.len() != args.len() {
        print(&format!("{:?} {:?}", f.args.keys().collect::<Vec<_>>(), args));
    }
    check(f.args.len() == args.len(), "an argument for each part of the URL that varies");
    let http = env::Http::new(move |_, _| Ok(tailcall::core::http::Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: hyper::body::Bytes::from("{\"a\":1}") }));
    let sdl = if post { module.to_sdl().replace("mutation: Mutation", "query: Query, mutation: Mutation") + " type Query { z: String @expr(body: \"\") }" } else { module.to_sdl() };
    let app = env::app(env::blueprint(&sdl), http.clone());
    let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
    let got = env::query(&app, &format!("{} {{ f{args} {{ a }} }}", if post { "mutation" } else { "query" }), &[], "").unwrap();
    let log = http.log.lock().unwrap();
    if log.len() != 1 {
        print(&sdl);
        print(&String::from_utf8_lossy(&got.body));
    }
    check(log.len() == 1, "the request is made");
    let want: reqwest::Url = url.parse().unwrap();
    let sent = &log[0];
    if sent.url().path() != want.path() || !sent.url().query_pairs().eq(want.query_pairs()) {
        print(sent.url().as_str());
    }
    check(sent.url().path() == want.path(), "to the path of the sample");
    check(sent.url().query_pairs().eq(want.query_pairs()), "with its parameters");
    check(sent.method().as_str() == if post { "PUT" } else { "GET" }, "its method");
    let body: Option<Value> = sent.body().and_then(|b| b.as_bytes()).and_then(|b| serde_json::from_slice(b).ok());
    check(body == pick(post, json!({ "m": 1, "n": "t" })), "and its body");
    observe(sent.url().as_str().as_bytes());
    cover("asked again");
}
crate::harnesses!(h_c30_names, h_c30_names_deep, h_c30_reserved, h_c30_connect, h_c30_comments, h_c30_paths, h_c30_fields, h_c30_services, h_c30_services_deep, h_c30_oneofs, h_c30_docs, h_c30_kinds, h_c30_sample, h_c30_url);
