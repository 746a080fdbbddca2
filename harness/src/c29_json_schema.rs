//! C29: JSON schemas: which values conform, which schemas are assignable
use crate::rt::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use tailcall::core::json::JsonSchema as S;
use tailcall_valid::{ValidationError, Validator};

type Path = Vec<String>;
const KEYS: [&str; 2] = ["a", "b"];
fn leaf(k: u8) -> S {
    match k {
        0 => S::Str,
        1 => S::Num,
        2 => S::Bool,
        3 => S::Empty,
        _ => S::Any,
    }
}
/// a schema other than an optional one
fn solid(depth: u8, width: usize) -> S {
    match choose(if depth == 0 { 5 } else { 7 }) {
        5 => S::Arr(Box::new(schema(depth - 1, width))),
        6 => object(depth - 1, width),
        k => leaf(k),
    }
}
fn schema(depth: u8, width: usize) -> S {
    let s = solid(depth, width);
    if choose_bool() {
        S::Opt(Box::new(s))
    } else {
        s
    }
}
fn object(depth: u8, width: usize) -> S {
    let mut m = BTreeMap::new();
    for k in KEYS.iter().take(width) {
        if choose_bool() {
            m.insert(k.to_string(), schema(depth, width));
        }
    }
    S::Obj(m)
}
/// any value that conforms to the schema or goes wrong somewhere
fn value(s: &S, wrong: &mut u8, width: usize) -> J {
    if *wrong > 0 && choose_bool() {
        *wrong -= 1;
        return match choose(7) {
            0 => J::Null,
            1 => J::Bool(any_bool()),
            2 => J::Int(any_i64()),
            3 => J::Str(ascii(1)),
            4 => J::List(vec![]),
            5 => J::Obj(vec![]),
            _ => J::Obj(vec![("a".into(), J::Null)]),
        };
    }
    match s {
        S::Str => J::Str(ascii(choose(2) as usize)),
        S::Num => match choose(3) {
            0 => J::Int(any_i64()),
            1 => J::UInt(u64::MAX),
            _ => J::Float(1.5),
        },
        S::Bool => J::Bool(any_bool()),
        S::Empty => if choose_bool() { J::Null } else { J::Obj(vec![]) },
        S::Any => if choose_bool() { J::List(vec![J::Null]) } else { J::Str("x".into()) },
        S::Opt(s) => if choose_bool() { J::Null } else { value(s, wrong, width) },
        S::Arr(s) => J::List((0..choose(width as u8 + 1)).map(|_| value(s, wrong, width)).collect()),
        S::Obj(m) => {
            let mut o = vec![];
            for (k, s) in m {
                let leave = matches!(s, S::Opt(_)) || *wrong > 0;
                if leave && choose_bool() {
                    *wrong -= !matches!(s, S::Opt(_)) as u8;
                } else {
                    o.push((k.clone(), value(s, wrong, width)));
                }
            }
            if choose_bool() {
                o.push(("more".into(), J::Bool(true)));
            }
            J::Obj(o)
        }
        S::Enum(_) => J::Str("A".into()),
    }
}
/// where the value does not conform
fn faults(s: &S, v: &J, at: &Path, out: &mut Vec<(Path, &'static str)>) {
    let mut no = |m: &'static str| out.push((at.clone(), m));
    match (s, v) {
        (S::Any, _) | (S::Opt(_), J::Null) | (S::Empty, J::Null) | (S::Bool, J::Bool(_)) | (S::Str, J::Str(_)) => {}
        (S::Num, J::Int(_) | J::UInt(_) | J::Float(_)) => {}
        (S::Empty, J::Obj(o)) if o.is_empty() => {}
        (S::Opt(s), v) => faults(s, v, at, out),
        (S::Arr(s), J::List(l)) => {
            for (i, x) in l.iter().enumerate() {
                faults(s, x, &[at.as_slice(), &[i.to_string()]].concat(), out);
            }
        }
        (S::Obj(m), J::Obj(_)) => {
            for (k, s) in m {
                let at = [at.as_slice(), &[k.clone()]].concat();
                match (v.get(k), s) {
                    (Some(x), s) => faults(s, x, &at, out),
                    (None, S::Opt(_)) => {}
                    (None, _) => out.push((at, "expected field to be non-nullable")),
                }
            }
        }
        (S::Str, _) => no("expected string"),
        (S::Num, _) => no("expected number"),
        (S::Bool, _) => no("expected boolean"),
        (S::Empty, _) => no("expected empty"),
        (S::Arr(_), _) => no("expected array"),
        (S::Obj(_), _) => no("expected object"),
        (S::Enum(_), _) => {}
    }
}
fn paths<E>(e: &ValidationError<E>) -> Vec<Path> {
    e.as_vec().iter().map(|c| c.trace.iter().cloned().collect()).collect()
}
fn validate(s: &S, v: &J) -> bool {
    let r = s.validate(&v.gql()).to_result();
    let mut want = vec![];
    faults(s, v, &vec![], &mut want);
    check(r.is_ok() == want.is_empty(), "a value is accepted exactly when it conforms to the schema");
    if let Err(e) = &r {
        let got: Vec<(Path, &str)> = paths(e).into_iter().zip(e.as_vec().iter().map(|c| c.message)).collect();
        check(got == want, "each thing that does not conform is reported where it is");
        cover(if want.len() > 1 { "several faults" } else { "rejected" });
    } else {
        cover(match v {
            J::List(_) => "list accepted",
            J::Obj(_) => "object accepted",
            _ => "accepted",
        });
    }
    observe_bool(r.is_ok());
    r.is_ok()
}
fn go_validate(depth: u8, width: usize, mut wrong: u8) {
    let s = schema(depth, width);
    let v = value(&s, &mut wrong, width);
    validate(&s, &v);
}
pub fn h_c29_values() {
    go_validate(1, 2, 1);
}
/// (the schema, lengths of lists, things to go wrong)
fn nested(lists: usize, wrong: u8) {
    let (s, lists, wrong) = match choose(4) {
        0 => (S::Arr(Box::new(S::Arr(Box::new(leaf(choose(4)))))), 2, wrong),
        1 => (S::Arr(Box::new(object(0, 2))), lists, wrong),
        2 => (S::Obj(BTreeMap::from([("a".into(), object(0, 2)), ("b".into(), S::Opt(Box::new(S::Str)))])), 1, wrong),
        _ => (S::Obj(BTreeMap::from([("a".into(), S::Opt(Box::new(S::Arr(Box::new(schema(0, 1)))))), ("b".into(), S::Num)])), 2, wrong),
    };
    let mut wrong = wrong;
    let v = value(&s, &mut wrong, lists);
    validate(&s, &v);
}
pub fn h_c29_nested() {
    nested(1, 1);
}
pub fn h_c29_nested_deep() {
    nested(1, 2);
}
pub fn h_c29_values_deep() {
    go_validate(2, 1, 1);
}

/// where `a` is not assignable to `b`
fn clashes(a: &S, b: &S, at: &Path, out: &mut Vec<Path>) {
    match (a, b) {
        (_, S::Any) => {}
        (S::Opt(a), S::Opt(b)) => clashes(a, b, at, out),
        (a, S::Opt(b)) => clashes(a, b, at, out),
        (S::Arr(a), S::Arr(b)) => clashes(a, b, at, out),
        (S::Obj(a), S::Obj(b)) => {
            for (k, b) in b {
                match a.get(k) {
                    Some(a) => clashes(a, b, &[at.as_slice(), &[k.clone()]].concat(), out),
                    None => out.push(at.clone()),
                }
            }
        }
        (S::Enum(a), S::Enum(b)) if a == b => {}
        (S::Str, S::Str) | (S::Num, S::Num) | (S::Bool, S::Bool) | (S::Empty, S::Empty) => {}
        _ => out.push(at.clone()),
    }
}
fn assignable(a: &S, b: &S) -> bool {
    let r = a.is_a(b, "x").to_result();
    let mut want = vec![];
    clashes(a, b, &vec!["x".into()], &mut want);
    check(r.is_ok() == want.is_empty(), "a schema is assignable exactly when it promises at least as much");
    if let Err(e) = &r {
        let mut got = paths(e);
        got.sort();
        want.sort();
        check(got == want, "each part that is not assignable is reported where it is");
    }
    cover(if r.is_ok() { "assignable" } else { "not assignable" });
    observe_bool(r.is_ok());
    r.is_ok()
}
/// members which a value may lack in one schema, but not in the other although they may be anything
fn lax(a: &S, b: &S) -> bool {
    match (a, b) {
        (S::Obj(a), S::Obj(b)) => b.iter().any(|(k, b)| a.get(k).is_some_and(|a| matches!(a, S::Opt(_)) && matches!(b, S::Any) || lax(a, b))),
        (S::Arr(a), S::Arr(b)) => lax(a, b),
        (S::Opt(a), S::Opt(b)) => lax(a, b),
        (a, S::Opt(b)) => lax(a, b),
        _ => false,
    }
}
fn go_assign(a: S, b: S) {
    check(a.is_a(&a, "x").is_succeed(), "a schema is assignable to itself");
    if assignable(&a, &b) && !lax(&a, &b) {
        let mut wrong = 1;
        let v = value(&a, &mut wrong, 1).gql();
        if a.validate(&v).is_succeed() {
            check(b.validate(&v).is_succeed(), "what conforms to a schema conforms to those it is assignable to");
            cover("conforms to both");
        }
    }
}
pub fn h_c29_assign() {
    go_assign(schema(1, 1), schema(1, 1));
}
pub fn h_c29_assign_objects() {
    go_assign(object(0, 2), object(0, 2));
}
pub fn h_c29_assign_nested() {
    let wrap = |s: S| match choose(5) {
        0 => S::Arr(Box::new(S::Opt(Box::new(s)))),
        1 => S::Arr(Box::new(S::Arr(Box::new(s)))),
        2 => S::Obj(BTreeMap::from([("a".into(), S::Opt(Box::new(S::Arr(Box::new(s)))))])),
        3 => S::Obj(BTreeMap::from([("a".into(), S::Obj(BTreeMap::from([("b".into(), s)])))])),
        _ => S::Opt(Box::new(S::Arr(Box::new(s)))),
    };
    let e = |k: u8| S::Enum(["A", "B"].iter().enumerate().filter(|(i, _)| k & (1 << i) != 0).map(|x| x.1.to_string()).collect::<BTreeSet<_>>());
    let leaf = || match choose(6) {
        5 => e(choose(4)),
        k => leaf(k),
    };
    let (a, b) = (wrap(leaf()), wrap(leaf()));
    go_assign(a, b);
}
pub fn h_c29_assign_deep() {
    go_assign(schema(1, 2), schema(1, 2));
}
/// what the names of the types of the configuration stand for
pub fn h_c29_names() {
    let n = match choose(7) {
        0 => "String",
        1 => "Int",
        2 => "Boolean",
        3 => "Empty",
        4 => "JSON",
        5 => "Float",
        _ => "Foo",
    };
    let s = S::from_scalar_type(n);
    let mut wrong = 1;
    let v = value(&s, &mut wrong, 1);
    let ok = match n {
        "String" => matches!(v, J::Str(_)),
        "Int" => matches!(v, J::Int(_) | J::UInt(_) | J::Float(_)),
        "Boolean" => matches!(v, J::Bool(_)),
        "Empty" => matches!(&v, J::Null) || matches!(&v, J::Obj(o) if o.is_empty()),
        _ => true,
    };
    check(s.validate(&v.gql()).is_succeed() == ok, "a built-in scalar has its own schema");
    check(s.is_required() && !s.is_optional() && s.clone().optional().is_optional() && !s.optional().is_required(), "optional or required");
    cover("scalar");
}
/// the schema of a gRPC message
pub fn h_c29_messages() {
    use prost_reflect::prost_types::{field_descriptor_proto::{Label, Type}, DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
    let kinds = [
        (Type::Double, S::Num), (Type::Float, S::Num), (Type::Int64, S::Num), (Type::Uint64, S::Num), (Type::Int32, S::Num),
        (Type::Fixed64, S::Num), (Type::Fixed32, S::Num), (Type::Bool, S::Bool), (Type::String, S::Str), (Type::Bytes, S::Str),
        (Type::Uint32, S::Num), (Type::Sfixed32, S::Num), (Type::Sfixed64, S::Num), (Type::Sint32, S::Num), (Type::Sint64, S::Num),
        (Type::Enum, S::Enum(BTreeSet::from(["X".to_string(), "Y".to_string()]))),
        (Type::Message, S::Obj(BTreeMap::from([("b".to_string(), S::Opt(Box::new(S::Bool)))]))),
        (Type::Message, S::Empty),
    ];
    let k = choose(kinds.len() as u8) as usize;
    let (ty, base) = kinds[k].clone();
    let label = [Label::Optional, Label::Repeated, Label::Required][choose(3) as usize];
    let names = [("a", "a"), ("foo_bar", "fooBar"), ("fooBar", "fooBar")];
    let (name, shown) = names[choose(3) as usize];
    let field = |n: &str, number: i32, l: Label, t: Type, tn: Option<&str>| FieldDescriptorProto {
        name: Some(n.into()), number: Some(number), label: Some(l as i32), r#type: Some(t as i32), type_name: tn.map(|x| x.into()), ..Default::default()
    };
    let tn = match ty {
        Type::Enum => Some(".p.E"),
        Type::Message if base == S::Empty => Some(".p.N"),
        Type::Message => Some(".p.B"),
        _ => None,
    };
    let second = choose_bool();
    let mut fields = vec![field(name, 1, label, ty, tn)];
    if second {
        fields.push(field("z", 2, Label::Required, Type::Bool, None));
    }
    let message = |n: &str, f: Vec<FieldDescriptorProto>| DescriptorProto { name: Some(n.into()), field: f, ..Default::default() };
    let value = |n: &str, k: i32| EnumValueDescriptorProto { name: Some(n.into()), number: Some(k), ..Default::default() };
    let file = FileDescriptorProto {
        name: Some("p.proto".into()),
        package: Some("p".into()),
        syntax: Some("proto2".into()),
        message_type: vec![message("M", fields), message("B", vec![field("b", 1, Label::Optional, Type::Bool, None)]), message("N", vec![])],
        enum_type: vec![EnumDescriptorProto { name: Some("E".into()), value: vec![value("X", 0), value("Y", 1)], ..Default::default() }],
        ..Default::default()
    };
    let pool = prost_reflect::DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: vec![file] });
    check(pool.is_ok(), "the descriptors are valid");
    let Ok(pool) = pool else { return };
    let got = S::try_from(&pool.get_message_by_name("p.M").unwrap());
    let f = match label {
        Label::Optional => S::Opt(Box::new(base)),
        Label::Repeated => S::Opt(Box::new(S::Arr(Box::new(base)))),
        Label::Required => base,
    };
    let mut want = BTreeMap::from([(shown.to_string(), f)]);
    if second {
        want.insert("z".into(), S::Bool);
    }
    check(got == Ok(S::Obj(want)), "the schema of a message has its fields with their types");
    cover("message");
    observe_bool(second);
}
crate::harnesses!(h_c29_values, h_c29_nested, h_c29_nested_deep, h_c29_values_deep, h_c29_assign, h_c29_assign_objects, h_c29_assign_nested, h_c29_assign_deep, h_c29_names, h_c29_messages);
