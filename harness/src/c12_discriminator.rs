//! C12: the type of a polymorphic value
use crate::rt::*;
use crate::util::*;
use std::collections::BTreeSet;
use tailcall::core::ir::Discriminator;
use tailcall_valid::Validator;

const TN: &str = "__typename";
fn types(k: u8) -> Vec<&'static str> {
    ["Bar", "Foo", "F"].into_iter().enumerate().filter(|(i, _)| k & (1 << i) != 0).map(|x| x.1).collect()
}
/// a (type) name: possible or not
fn name() -> String {
    match choose(4) {
        0 => "Foo".into(),
        1 => "Bar".into(),
        2 => string_of(b"FBx", 1),
        _ => "".into(),
    }
}
fn put(o: &[(String, J)], t: &str) -> J {
    let mut o = o.to_vec();
    match o.iter().position(|x| x.0 == TN) {
        Some(i) => o[i].1 = J::Str(t.to_string()),
        None => o.push((TN.into(), J::Str(t.to_string()))),
    }
    J::Obj(o)
}
/// None: rejected
fn want(v: &J, types: &[&str], field: Option<&str>) -> Option<J> {
    if let Some(J::Str(_)) = v.get(TN) {
        return Some(v.clone());
    }
    match v {
        J::Null => Some(J::Null),
        J::List(l) => l.iter().map(|x| want(x, types, field)).collect::<Option<Vec<_>>>().map(J::List),
        J::Obj(o) => match field {
            Some(f) => match v.get(f) {
                Some(J::Str(t)) if types.contains(&t.as_str()) => Some(put(o, t)),
                _ => None,
            },
            None => {
                if o.len() != 1 || !types.contains(&o[0].0.as_str()) {
                    return None;
                }
                match &o[0].1 {
                    J::Null => Some(J::Null),
                    J::Obj(i) => Some(put(i, &o[0].0)),
                    _ => None,
                }
            }
        },
        _ => None,
    }
}
fn go(v: J, ts: &[&str], field: Option<&str>) {
    let set: BTreeSet<String> = ts.iter().map(|x| x.to_string()).collect();
    let d = Discriminator::new("U".into(), set, field.map(|x| x.to_string())).to_result().ok();
    check(d.is_some(), "the discriminator is valid");
    if let Some(d) = d {
        let r = d.resolve_type(v.gql());
        let w = want(&v, ts, field);
        check(r.is_ok() == w.is_some(), "resolved exactly when the value selects a possible type");
        if let (Ok(r), Some(w)) = (&r, &w) {
            check(same_gql(w, r), "the value gets the selected type and is otherwise unchanged");
            cover(match v {
                J::List(_) => "list resolved",
                J::Null => "null stays",
                _ => "object resolved",
            });
        } else {
            cover("rejected");
        }
        observe_bool(r.is_ok());
    }
}
fn scalar() -> J {
    match choose(3) {
        0 => J::Null,
        1 => J::Int(any_i64()),
        _ => J::Str(name()),
    }
}
fn object(field: &str) -> J {
    let mut o = vec![];
    if field != "a" && choose_bool() {
        o.push(("a".to_string(), J::Str(ascii(1))));
    }
    if choose_bool() {
        o.push((field.to_string(), scalar()));
    }
    if field != TN && choose_bool() {
        o.push((TN.to_string(), scalar()));
    }
    J::Obj(o)
}
/// by the name in a field
pub fn h_c12_field() {
    let field = ["type", "a", TN][choose(3) as usize];
    let ts = types(choose(8));
    let v = match choose(3) {
        0 => object(field),
        1 => J::List((0..choose(3)).map(|_| J::Obj(if choose_bool() { vec![(field.to_string(), J::Str(name()))] } else { vec![] })).collect()),
        _ => J::List(vec![J::Null, J::List(vec![J::Obj(vec![(field.to_string(), J::Str(name()))])])]),
    };
    go(v, &ts, Some(field))
}
fn keyed_object() -> J {
    let mut o = vec![];
    for k in ["Foo", "Bar", "x"] {
        if choose_bool() {
            o.push((
                k.to_string(),
                match choose(3) {
                    0 => J::Null,
                    1 => J::Int(1),
                    _ => J::Obj(vec![("v".into(), J::Str(ascii(1)))]),
                },
            ));
        }
    }
    J::Obj(o)
}
/// by the only key
pub fn h_c12_keyed() {
    let ts = types(choose(8));
    let v = match choose(4) {
        0 => keyed_object(),
        1 => J::Obj(vec![(["Foo", "x", TN][choose(3) as usize].into(), object("type"))]),
        2 => J::Obj(vec![(["Foo", "x"][choose(2) as usize].into(), J::List(vec![J::Obj(vec![])]))]),
        _ => J::List((0..choose(3)).map(|_| if choose_bool() { J::Obj(vec![(["Foo", "Bar"][choose(2) as usize].into(), J::Obj(vec![]))]) } else { scalar() }).collect()),
    };
    go(v, &ts, None)
}
/// values that are no objects, and the empty field name
pub fn h_c12_other() {
    let ts = types(choose(8));
    let field = [None, Some("type")][choose(2) as usize];
    let v = match choose(5) {
        0 => J::Bool(any_bool()),
        1 => scalar(),
        2 => J::Float(0.5),
        3 => J::List(vec![scalar()]),
        _ => J::List(vec![]),
    };
    go(v, &ts, field);
    check(Discriminator::new("U".into(), BTreeSet::new(), Some("".into())).to_result().is_err(), "an empty field name is rejected");
}
crate::harnesses!(h_c12_field, h_c12_keyed, h_c12_other);
