//! C08: grouping a batched response by a key path
use crate::rt::*;
use crate::util::*;
use std::collections::HashMap;
use tailcall::core::json::{gather_path_matches, JsonLike};

/// (key, item) pairs in document order
fn walk<'a>(root: &'a J, path: &[String], out: &mut Vec<(&'a J, &'a J)>) {
    match root {
        J::List(l) => {
            for x in l {
                walk(x, path, out);
            }
        }
        J::Obj(_) if !path.is_empty() => {
            if let Some(v) = root.get(&path[0]) {
                if path.len() == 1 {
                    out.push((v, root));
                } else {
                    walk(v, &path[1..], out);
                }
            }
        }
        _ => {}
    }
}
fn key_text(k: &J) -> Option<String> {
    match k {
        J::Str(s) => Some(s.clone()),
        J::Int(i) => Some(i.to_string()),
        J::UInt(i) => Some(i.to_string()),
        _ => None,
    }
}
fn groups<'a>(root: &'a J, path: &[String]) -> Vec<(String, Vec<&'a J>)> {
    let mut all = vec![];
    walk(root, path, &mut all);
    let mut out: Vec<(String, Vec<&J>)> = vec![];
    for (k, v) in all {
        if let Some(k) = key_text(k) {
            match out.iter().position(|x| x.0 == k) {
                Some(i) => out[i].1.push(v),
                None => out.push((k, vec![v])),
            }
        }
    }
    out
}
fn agree<V>(want: &[(String, Vec<&J>)], got: &HashMap<String, Vec<&V>>, same: impl Fn(&J, &V) -> bool) -> bool {
    if want.len() != got.len() {
        return false;
    }
    want.iter().all(|(k, items)| match got.get(k) {
        Some(g) => g.len() == items.len() && g.iter().zip(items).all(|(a, b)| same(b, a)),
        None => false,
    })
}
fn go(doc: J, path: Vec<String>) {
    let want = groups(&doc, &path);
    let s = doc.serde();
    check(agree(&want, &s.group_by(&path), |a, b| same_serde(a, b)), "serde_json grouping");
    let g = doc.gql();
    check(agree(&want, &g.group_by(&path), |a, b| same_gql(a, b)), "GraphQL value grouping");
    let q = doc.qval();
    check(agree(&want, &q.group_by(&path), |a, b| same_qval(a, b)), "GraphQL variable value grouping");
    let b = doc.borrow();
    check(agree(&want, &b.group_by(&path), |a, b| same_borrow(a, b)), "borrowed JSON grouping");
    let m = gather_path_matches(&s, &path, vec![]);
    let mut all = vec![];
    walk(&doc, &path, &mut all);
    check(m.len() == all.len() && m.iter().zip(&all).all(|(x, y)| same_serde(y.0, x.0) && same_serde(y.1, x.1)), "gathered pairs");
    observe_u64(want.len() as u64);
    for (k, v) in &want {
        observe(k.as_bytes());
        observe_u64(v.len() as u64);
    }
    if want.len() > 1 {
        cover("two groups");
    }
    if want.iter().any(|x| x.1.len() > 1) {
        cover("two items in a group");
    }
}
fn key_value() -> J {
    match choose(7) {
        0 => J::Str(conc_string_of(b"1a", 1)),
        1 => J::Int(1),
        2 => J::Int([9007199254740992, 9007199254740993, -9007199254740993][choose(3) as usize]),
        3 => J::UInt(u64::MAX - choose(2) as u64),
        4 => J::Null,
        5 => J::Bool(any_bool()),
        _ => J::List(vec![J::Int(1)]),
    }
}
fn item() -> J {
    match choose(4) {
        0 => J::Null,
        1 => J::Obj(vec![("v".into(), J::Str(ascii(1)))]),
        _ => J::Obj(vec![("v".into(), J::Str(ascii(1))), ("id".into(), key_value())]),
    }
}
/// a list of items, key at path [id]
pub fn h_c08_flat() {
    let n = choose(3);
    let doc = J::List((0..n).map(|_| item()).collect());
    go(doc, vec!["id".into()])
}
pub fn h_c08_flat_deep() {
    let doc = J::List((0..3).map(|_| item()).collect());
    go(doc, vec!["id".into()])
}
fn small_key() -> J {
    match choose(4) {
        0 => J::Str("1".into()),
        1 => J::Int(1),
        2 => J::Str(conc_string_of(b"2x", 1)),
        _ => J::Null,
    }
}
fn leaf() -> J {
    if choose_bool() {
        J::Obj(vec![("id".into(), small_key()), ("v".into(), J::Str(ascii(1)))])
    } else {
        J::Obj(vec![("v".into(), J::Bool(any_bool()))])
    }
}
fn nest(d: u8, w: u8) -> J {
    if d == 0 {
        return leaf();
    }
    match choose(5) {
        0 => leaf(),
        4 => small_key(),
        1 => J::List((0..choose(w + 1)).map(|_| nest(d - 1, w)).collect()),
        2 => J::Obj(vec![("user".into(), nest(d - 1, w))]),
        _ => J::Obj(vec![("id".into(), small_key()), ("user".into(), nest(d - 1, w))]),
    }
}
/// nested documents, paths of every length up to three
fn nested(d: u8, w: u8) {
    let p: &[&[&str]] = &[&[], &["id"], &["user", "id"], &["user", "user", "id"]];
    let path: Vec<String> = p[choose(4) as usize].iter().map(|x| x.to_string()).collect();
    go(nest(d, w), path)
}
pub fn h_c08_nested() {
    nested(2, 2)
}
pub fn h_c08_nested_deep() {
    nested(3, 1)
}
crate::harnesses!(h_c08_flat, h_c08_flat_deep, h_c08_nested, h_c08_nested_deep);
