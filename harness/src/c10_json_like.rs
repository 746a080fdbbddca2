//! C10: every JSON representation says the same about a document
use crate::rt::*;
use crate::util::*;
use async_graphql_value::Value as QValue;
use serde_json_borrow::Value as BValue;
use std::borrow::Cow;
use tailcall::core::json::{JsonLike, JsonLikeList, JsonObjectLike};

type Same<V> = fn(&J, &V) -> bool;

/// what the accessors say about one node
fn node<'a, V: JsonLike<'a>>(j: &J, v: &'a V, same: Same<V>) -> bool
where
    V::JsonObject: JsonObjectLike<'a, Value = V>,
{
    let mut ok = v.is_null() == matches!(j, J::Null);
    ok &= v.as_bool() == if let J::Bool(b) = j { Some(*b) } else { None };
    ok &= match (j, v.as_str()) {
        (J::Str(s), Some(t)) => s.as_bytes() == t.as_bytes(),
        (J::Str(_), None) => false,
        (_, t) => t.is_none(),
    };
    ok &= v.as_i64()
        == match j {
            J::Int(i) => Some(*i),
            J::UInt(u) => i64::try_from(*u).ok(),
            _ => None,
        };
    ok &= v.as_u64()
        == match j {
            J::Int(i) => u64::try_from(*i).ok(),
            J::UInt(u) => Some(*u),
            _ => None,
        };
    ok &= v.as_f64()
        == match j {
            J::Int(i) => Some(*i as f64),
            J::UInt(u) => Some(*u as f64),
            J::Float(f) => Some(*f),
            _ => None,
        };
    ok &= match (j, v.as_array()) {
        (J::List(l), Some(a)) => l.len() == a.len() && l.iter().zip(a).all(|(x, y)| same(x, y)),
        (J::List(_), None) => false,
        (_, a) => a.is_none(),
    };
    ok &= match (j, v.as_object()) {
        (J::Obj(l), Some(o)) => {
            let mut same_items = l.len() == o.len() && o.is_empty() == l.is_empty();
            let mut n = 0;
            for (k, w) in o.iter() {
                same_items &= n < l.len() && l[n].0 == k && same(&l[n].1, w);
                n += 1;
            }
            same_items && n == l.len()
        }
        (J::Obj(_), None) => false,
        (_, o) => o.is_none(),
    };
    ok &= v.as_primitive().is_some() == !matches!(j, J::List(_) | J::Obj(_));
    ok
}
fn lookups<'a, V: JsonLike<'a>>(j: &J, v: &'a V, same: Same<V>, path: &[&str]) -> bool
where
    V::JsonObject: JsonObjectLike<'a, Value = V>,
{
    let want = at(j, path);
    let got = v.get_path(path);
    let mut ok = match (want, got) {
        (Some(a), Some(b)) => same(a, b),
        (a, b) => a.is_none() && b.is_none(),
    };
    for k in ["a", "b", "0", "x"] {
        let want = j.get(k);
        let got = v.get_key(k);
        ok &= match (want, got) {
            (Some(a), Some(b)) => same(a, b),
            (a, b) => a.is_none() && b.is_none(),
        };
        if let Some(o) = v.as_object() {
            ok &= match (want, o.get_key(k)) {
                (Some(a), Some(b)) => same(a, b),
                (a, b) => a.is_none() && b.is_none(),
            };
        }
    }
    ok
}
fn at<'a>(j: &'a J, path: &[&str]) -> Option<&'a J> {
    let mut v = j;
    for p in path {
        v = match v {
            J::Obj(_) => v.get(p)?,
            J::List(l) => l.get(dec(p.strip_prefix('+').unwrap_or(p))?)?,
            _ => return None,
        };
    }
    Some(v)
}
fn each<'a>(j: &'a J, out: &mut Vec<&'a J>) {
    match j {
        J::List(l) => l.iter().for_each(|x| each(x, out)),
        _ => out.push(j),
    }
}
/// list mapping: every non-list element, in order, shape kept
fn lists<'a, V: JsonLike<'a> + Clone>(j: &J, v: &'a V, same: Same<V>) -> bool {
    let mut leaves = vec![];
    each(j, &mut leaves);
    let mut seen: Vec<&V> = vec![];
    v.for_each(&mut |x| seen.push(x));
    let mut ok = seen.len() == leaves.len() && seen.iter().zip(&leaves).all(|(x, y)| same(y, x));
    let mut n = 0u64;
    let marked: Result<V, ()> = v.map_ref(&mut |x| {
        let mut m = V::array(vec![]);
        if let Some(a) = m.as_array_mut() {
            a.push(V::string(Cow::Owned(n.to_string())));
        }
        ok &= n < leaves.len() as u64 && same(leaves[n as usize], x);
        n += 1;
        Ok(m)
    });
    let mut k = 0i64;
    ok &= match &marked {
        Ok(m) => same(&mark(j, &mut k), m),
        Err(_) => false,
    };
    let mut n = 0;
    let owned: Result<V, ()> = v.clone().map(&mut |x| {
        ok &= n < leaves.len() && same(leaves[n], &x);
        n += 1;
        Ok(x)
    });
    ok &= matches!(&owned, Ok(o) if same(j, o));
    // an error of any element is the result
    let mut n = 0;
    let failing = leaves.len() / 2;
    let r: Result<V, usize> = v.map_ref(&mut |x| {
        n += 1;
        if n == failing + 1 {
            Err(failing)
        } else {
            Ok(x.clone())
        }
    });
    ok &= if leaves.is_empty() { matches!(&r, Ok(o) if same(j, o)) } else { matches!(r, Err(e) if e == failing) };
    ok
}
fn mark(j: &J, n: &mut i64) -> J {
    match j {
        J::List(l) => J::List(l.iter().map(|x| mark(x, n)).collect()),
        _ => {
            *n += 1;
            J::List(vec![J::Str((*n - 1).to_string())])
        }
    }
}
fn own<'a, V: JsonLike<'a> + Clone>(j: &J, v: &'a V, same: Same<V>) -> bool
where
    V::JsonObject: JsonObjectLike<'a, Value = V>,
{
    let arr = match (j, v.clone().into_array()) {
        (J::List(l), Some(a)) => l.len() == a.len() && same(j, &V::array(a)),
        (J::List(_), None) => false,
        (_, a) => a.is_none(),
    };
    let obj = match (j, v.clone().into_object()) {
        (J::Obj(_), Some(o)) => same(j, &V::object(o)),
        (J::Obj(_), None) => false,
        (_, o) => o.is_none(),
    };
    let mut c = v.clone();
    let m = c.as_array_mut().is_some() == matches!(j, J::List(_)) && c.as_object_mut().is_some() == matches!(j, J::Obj(_));
    let prim = match v.as_primitive() {
        Some(p) => match p {
            tailcall::core::json::JsonPrimitive::Null => matches!(j, J::Null),
            tailcall::core::json::JsonPrimitive::Bool(x) => matches!(j, J::Bool(y) if x == *y),
            tailcall::core::json::JsonPrimitive::Str(x) => matches!(j, J::Str(y) if x.as_bytes() == y.as_bytes()),
            tailcall::core::json::JsonPrimitive::Number(x) => match j {
                J::Int(i) => x.as_i64() == Some(*i),
                J::UInt(i) => x.as_u64() == Some(*i),
                J::Float(f) => x.as_f64() == Some(*f),
                _ => false,
            },
        },
        None => true,
    };
    arr && obj && m && prim
}
/// a mutated copy: one more element / member
fn mutate<'a, V: JsonLike<'a> + Clone>(j: &J, v: &'a V, same: Same<V>) -> bool
where
    V::JsonObject: JsonObjectLike<'a, Value = V>,
{
    let mut c = v.clone();
    let mut want = j.clone();
    match &mut want {
        J::List(l) => {
            l.push(J::Null);
            match c.as_array_mut() {
                Some(a) => a.push(V::null()),
                None => return false,
            }
        }
        J::Obj(o) => {
            o.push(("new".into(), J::Str("s".into())));
            match c.as_object_mut() {
                Some(m) => m.insert_key("new", V::string(Cow::Borrowed("s"))),
                None => return false,
            }
        }
        _ => {}
    }
    same(&want, &c)
}
fn reps(j: &J, mut f: impl FnMut(u8, bool), path: &[&str]) {
    let s = j.serde();
    let g = j.gql();
    let q = j.qval();
    let b = j.borrow();
    f(0, node(j, &s, same_serde as Same<SV>) && node(j, &g, same_gql as Same<GV>) && node(j, &q, same_qval as Same<QValue>) && node(j, &b, same_borrow_l));
    f(1, lookups(j, &s, same_serde, path) && lookups(j, &g, same_gql, path) && lookups(j, &q, same_qval, path) && lookups(j, &b, same_borrow_l, path));
    f(2, lists(j, &s, same_serde) && lists(j, &g, same_gql) && lists(j, &q, same_qval) && lists(j, &b, same_borrow_l));
    f(3, own(j, &s, same_serde) && own(j, &g, same_gql) && own(j, &q, same_qval) && own(j, &b, same_borrow_l));
    f(5, mutate(j, &s, same_serde) && mutate(j, &g, same_gql) && mutate(j, &q, same_qval) && mutate(j, &b, same_borrow_l));
    let ok = same_serde(j, &<SV as JsonLike>::clone_from(&g))
        && same_serde(j, &<SV as JsonLike>::clone_from(&q))
        && same_serde(j, &<SV as JsonLike>::clone_from(&b))
        && same_serde(j, &<SV as JsonLike>::clone_from(&s))
        && same_gql(j, &<GV as JsonLike>::clone_from(&s))
        && same_gql(j, &<GV as JsonLike>::clone_from(&g))
        && same_gql(j, &<GV as JsonLike>::clone_from(&q))
        && same_gql(j, &<GV as JsonLike>::clone_from(&b))
        && same_qval(j, &<QValue as JsonLike>::clone_from(&s))
        && same_qval(j, &<QValue as JsonLike>::clone_from(&b))
        && same_borrow(j, &<BValue as JsonLike>::clone_from(&s))
        && same_borrow(j, &<BValue as JsonLike>::clone_from(&g))
        && same_borrow(j, &<BValue as JsonLike>::clone_from(&b));
    f(4, ok);
}
fn same_borrow_l<'a>(j: &J, v: &BValue<'a>) -> bool {
    same_borrow(j, v)
}
const IDS: [&str; 6] = ["kind and scalar accessors", "path and key lookup", "mapping over lists", "owned access", "conversion between representations", "changes through mutable access"];
fn go(j: &J, path: &[&str]) {
    reps(j, |i, ok| check(ok, IDS[i as usize]), path);
    match j {
        J::List(l) if !l.is_empty() => cover("list"),
        J::Obj(l) if !l.is_empty() => cover("object"),
        _ => {}
    }
    if !path.is_empty() && at(j, path).is_some() {
        cover("path found");
    }
}
/// one scalar with symbolic content
pub fn h_c10_scalar() {
    let j = match choose(8) {
        0 => J::Null,
        1 => J::Bool(any_bool()),
        2 => J::Int(INTS[choose(INTS.len() as u8) as usize]),
        3 => J::UInt([u64::MAX, 1 << 63, 7][choose(3) as usize]),
        4 => J::Float([0.5, -1e300, 9007199254740992.0, 1e19, -0.0][choose(5) as usize]),
        5 => J::Str(ascii(choose(7) as usize)),
        6 => J::Str("é\u{1F600}".into()),
        _ => J::Str(["", "null", "true", "12", "-0.5"][choose(5) as usize].into()),
    };
    go(&j, &[]);
    go(&j, &["a"]);
}
/// symbolic integers through the integer accessors and conversions
pub fn h_c10_int() {
    let i = any_i64();
    let u = any_u64();
    for j in [J::Int(i), J::UInt(u)] {
        let s = j.serde();
        let g = j.gql();
        let b = j.borrow();
        let wi = match j {
            J::Int(i) => Some(i),
            _ => i64::try_from(u).ok(),
        };
        let wu = match j {
            J::Int(i) => u64::try_from(i).ok(),
            _ => Some(u),
        };
        check(JsonLike::as_i64(&s) == wi && JsonLike::as_i64(&g) == wi && JsonLike::as_i64(&b) == wi, "signed integers");
        check(JsonLike::as_u64(&s) == wu && JsonLike::as_u64(&g) == wu && JsonLike::as_u64(&b) == wu, "unsigned integers");
        let c = [<SV as JsonLike>::clone_from(&b), <SV as JsonLike>::clone_from(&g)];
        check(c.iter().all(|x| x.as_i64() == wi && x.as_u64() == wu), "converted integers");
        let d = <BValue as JsonLike>::clone_from(&s);
        check(JsonLike::as_i64(&d) == wi && JsonLike::as_u64(&d) == wu, "converted integers");
    }
}
const TOK: &[&str] = &["a", "b", "0", "1", "01", "+1", "-1", "", "x"];
fn tree(depth: u8, width: u8, plen: u8) {
    let j = any_json_small(depth, width);
    let n = choose(plen + 1);
    let path: Vec<&str> = (0..n).map(|_| TOK[choose(TOK.len() as u8) as usize]).collect();
    go(&j, &path);
}
fn any_json_small(depth: u8, width: u8) -> J {
    let k = choose(if depth == 0 { 3 } else { 5 });
    match k {
        0 => J::Null,
        1 => J::Int(7),
        2 => J::Str(ascii(1)),
        3 => J::List((0..choose(width + 1)).map(|_| any_json_small(depth - 1, width)).collect()),
        _ => {
            let mut o = vec![];
            for k in ["b", "0", "a"].iter().take(width as usize) {
                if choose_bool() {
                    o.push((k.to_string(), any_json_small(depth - 1, width)));
                }
            }
            J::Obj(o)
        }
    }
}
pub fn h_c10_tree() {
    tree(2, 2, 1)
}
pub fn h_c10_path() {
    tree(1, 2, 2)
}
pub fn h_c10_tree_deep() {
    tree(2, 3, 3)
}
/// path tokens of arbitrary characters against lists
pub fn h_c10_index() {
    let l = J::List(vec![J::Int(5), J::Str("s".into()), J::List(vec![J::Null, J::Bool(true)])]);
    let t = ascii(choose(3) as usize + 1);
    let u = ascii(choose(2) as usize);
    let p: Vec<&str> = if choose_bool() { vec![&t] } else { vec!["2", &u] };
    let want = at(&l, &p);
    let s = l.serde();
    let g = l.gql();
    let b = l.borrow();
    let q = l.qval();
    let ok = match want {
        None => s.get_path(&p).is_none() && g.get_path(&p).is_none() && b.get_path(&p).is_none() && q.get_path(&p).is_none(),
        Some(w) => {
            cover("path found");
            matches!(s.get_path(&p), Some(x) if same_serde(w, x)) && matches!(g.get_path(&p), Some(x) if same_gql(w, x)) && matches!(b.get_path(&p), Some(x) if same_borrow(w, x)) && matches!(q.get_path(&p), Some(x) if same_qval(w, x))
        }
    };
    check(ok, "list index");
}
crate::harnesses!(h_c10_scalar, h_c10_int, h_c10_tree, h_c10_path, h_c10_tree_deep, h_c10_index);
