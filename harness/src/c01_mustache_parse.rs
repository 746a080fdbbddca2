//! C01: splitting a template into literals and expressions
use crate::rt::*;
use tailcall::core::mustache::{Mustache, Segment};

#[derive(PartialEq)]
pub enum Seg {
    Lit(Vec<u8>),
    Exp(Vec<Vec<u8>>),
}
fn alpha(b: u8) -> bool {
    b.is_ascii_alphabetic()
}
fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}
fn space(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\r' || b == b'\n'
}
/// "{{" at i: the names and the end, if what follows is an expression
fn expr(t: &[u8], i: usize) -> Option<(Vec<Vec<u8>>, usize)> {
    let mut j = i + 2;
    if j < t.len() && t[j] == b'.' {
        j += 1;
    }
    let mut parts = vec![];
    loop {
        while j < t.len() && space(t[j]) {
            j += 1;
        }
        let s = j;
        if j >= t.len() || !alpha(t[j]) {
            return None;
        }
        while j < t.len() && word(t[j]) {
            j += 1;
        }
        parts.push(t[s..j].to_vec());
        while j < t.len() && space(t[j]) {
            j += 1;
        }
        if j < t.len() && t[j] == b'.' {
            j += 1;
            continue;
        }
        break;
    }
    if j + 1 < t.len() && t[j] == b'}' && t[j + 1] == b'}' {
        Some((parts, j + 2))
    } else {
        None
    }
}
/// what the property says parsing does (text that has a `{{` which starts no
/// expression is one literal; a literal that is a lone quote is dropped)
pub fn oracle(t: &[u8]) -> Vec<Seg> {
    let mut out = vec![];
    let mut i = 0;
    let mut whole = false;
    while i < t.len() {
        if i + 1 < t.len() && t[i] == b'{' && t[i + 1] == b'{' {
            match expr(t, i) {
                None => {
                    whole = true;
                    break;
                }
                Some((p, e)) => {
                    out.push(Seg::Exp(p));
                    i = e;
                }
            }
        } else {
            let s = i;
            while i < t.len() && !(i + 1 < t.len() && t[i] == b'{' && t[i + 1] == b'{') {
                i += 1;
            }
            out.push(Seg::Lit(t[s..i].to_vec()));
        }
    }
    if whole {
        out = vec![Seg::Lit(t.to_vec())];
    }
    out.retain(|s| match s {
        Seg::Lit(l) => l != b"\"",
        _ => true,
    });
    out
}
fn same(a: &[Segment], b: &[Seg]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok &= match (x, y) {
            (Segment::Literal(x), Seg::Lit(y)) => x.as_bytes() == &y[..],
            (Segment::Expression(x), Seg::Exp(y)) => {
                x.len() == y.len() && {
                    let mut o = true;
                    for (p, q) in x.iter().zip(y) {
                        o &= p.as_bytes() == &q[..];
                    }
                    o
                }
            }
            _ => false,
        };
    }
    ok
}
fn go(s: String) {
    let m = Mustache::parse(&s);
    let want = oracle(s.as_bytes());
    check(same(m.segments(), &want), "segments differ from the template text");
    let nexp = want.iter().filter(|x| matches!(x, Seg::Exp(_))).count();
    check(m.is_const() == (nexp == 0), "constant exactly when there is no expression");
    check(m.expression_segments().len() == nexp, "expression_segments lists every expression");
    let printed = m.to_string();
    let again = Mustache::parse(&printed);
    check(again == m, "parsing the printed template gives it back");
    if nexp == 0 {
        cover("literal");
    }
    if nexp > 1 {
        cover("several expressions");
    }
    if nexp > 0 && want.len() > nexp {
        cover("mixed");
    }
    observe(printed.as_bytes());
    observe_u64(want.len() as u64);
}
fn any_ascii(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| byte_in(0, 0x7f)).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn h_c01_ascii() {
    let n = choose(9) as usize;
    go(any_ascii(n))
}
pub fn h_c01_ascii_deep() {
    let n = 9 + choose(5) as usize;
    go(any_ascii(n))
}
/// one two-byte character anywhere
pub fn h_c01_unicode() {
    let n = choose(7) as usize;
    let k = choose(n as u8 + 1) as usize;
    let mut v: Vec<u8> = (0..n).map(|_| byte_in(0, 0x7f)).collect();
    let (h, l) = (byte_in(0xc2, 0xdf), byte_in(0x80, 0xbf));
    v.insert(k, l);
    v.insert(k, h);
    go(unsafe { String::from_utf8_unchecked(v) })
}
fn put(v: &mut Vec<u8>, n: usize, f: impl Fn() -> u8) {
    for _ in 0..n {
        v.push(f());
    }
}
fn shaped(lits: u8, names: u8) {
    // lit {{.name.name}} lit {{name}} lit, every character free in its class
    let mut v = vec![];
    put(&mut v, choose(lits) as usize, || byte_in(0, 0x7f));
    v.extend(b"{{");
    put(&mut v, choose(2) as usize, || byte_of(b". \t"));
    put(&mut v, 1 + choose(names) as usize, || byte_in(0x20, 0x7e));
    v.push(b'.');
    put(&mut v, 1 + choose(names) as usize, || byte_in(0x20, 0x7e));
    v.extend(b"}}");
    put(&mut v, choose(lits) as usize, || byte_in(0, 0x7f));
    v.extend(b"{{");
    put(&mut v, 1 + choose(names) as usize, || byte_in(0x20, 0x7e));
    v.extend(b"}}");
    put(&mut v, choose(lits) as usize, || byte_in(0, 0x7f));
    go(unsafe { String::from_utf8_unchecked(v) })
}
pub fn h_c01_two_expr() {
    shaped(2, 2)
}
pub fn h_c01_two_expr_deep() {
    shaped(3, 3)
}
/// the predicates on a template built from its segments
pub fn h_c01_contains() {
    let a = ascii(2);
    let b = ascii(1);
    let q = ascii(1 + choose(2) as usize);
    let lit = ascii(2);
    let m = Mustache::from(vec![Segment::Expression(vec![b.clone()]), Segment::Literal(lit), Segment::Expression(vec![b.clone(), a.clone()])]);
    let want = if q.len() == 1 { q == b } else { q == a };
    check(m.expression_contains(&q) == want, "expression_contains");
    check(!m.is_const(), "constant");
    observe_bool(want);
}
crate::harnesses!(h_c01_ascii, h_c01_ascii_deep, h_c01_unicode, h_c01_two_expr, h_c01_two_expr_deep, h_c01_contains);
