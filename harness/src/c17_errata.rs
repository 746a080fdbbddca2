//! C17: error reports
use crate::rt::*;
use tailcall::core::Errata;
use tailcall_valid::{Cause, ValidationError};

struct R {
    msg: String,
    desc: Option<String>,
    trace: Vec<String>,
    causes: Vec<R>,
}
fn text(n: u8) -> String {
    match choose(3) {
        0 => string_of(b"ab \n", choose(n + 1) as usize),
        1 => String::new(),
        _ => "x\ny".into(),
    }
}
fn word() -> String {
    string_of(b"ab", 1)
}
fn build(r: &R) -> Errata {
    let mut e = Errata::new(&r.msg).trace(r.trace.clone());
    if let Some(d) = &r.desc {
        e = e.description(d.clone());
    }
    e.caused_by(r.causes.iter().map(build).collect())
}
fn shown(r: &R, out: &mut Vec<u8>) {
    out.extend(r.msg.bytes());
    if let Some(d) = &r.desc {
        out.extend(b": ");
        out.extend(d.bytes());
    }
    if !r.trace.is_empty() {
        out.extend(b" [at ");
        out.extend(r.trace.join(".").bytes());
        out.push(b']');
    }
    if !r.causes.is_empty() {
        out.extend(b"\nCaused by:\n");
        for (i, c) in r.causes.iter().enumerate() {
            if i > 0 {
                out.push(b'\n');
            }
            let mut t = vec![];
            shown(c, &mut t);
            out.extend("  • ".bytes());
            for (j, b) in t.iter().enumerate() {
                if j > 0 && t[j - 1] == b'\n' {
                    out.extend(b"    ");
                }
                out.push(*b);
            }
        }
    }
}
fn report(causes: Vec<R>) -> R {
    R { msg: text(1), desc: choose_bool().then(|| text(1)), trace: (0..choose(3)).map(|_| word()).collect(), causes }
}
fn unspaced(mut t: Vec<u8>) -> Vec<u8> {
    t.retain(|b| *b != b' ');
    t
}
/// without escape sequences
fn plain(s: &str) -> Vec<u8> {
    let mut out = vec![];
    let mut escape = false;
    for b in s.bytes() {
        if b == 0x1b {
            escape = true;
        }
        if !escape {
            out.push(b);
        }
        if b == b'm' {
            escape = false;
        }
    }
    out
}
fn display(r: R) {
    let mut want = vec![];
    shown(&r, &mut want);
    let got = build(&r).to_string();
    check(got.as_bytes() == &want[..], "the report shows every message, description, place and cause");
    observe(got.as_bytes());
    cover("shown");
    let color = choose_bool();
    colored::control::set_override(true);
    // colours may change the indentation after a final line break
    check(unspaced(plain(&build(&r).color(color).to_string())) == unspaced(want), "colours change nothing of the report's text");
}
pub fn h_c17_display() {
    let causes = (0..choose(3)).map(|_| R { msg: text(2), desc: None, trace: vec![], causes: vec![] }).collect();
    display(report(causes))
}
pub fn h_c17_nested() {
    let inner = R { msg: text(2), desc: choose_bool().then(word), trace: vec![], causes: vec![] };
    let mid = R { msg: text(1), desc: None, trace: vec![word()], causes: vec![inner, R { msg: word(), desc: None, trace: vec![], causes: vec![] }] };
    display(R { msg: "top".into(), desc: None, trace: vec![], causes: vec![mid, R { msg: word(), desc: Some(word()), trace: vec![], causes: vec![] }] })
}
/// reports made from validation errors
pub fn h_c17_validation() {
    let n = choose(3);
    let causes: Vec<R> = (0..n).map(|_| R { msg: word(), desc: choose_bool().then(word), trace: (0..choose(3)).map(|_| word()).collect(), causes: vec![] }).collect();
    let want = R { msg: "Invalid Configuration".into(), desc: None, trace: vec![], causes };
    let mut owned: ValidationError<String> = ValidationError::empty();
    let mut borrowed: ValidationError<&str> = ValidationError::empty();
    for c in &want.causes {
        let mut x = Cause::new(c.msg.clone()).trace(c.trace.clone());
        let mut y = Cause::new(c.msg.as_str()).trace(c.trace.clone());
        if let Some(d) = &c.desc {
            x = x.description(d.clone());
            y = y.description(d.as_str());
        }
        owned = owned.combine(vec![x].into());
        borrowed = borrowed.combine(vec![y].into());
    }
    let a: Errata = owned.clone().into();
    check(a == build(&want), "owned validation errors");
    let b: Errata = borrowed.into();
    check(b == build(&want), "borrowed validation errors");
    let c: Errata = anyhow::Error::from(owned).into();
    check(c == build(&want), "validation errors passed through a general error");
    let d: Errata = anyhow::Error::from(build(&want)).into();
    check(d == build(&want), "a report passed through a general error");
    let mut t = vec![];
    shown(&want, &mut t);
    check(a.to_string().as_bytes() == &t[..], "the report shows every message, description, place and cause");
    observe(&t);
    if want.causes.len() == 2 {
        cover("two causes");
    }
}
/// other errors
pub fn h_c17_other() {
    let m = word();
    let e: Errata = anyhow::anyhow!("{}", m).into();
    check(e == Errata::new(&m), "a plain error's message");
    let inner = word();
    let io: Errata = std::io::Error::new(std::io::ErrorKind::Other, m.clone()).into();
    check(io == Errata::new("IO Error").description(m.clone()), "an I/O error's message");
    let c: Errata = anyhow::anyhow!("{}", inner).context(m.clone()).into();
    check(c == Errata::new(&m).caused_by(vec![Errata::new(&inner)]), "an error's cause is kept");
    let b: Errata = Box::<dyn std::error::Error>::from(m.clone()).into();
    check(b == Errata::new(&m), "a boxed error's message");
}
crate::harnesses!(h_c17_display, h_c17_nested, h_c17_validation, h_c17_other);
