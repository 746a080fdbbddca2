//! C16: validation pipelines
use crate::rt::*;
use tailcall::core::symex::transform::{self, Transform, TransformerOps};
use tailcall::core::try_fold::TryFold;
use tailcall_valid::{Valid, Validator};

/// a pipeline, as data
enum P {
    Empty,
    /// adds to the state, or fails with two errors
    Step { k: u8, fails: bool },
    And(Box<P>, Box<P>),
    Update(Box<P>, u8),
    /// on a pair of state and extra
    Lens(Box<P>, u8),
    Trace(Box<P>),
    Iter(Vec<P>),
}
type Errs = Vec<(u8, Vec<&'static str>)>;
fn mix(s: u64, k: u8, input: u8) -> u64 {
    s.wrapping_mul(3).wrapping_add((k ^ input) as u64)
}
fn run(p: &P, i: u8, s: u64) -> Result<u64, Errs> {
    match p {
        P::Empty => Ok(s),
        P::Step { k, fails: false } => Ok(mix(s, *k, i)),
        P::Step { k, fails: true } => Err(vec![(*k, vec![]), (!*k, vec![])]),
        P::And(a, b) => both(run(a, i, s), s, |s| run(b, i, s)),
        P::Update(a, k) => Ok(mix(run(a, i, s)?, *k, 0)),
        P::Lens(a, k) => Ok(mix(run(a, i, s.wrapping_add(*k as u64))?, *k, 0) ^ s),
        P::Trace(a) => run(a, i, s).map_err(|e| e.into_iter().map(|(k, mut t)| { t.insert(0, "at"); (k, t) }).collect()),
        P::Iter(l) => match l.split_first() {
            None => Ok(s),
            Some((a, rest)) => iter(a, rest, i, s),
        },
    }
}
fn iter(a: &P, rest: &[P], i: u8, s: u64) -> Result<u64, Errs> {
    both(run(a, i, s), s, |s| match rest.split_first() {
        None => Ok(s),
        Some((b, r)) => iter(b, r, i, s),
    })
}
/// a failed step leaves the state, the next one runs anyway
fn both(a: Result<u64, Errs>, s: u64, b: impl Fn(u64) -> Result<u64, Errs>) -> Result<u64, Errs> {
    match a {
        Ok(s) => b(s),
        Err(mut e) => {
            if let Err(f) = b(s) {
                e.extend(f);
            }
            Err(e)
        }
    }
}
fn fail2(k: u8) -> Valid<u64, u8> {
    Valid::<u64, u8>::fail(k).and(Valid::fail(!k))
}
fn build(p: &P) -> TryFold<'static, u8, u64, u8> {
    match p {
        P::Empty => TryFold::empty(),
        P::Step { k, fails } => {
            let (k, fails) = (*k, *fails);
            TryFold::new(move |i: &u8, s| if fails { fail2(k) } else { Valid::succeed(mix(s, k, *i)) })
        }
        P::And(a, b) => build(a).and(build(b)),
        P::Update(a, k) => {
            let k = *k;
            build(a).update(move |s| mix(s, k, 0))
        }
        P::Lens(a, k) => {
            let k = *k;
            build(a).transform(move |s, o| mix(s, k, 0) ^ o, move |o: u64| o.wrapping_add(k as u64))
        }
        P::Trace(a) => build(a).trace("at"),
        P::Iter(l) => TryFold::from_iter(l.iter().map(build)),
    }
}
fn step() -> P {
    P::Step { k: byte(), fails: choose_bool() }
}
fn any(d: u8) -> P {
    if d == 0 {
        return step();
    }
    match choose(6) {
        0 => step(),
        1 => P::And(Box::new(any(d - 1)), Box::new(any(d - 1))),
        2 => P::Update(Box::new(any(d - 1)), byte()),
        3 => P::Lens(Box::new(any(d - 1)), byte()),
        4 => P::Trace(Box::new(any(d - 1))),
        _ => P::Empty,
    }
}
fn agree(want: Result<u64, Errs>, got: Valid<u64, u8>) {
    match (want, got.to_result()) {
        (Ok(w), Ok(g)) => {
            check(w == g, "the result of the successful steps, in order");
            observe_u64(g);
            cover("succeeds");
        }
        (Err(w), Err(g)) => {
            let g = g.as_vec();
            check(g.len() == w.len() && g.iter().zip(&w).all(|(x, y)| x.message == y.0), "every error, in order");
            check(g.iter().zip(&w).all(|(x, y)| x.trace.len() == y.1.len()), "errors keep where they came from");
            for x in g {
                observe(&[x.message, x.trace.len() as u8]);
            }
            if w.len() > 2 {
                cover("several steps fail");
            }
        }
        _ => check(false, "fails exactly when a step fails"),
    }
}
fn fold(p: P) {
    let i = byte();
    let s = byte() as u64;
    agree(run(&p, i, s), build(&p).try_fold(&i, s));
}
pub fn h_c16_fold() {
    fold(any(2))
}
pub fn h_c16_fold_deep() {
    fold(any(3))
}
pub fn h_c16_iter() {
    fold(P::Iter((0..choose(4)).map(|_| any(if choose_bool() { 0 } else { 1 })).collect()))
}
pub fn h_c16_long() {
    let l = P::Iter((0..choose(7)).map(|_| step()).collect());
    fold(if choose_bool() { P::Trace(Box::new(l)) } else { l })
}
/// a lens whose ends can fail
pub fn h_c16_lens() {
    let (down_fails, up_fails, fails) = (choose_bool(), choose_bool(), choose_bool());
    let (k, d, u) = (byte(), byte(), byte());
    let f = build(&P::Step { k, fails }).transform_valid(
        move |s, o: u64| if up_fails { Valid::fail(u) } else { Valid::succeed(s ^ o) },
        move |o| if down_fails { Valid::fail(d) } else { Valid::succeed(o.wrapping_add(1)) },
    );
    let (i, s) = (byte(), byte() as u64);
    let want = if down_fails {
        Err(vec![(d, vec![])])
    } else {
        match run(&P::Step { k, fails }, i, s + 1) {
            Err(e) => Err(e),
            Ok(_) if up_fails => Err(vec![(u, vec![])]),
            Ok(x) => Ok(x ^ s),
        }
    };
    agree(want, f.try_fold(&i, s));
}
#[derive(Clone, Copy)]
struct T {
    k: u8,
    fails: bool,
}
impl Transform for T {
    type Value = u64;
    type Error = u8;
    fn transform(&self, v: u64) -> Valid<u64, u8> {
        if self.fails {
            fail2(self.k)
        } else {
            Valid::succeed(mix(v, self.k, 0))
        }
    }
}
/// transformers: one after the other, up to the first that fails
pub fn h_c16_transform() {
    let ts: Vec<(T, bool)> = (0..4).map(|_| (T { k: byte(), fails: choose_bool() }, choose_bool())).collect();
    let s = byte() as u64;
    let start = if choose_bool() { 0 } else { s };
    let p = transform::default::<u64, u8>()
        .pipe(ts[0].0.when(ts[0].1))
        .pipe(ts[1].0)
        .pipe(ts[2].0.pipe(ts[3].0.when(ts[3].1)).when(ts[2].1));
    let mut want = Ok(start);
    for (i, (t, on)) in ts.iter().enumerate() {
        let on = match i {
            1 => true,
            3 => *on && ts[2].1,
            _ => *on,
        };
        if let (Ok(v), true) = (&want, on) {
            want = if t.fails { Err(vec![(t.k, vec![]), (!t.k, vec![])]) } else { Ok(mix(*v, t.k, 0)) };
        }
    }
    agree(want.clone(), p.transform(start));
    if start == 0 {
        agree(want, p.generate());
    }
}
crate::harnesses!(h_c16_fold, h_c16_fold_deep, h_c16_iter, h_c16_long, h_c16_lens, h_c16_transform);
