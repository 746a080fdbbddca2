//! C40: counters
use crate::rt::*;
use tailcall::core::symex::counter::{AtomicCounter, Count, Counter};

/// any start, any history of a few requests
pub fn h_c40_counter() {
    let start = any_u64();
    assume(start < u64::MAX - 16);
    let c = Counter::new(start);
    let n = choose(6) as u64;
    for i in 0..n {
        check(c.next() == start + i, "identifiers count up from the start");
    }
    let s = any_u32() as usize;
    let a = Counter::new(s);
    let b = Counter::new(s);
    let x = a.next();
    let y = b.next();
    let z = a.next();
    check(x == s && y == s && z == s + 1, "counters do not share state");
    let neg = any_u32() as i32;
    assume(neg < i32::MAX - 8);
    let c = Counter::new(neg);
    check(c.next() == neg && c.next() == neg + 1, "signed identifiers");
    cover("counted");
}
pub fn h_c40_atomic() {
    let c: AtomicCounter<u64> = AtomicCounter::default();
    let d: AtomicCounter<u8> = AtomicCounter::default();
    let mut wc = 0u64;
    let mut wd = 0u8;
    for _ in 0..6 {
        if choose_bool() {
            wc += 1;
            check(c.next() == wc, "atomic identifiers count up");
        } else {
            wd += 1;
            check(d.next() == wd, "atomic identifiers count up");
        }
    }
    let s: Counter<u8> = Counter::default();
    check(s.next() == 0 && s.next() == 1, "default start");
    cover("counted");
}
use std::cell::{Cell, RefCell};
struct World {
    c: AtomicCounter<u64>,
    got: RefCell<Vec<u64>>,
    left: Cell<u8>,
}
static WORLD: rsx_shim::Solo<Cell<Option<&'static World>>> = rsx_shim::Solo(Cell::new(None));
fn take(w: &World) {
    let x = w.c.next();
    w.got.borrow_mut().push(x);
}
fn hook() {
    let w = WORLD.0.get().unwrap();
    if w.left.get() > 0 && choose_bool() {
        w.left.set(w.left.get() - 1);
        cover("between");
        take(w);
    }
}
/// other threads ask in between
pub fn h_c40_threads() {
    let w: &'static World = Box::leak(Box::new(World { c: Default::default(), got: Default::default(), left: Cell::new(3) }));
    WORLD.0.set(Some(w));
    rsx_shim::set_hook(Some(hook));
    for _ in 0..3 {
        take(w);
    }
    rsx_shim::set_hook(None);
    let mut got = w.got.borrow().clone();
    got.sort();
    let want: Vec<u64> = (1..=got.len() as u64).collect();
    check(got == want, "no identifier is handed out twice or left out");
}
crate::harnesses!(h_c40_counter, h_c40_atomic, h_c40_threads);
