//! Z3 through its C API.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("rsx: z3 error {}: {}", e, m.to_string_lossy());
    std::process::exit(3);
}

pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
#[inline]
pub fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
        }
    }
    None
}

pub struct Solver {
    c: P,
    s: P,
    bv: FxMap<E, usize>,
    bl: FxMap<E, usize>,
    sorts: FxMap<u32, usize>,
    mems: std::collections::HashMap<(u16, Dom), usize>,
    pub checks: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub dump: Option<(String, u32)>,
}

impl Solver {
    pub fn new(rlimit: u32, seed: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            for (k, v) in [("rlimit", rlimit), ("random_seed", seed)] {
                let k = CString::new(k).unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), v);
            }
            Z3_solver_set_params(c, s, p);
            Solver { c, s, bv: Default::default(), bl: Default::default(), sorts: Default::default(), mems: Default::default(), checks: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, dump: None }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(&s) = self.sorts.get(&w) {
            return s as P;
        }
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            self.sorts.insert(w, s as usize);
            s
        }
    }
    fn num(&mut self, w: u32, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn tabtree(&mut self, v: P, t: &[u64], bit: u32, w: u32) -> P {
        if t.iter().all(|x| *x == t[0]) {
            return self.num(w, t[0] as u128);
        }
        let h = t.len() / 2;
        let lo = self.tabtree(v, &t[..h], bit.wrapping_sub(1), w);
        let hi = self.tabtree(v, &t[h..], bit.wrapping_sub(1), w);
        unsafe {
            let one = self.num(1, 1);
            let b = Z3_mk_eq(self.c, Z3_mk_extract(self.c, bit, bit, v), one);
            let r = Z3_mk_ite(self.c, b, hi, lo);
            r
        }
    }
    fn member(&mut self, v: P, d: &Dom) -> P {
        unsafe {
            let mut parts: Vec<P> = vec![];
            let mut i = 0usize;
            while i < 256 {
                if dom_has(d, i as u8) {
                    let st = i;
                    while i < 256 && dom_has(d, i as u8) {
                        i += 1
                    }
                    let en = i - 1;
                    let p = if st == en {
                        let n = self.num(8, st as u128);
                        Z3_mk_eq(self.c, v, n)
                    } else {
                        let l = self.num(8, st as u128);
                        let h = self.num(8, en as u128);
                        let a = [Z3_mk_bvule(self.c, l, v), Z3_mk_bvule(self.c, v, h)];
                        Z3_mk_and(self.c, 2, a.as_ptr())
                    };
                    parts.push(p);
                } else {
                    i += 1;
                }
            }
            if parts.is_empty() {
                Z3_mk_false(self.c)
            } else {
                Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr())
            }
        }
    }
    fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p as P;
        }
        let n = ar.nodes[e as usize];
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => if ar.as_const(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::And | Op::Or => {
                    let a = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    if n.op == Op::And { Z3_mk_and(c, 2, a.as_ptr()) } else { Z3_mk_or(c, 2, a.as_ptr()) }
                }
                Op::Xor => {
                    if n.b == ar.t {
                        let a = self.boolean(ar, n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let a = self.boolean(ar, n.a);
                        let b = self.boolean(ar, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let i = self.boolean(ar, n.a);
                    let t = self.boolean(ar, n.b);
                    let f = self.boolean(ar, n.c);
                    Z3_mk_ite(c, i, t, f)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bvv(ar, n.a);
                    let b = self.bvv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Tab => {
                    let v = self.bvv(ar, n.a);
                    let t = ar.tabs[n.c as usize].clone();
                    let mut d: Dom = [0; 4];
                    for i in 0..256 {
                        if t[i] == 1 {
                            d[i / 64] |= 1 << (i % 64);
                        }
                    }
                    self.member(v, &d)
                }
                _ => {
                    let a = self.bvv(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            };
            self.bl.insert(e, r as usize);
            r
        }
    }
    fn bvv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p as P;
        }
        let n = ar.nodes[e as usize];
        let c = self.c;
        let w = n.w as u32;
        unsafe {
            let r = match n.op {
                Op::Const => self.num(w, ar.as_const(e).unwrap()),
                Op::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), s)
                }
                Op::Tab if w > 1 => {
                    let v = self.bvv(ar, n.a);
                    let t = ar.tabs[n.c as usize].clone();
                    self.tabtree(v, &t[..], 7, w)
                }
                Op::Tab | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let o = self.num(1, 1);
                    let z = self.num(1, 0);
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Ite => {
                    let i = self.boolean(ar, n.a);
                    let t = self.bvv(ar, n.b);
                    let f = self.bvv(ar, n.c);
                    Z3_mk_ite(c, i, t, f)
                }
                Op::ZExt => {
                    let a = self.bvv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bvv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.bvv(ar, n.a);
                    Z3_mk_extract(c, n.c + w - 1, n.c, a)
                }
                op => {
                    let a = self.bvv(ar, n.a);
                    let b = self.bvv(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.bv.insert(e, r as usize);
            r
        }
    }

    pub fn check(&mut self, ar: &mut Arena, cs: &[E], doms: &[(u16, Dom)], want_model: bool) -> Res {
        let t0 = std::time::Instant::now();
        unsafe {
            Z3_solver_push(self.c, self.s);
            let mut vars: Vec<(u16, P)> = vec![];
            for (v, d) in doms {
                let ve = ar.var(*v as u32);
                let vp = self.bvv(ar, ve);
                vars.push((*v, vp));
                if *d != FULL {
                    let m = match self.mems.get(&(*v, *d)) {
                        Some(m) => *m as P,
                        None => {
                            let m = self.member(vp, d);
                            self.mems.insert((*v, *d), m as usize);
                            m
                        }
                    };
                    Z3_solver_assert(self.c, self.s, m);
                }
            }
            for e in cs {
                let b = self.boolean(ar, *e);
                Z3_solver_assert(self.c, self.s, b);
            }
            if let Some((dir, n)) = &mut self.dump {
                if *n > 0 {
                    *n -= 1;
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/q{}-{}.smt2", dir, std::process::id(), n), t);
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let mut o = vec![];
                    if want_model {
                        let m = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, m);
                        for (v, p) in vars {
                            let mut q: P = std::ptr::null_mut();
                            if Z3_model_eval(self.c, m, p, true, &mut q) {
                                let mut u = 0u64;
                                Z3_get_numeral_uint64(self.c, q, &mut u);
                                o.push((v, u as u8));
                            }
                        }
                        Z3_model_dec_ref(self.c, m);
                    }
                    self.sat += 1;
                    Res::Sat(o)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.checks += 1;
            self.time += t0.elapsed().as_secs_f64();
            out
        }
    }
}
