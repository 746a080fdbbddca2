//! Hash-consed bit-vector expressions over symbolic input bytes, with a simplifier,
//! evaluation under a model, and exact 256-entry tables for single-byte expressions.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Const, Var, Tab,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub type Table = Rc<[u64; 256]>;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<u32>,
    consts: Vec<u128>,
    cmap: FxMap<(u16, u128), E>,
    map: FxMap<Node, E>,
    pub tabs: Vec<Table>,
    tabmap: FxMap<Table, u32>,
    pub sets: Vec<Rc<[u16]>>,
    setmap: FxMap<Rc<[u16]>, u32>,
    unionc: FxMap<(u32, u32), u32>,
    tcache: FxMap<E, Table>,
    xcache: FxMap<(E, u32, u32), E>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    gen_model: u64,
    pub t: E,
    pub f: E,
}

#[inline(always)]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline(always)]
pub fn sx(v: u128, w: u32) -> i128 {
    crate::ir::sext128(v, w)
}

/// Concrete semantics of the operators. Shifts beyond the width give 0 (or the sign), division by
/// zero gives 0 - the executor never evaluates those concretely (it traps first).
#[inline]
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = sx(a, w);
            (if b >= w as u128 { s >> 127 } else { s >> b }) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![], sup: vec![], consts: vec![], cmap: Default::default(), map: Default::default(), tabs: vec![], tabmap: Default::default(),
            sets: vec![Rc::from(&[][..])], setmap: Default::default(), unionc: Default::default(), tcache: Default::default(), xcache: Default::default(),
            ev_gen: vec![], ev_val: vec![], gen: 0, gen_model: 0, t: 0, f: 0,
        };
        a.setmap.insert(Rc::from(&[][..]), 0);
        a.f = a.konst(1, 0);
        a.t = a.konst(1, 1);
        a
    }
    fn push(&mut self, n: Node, sup: u32) -> E {
        self.nodes.push(n);
        self.sup.push(sup);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.nodes.len() as E - 1
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w as u16, v)) {
            return e;
        }
        self.consts.push(v);
        let n = Node { op: Op::Const, w: w as u16, a: self.consts.len() as u32 - 1, b: 0, c: 0 };
        let e = self.push(n, 0);
        self.cmap.insert((w as u16, v), e);
        e
    }
    pub fn var(&mut self, i: u32) -> E {
        let n = Node { op: Op::Var, w: 8, a: i, b: 0, c: 0 };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let s = self.set(&[i as u16]);
        let e = self.push(n, s);
        self.map.insert(n, e);
        e
    }
    fn set(&mut self, s: &[u16]) -> u32 {
        let r: Rc<[u16]> = Rc::from(s);
        if let Some(&i) = self.setmap.get(&r) {
            return i;
        }
        self.sets.push(r.clone());
        let i = self.sets.len() as u32 - 1;
        self.setmap.insert(r, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&u) = self.unionc.get(&k) {
            return u;
        }
        let mut v: Vec<u16> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let u = self.set(&v);
        self.unionc.insert(k, u);
        u
    }
    pub fn support(&self, e: E) -> Rc<[u16]> {
        self.sets[self.sup[e as usize] as usize].clone()
    }
    pub fn nsup(&self, e: E) -> usize {
        self.sets[self.sup[e as usize] as usize].len()
    }
    #[inline(always)]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline(always)]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    #[inline(always)]
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let mut s = self.sup[a as usize];
        match op {
            Op::Ite => {
                let (sb, sc) = (self.sup[b as usize], self.sup[c as usize]);
                s = self.union(s, sb);
                s = self.union(s, sc);
            }
            Op::ZExt | Op::SExt | Op::Extract | Op::Tab => {}
            _ => {
                let sb = self.sup[b as usize];
                s = self.union(s, sb);
            }
        }
        let e = self.push(n, s);
        self.map.insert(n, e);
        e
    }

    pub fn not(&mut self, a: E) -> E {
        let t = self.t;
        self.bin(Op::Xor, a, t)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    /// function of a single byte expression given as a table
    pub fn tab(&mut self, v: u16, t: [u64; 256], w: u32) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let r: Table = Rc::new(t);
        let id = match self.tabmap.get(&r) {
            Some(&i) => i,
            None => {
                self.tabs.push(r.clone());
                let i = self.tabs.len() as u32 - 1;
                self.tabmap.insert(r, i);
                i
            }
        };
        let var = self.var(v as u32);
        self.mk(Op::Tab, w, var, 0, id)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(k) = self.as_const(a) {
            return self.konst(w, k);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.mk(Op::ZExt, w, n.a, 0, 0);
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let x = self.konst(w, x);
                let y = self.konst(w, y);
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(w, sx(k, aw) as u128);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.mk(Op::ZExt, w, n.a, 0, 0);
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let x = self.konst(w, sx(x, aw) as u128);
                let y = self.konst(w, sx(y, aw) as u128);
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        if lo == 0 && w == self.w(a) {
            return a;
        }
        if let Some(&r) = self.xcache.get(&(a, lo, w)) {
            return r;
        }
        let r = self.extract0(a, lo, w);
        self.xcache.insert((a, lo, w), r);
        r
    }
    fn extract0(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if let Some(k) = self.as_const(a) {
            return self.konst(w, k >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.c, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, lo + w - bw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.konst(w, 0);
                }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Tab => {
                let t = self.tabs[n.c as usize].clone();
                let mut o = [0u64; 256];
                let m = mask(w) as u64;
                for i in 0..256 {
                    o[i] = (t[i] >> lo) & m;
                }
                let v = self.nodes[n.a as usize].a as u16;
                return self.tab(v, o, w);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, lo)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let Some(hk) = self.as_const(h) {
            if let Some(lk) = self.as_const(l) {
                return self.konst(hw + lw, (hk << lw) | lk);
            }
            if hk == 0 {
                return self.zext(l, hw + lw);
            }
        }
        let hn = self.n(h);
        let ln = self.n(l);
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.c == ln.c + lw {
            return self.extract(hn.a, ln.c, hw + lw);
        }
        // extract(x, k, ..) over x itself
        if hn.op == Op::Extract && hn.a == l && hn.c == lw {
            return self.extract(l, 0, hw + lw);
        }
        // extract(x, k, ..) over the (possibly rewritten) bits of x below
        if hn.op == Op::Extract && hn.c >= lw && self.extract(hn.a, hn.c - lw, lw) == l {
            return self.extract(hn.a, hn.c - lw, hw + lw);
        }
        // (concat (concat x e1) e2) with adjacent extracts
        if hn.op == Op::Concat {
            let m = self.n(hn.b);
            if m.op == Op::Extract && ln.op == Op::Extract && m.a == ln.a && m.c == ln.c + lw {
                let mw = self.w(hn.b);
                let nl = self.extract(m.a, ln.c, mw + lw);
                return self.concat(hn.a, nl);
            }
        }
        if ln.op == Op::Concat && hn.op == Op::Extract {
            let m = self.n(ln.a);
            if m.op == Op::Extract && m.a == hn.a && hn.c == m.c + self.w(ln.a) {
                let nw = hw + self.w(ln.a);
                let nh = self.extract(m.a, m.c, nw);
                return self.concat(nh, ln.b);
            }
        }
        // zext(x) re-assembled from extract bytes: concat(0.., x) handled above
        if hn.op == Op::ZExt && false {
            unreachable!()
        }
        self.mk(Op::Concat, hw + lw, h, l, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if self.w(a) == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        let cn = self.n(c);
        if cn.op == Op::Xor && cn.b == self.t {
            return self.ite(cn.a, b, a);
        }
        self.mk(Op::Ite, self.w(a), c, a, b)
    }
    fn is_low_mask(k: u128) -> Option<u32> {
        if k != 0 && (k & k.wrapping_add(1)) == 0 { Some(128 - k.leading_zeros()) } else { None }
    }
    /// an upper bound of the value
    pub fn ub(&self, e: E, depth: u32) -> u128 {
        let n = self.n(e);
        let top = mask(n.w as u32);
        if depth == 0 {
            return if n.op == Op::Const { self.consts[n.a as usize] } else { top };
        }
        let d = depth - 1;
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::ZExt => self.ub(n.a, d),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ub(n.a, d) << lw) | if self.ub(n.a, d) == 0 { self.ub(n.b, d) } else { mask(lw) }
            }
            Op::Add => self.ub(n.a, d).checked_add(self.ub(n.b, d)).filter(|x| *x <= top).unwrap_or(top),
            Op::Mul => self.ub(n.a, d).checked_mul(self.ub(n.b, d)).filter(|x| *x <= top).unwrap_or(top),
            Op::And => self.ub(n.a, d).min(self.ub(n.b, d)),
            Op::UDiv => match self.as_const(n.b) {
                Some(k) if k > 0 => self.ub(n.a, d) / k,
                _ => top,
            },
            Op::URem => match self.as_const(n.b) {
                Some(k) if k > 0 => self.ub(n.a, d).min(k - 1),
                _ => top,
            },
            Op::LShr => match self.as_const(n.b) {
                Some(k) if k < 128 => self.ub(n.a, d) >> k,
                _ => top,
            },
            Op::Ite => self.ub(n.b, d).max(self.ub(n.c, d)),
            _ => top,
        }
    }
    /// a / k and a % k where parts of `a` are known multiples of k
    fn divide(&mut self, op: Op, a: E, k: u128) -> Option<E> {
        let w = self.w(a);
        let u = self.ub(a, 6);
        if u < k {
            return Some(if op == Op::UDiv { self.konst(w, 0) } else { a });
        }
        let n = self.n(a);
        match n.op {
            Op::Mul => {
                let c = self.as_const(n.b)?;
                if c % k == 0 && self.ub(n.a, 6).checked_mul(c).map_or(false, |x| x <= mask(w)) {
                    if op == Op::URem {
                        return Some(self.konst(w, 0));
                    }
                    let q = self.konst(w, c / k);
                    return Some(self.bin(Op::Mul, n.a, q));
                }
            }
            Op::Add if self.ub(n.a, 6).checked_add(self.ub(n.b, 6)).map_or(false, |x| x <= mask(w)) => {
                let kk = self.konst(w, k);
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    let multiple = match (self.as_const(x), self.n(x)) {
                        (Some(c), _) => c % k == 0,
                        (_, m) if m.op == Op::Mul => self.as_const(m.b).map_or(false, |c| c % k == 0) && self.ub(m.a, 6).checked_mul(self.as_const(m.b).unwrap()).map_or(false, |x| x <= mask(w)),
                        _ => false,
                    };
                    if multiple {
                        let r = self.bin(op, y, kk);
                        if op == Op::URem {
                            return Some(r);
                        }
                        let q = self.bin(op, x, kk);
                        return Some(self.bin(Op::Add, q, r));
                    }
                }
            }
            _ => {}
        }
        let need = (128 - u.leading_zeros()).max(8);
        if need < w {
            let x = self.extract(a, 0, need);
            let kk = self.konst(need, k);
            let r = self.bin(op, x, kk);
            return Some(self.zext(r, w));
        }
        None
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (mut ka, mut kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = fold(op, w, x, y);
            return self.konst(rw, v);
        }
        // canonical order for commutative operators: constant right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ka.is_some() || (kb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ka, &mut kb);
            }
        }
        let m = mask(w);
        let an = self.n(a);
        if let Some(k) = kb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And | Op::Mul if k == 0 => return b,
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Mul | Op::UDiv | Op::SDiv if k == 1 && w > 1 => return a,
                Op::URem if k == 1 => return self.konst(w, 0),
                Op::Sub => {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, nk);
                }
                Op::Mul if k.is_power_of_two() => {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::Shl, a, s);
                }
                Op::UDiv | Op::URem if !k.is_power_of_two() && k != 0 => {
                    if let Some(r) = self.divide(op, a, k) {
                        return r;
                    }
                }
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let s = self.konst(w, k - 1);
                    return self.bin(Op::And, a, s);
                }
                Op::Shl => {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let l = self.extract(a, 0, w - k as u32);
                    let z = self.konst(k as u32, 0);
                    return self.concat(l, z);
                }
                Op::LShr => {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let h = self.extract(a, k as u32, w - k as u32);
                    return self.zext(h, w);
                }
                Op::AShr => {
                    let kk = k.min(w as u128 - 1) as u32;
                    let h = self.extract(a, kk, w - kk);
                    return self.sext(h, w);
                }
                Op::Add => {
                    if an.op == Op::Add {
                        if let Some(k2) = self.as_const(an.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, an.a, kk);
                        }
                    }
                    if an.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.as_const(an.b), self.as_const(an.c)) {
                            let x = self.konst(w, x.wrapping_add(k));
                            let y = self.konst(w, y.wrapping_add(k));
                            return self.ite(an.a, x, y);
                        }
                    }
                }
                Op::Xor => {
                    if an.op == Op::Xor {
                        if let Some(k2) = self.as_const(an.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, an.a, kk);
                        }
                    }
                    if w == 1 {
                        // not(a): push into comparisons
                        match an.op {
                            Op::Ult => return self.bin(Op::Ule, an.b, an.a),
                            Op::Ule => return self.bin(Op::Ult, an.b, an.a),
                            Op::Slt => return self.bin(Op::Sle, an.b, an.a),
                            Op::Sle => return self.bin(Op::Slt, an.b, an.a),
                            Op::Tab => {
                                let t = self.tabs[an.c as usize].clone();
                                let mut o = [0u64; 256];
                                for i in 0..256 {
                                    o[i] = t[i] ^ 1;
                                }
                                let v = self.nodes[an.a as usize].a as u16;
                                return self.tab(v, o, 1);
                            }
                            _ => {}
                        }
                    }
                    if an.op == Op::Concat || an.op == Op::ZExt {
                        return self.split_bitop(op, a, k);
                    }
                }
                Op::And => {
                    if an.op == Op::And {
                        if let Some(k2) = self.as_const(an.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, an.a, kk);
                        }
                    }
                    if let Some(lw) = Self::is_low_mask(k) {
                        if lw < w {
                            let l = self.extract(a, 0, lw);
                            return self.zext(l, w);
                        }
                    }
                    if an.op == Op::Concat || an.op == Op::ZExt {
                        return self.split_bitop(op, a, k);
                    }
                    if an.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.as_const(an.b), self.as_const(an.c)) {
                            let x = self.konst(w, x & k);
                            let y = self.konst(w, y & k);
                            return self.ite(an.a, x, y);
                        }
                    }
                }
                Op::Or => {
                    if an.op == Op::Or {
                        if let Some(k2) = self.as_const(an.b) {
                            let kk = self.konst(w, k | k2);
                            return self.bin(Op::Or, an.a, kk);
                        }
                    }
                    if an.op == Op::Concat || an.op == Op::ZExt {
                        return self.split_bitop(op, a, k);
                    }
                }
                Op::Eq => {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if k > mask(iw) {
                                return self.f;
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, an.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            let tr = k & mask(iw);
                            if sx(tr, iw) as u128 & m != k {
                                return self.f;
                            }
                            let kk = self.konst(iw, tr);
                            return self.bin(Op::Eq, an.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(an.b);
                            let hw = self.w(an.a);
                            let kh = self.konst(hw, k >> lw);
                            let kl = self.konst(lw, k);
                            let x = self.bin(Op::Eq, an.a, kh);
                            if x == self.f {
                                return x;
                            }
                            let y = self.bin(Op::Eq, an.b, kl);
                            return self.and1(x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(an.b) {
                                let kk = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, an.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(an.b) {
                                let kk = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, an.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, an.a, an.b);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = self.konst(w, 0);
                            let x = self.bin(Op::Eq, an.a, z);
                            let y = self.bin(Op::Eq, an.b, z);
                            return self.and1(x, y);
                        }
                        Op::Ite => {
                            let cb = self.as_const(an.b);
                            let cc = self.as_const(an.c);
                            if cb.is_some() || cc.is_some() {
                                let x = self.bin(Op::Eq, an.b, b);
                                let y = self.bin(Op::Eq, an.c, b);
                                return self.ite(an.a, x, y);
                            }
                        }
                        Op::Tab => return self.tabcmp(an, |x| (x as u128 == k) as u64),
                        _ => {}
                    }
                }
                Op::Ult => {
                    if k == 0 {
                        return self.f;
                    }
                    if k == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if k > mask(iw) {
                                return self.t;
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Ult, an.a, kk);
                        }
                        Op::Ite => {
                            if self.as_const(an.b).is_some() || self.as_const(an.c).is_some() {
                                let x = self.bin(Op::Ult, an.b, b);
                                let y = self.bin(Op::Ult, an.c, b);
                                return self.ite(an.a, x, y);
                            }
                        }
                        Op::Tab => return self.tabcmp(an, |x| ((x as u128) < k) as u64),
                        _ => {}
                    }
                }
                Op::Ule => {
                    if k == m {
                        return self.t;
                    }
                    let kk = self.konst(w, k + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                Op::Slt => {
                    if an.op == Op::ZExt {
                        // non-negative value
                        if sx(k, w) <= 0 {
                            return self.f;
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                    if an.op == Op::SExt {
                        let iw = self.w(an.a);
                        let kv = sx(k, w);
                        let lim = 1i128 << (iw - 1);
                        if kv >= lim {
                            return self.t;
                        }
                        if kv < -lim {
                            return self.f;
                        }
                        let kk = self.konst(iw, kv as u128);
                        return self.bin(Op::Slt, an.a, kk);
                    }
                    if an.op == Op::Ite && (self.as_const(an.b).is_some() || self.as_const(an.c).is_some()) {
                        let x = self.bin(Op::Slt, an.b, b);
                        let y = self.bin(Op::Slt, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                    if k == 0 {
                        // sign bit
                        return self.extract(a, w - 1, 1);
                    }
                }
                Op::Sle => {
                    if sx(k, w) as u128 & m == m >> 1 {
                        return self.t;
                    }
                    let kk = self.konst(w, k.wrapping_add(1));
                    return self.bin(Op::Slt, a, kk);
                }
                _ => {}
            }
        }
        if let Some(k) = ka {
            // constant on the left (non commutative)
            let bn = self.n(b);
            match op {
                Op::Ult => {
                    if k == m {
                        return self.f;
                    }
                    match bn.op {
                        Op::ZExt => {
                            let iw = self.w(bn.a);
                            if k >= mask(iw) {
                                return self.f;
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Ult, kk, bn.a);
                        }
                        Op::Ite => {
                            if self.as_const(bn.b).is_some() || self.as_const(bn.c).is_some() {
                                let x = self.bin(Op::Ult, a, bn.b);
                                let y = self.bin(Op::Ult, a, bn.c);
                                return self.ite(bn.a, x, y);
                            }
                        }
                        Op::Tab => return self.tabcmp(bn, |x| ((x as u128) > k) as u64),
                        _ => {}
                    }
                    if k == 0 {
                        let z = self.konst(w, 0);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                }
                Op::Ule => {
                    if k == 0 {
                        return self.t;
                    }
                    let kk = self.konst(w, k - 1);
                    return self.bin(Op::Ult, kk, b);
                }
                Op::Slt => {
                    if bn.op == Op::ZExt {
                        if sx(k, w) < 0 {
                            return self.t;
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                    if k == m {
                        // -1 < b
                        let s = self.extract(b, w - 1, 1);
                        return self.not(s);
                    }
                    if bn.op == Op::Ite && (self.as_const(bn.b).is_some() || self.as_const(bn.c).is_some()) {
                        let x = self.bin(Op::Slt, a, bn.b);
                        let y = self.bin(Op::Slt, a, bn.c);
                        return self.ite(bn.a, x, y);
                    }
                }
                Op::Sle => {
                    if k == (m >> 1) + 1 {
                        return self.t;
                    }
                    let kk = self.konst(w, k.wrapping_sub(1));
                    return self.bin(Op::Slt, kk, b);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor | Op::URem | Op::SRem => return self.konst(w, 0),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.t,
                Op::Ult | Op::Slt => return self.f,
                _ => {}
            }
        }
        if w == 1 {
            // boolean absorption
            let t = self.t;
            let nb = self.n(b);
            let na = an;
            let neg = (nb.op == Op::Xor && nb.b == t && nb.a == a) || (na.op == Op::Xor && na.b == t && na.a == b);
            if neg {
                match op {
                    Op::And => return self.f,
                    Op::Or | Op::Xor => return self.t,
                    _ => {}
                }
            }
            match op {
                Op::Eq => {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                Op::Ult => {
                    let na = self.not(a);
                    return self.and1(na, b);
                }
                Op::Ule => {
                    let na = self.not(a);
                    return self.or1(na, b);
                }
                Op::Add | Op::Sub => return self.bin(Op::Xor, a, b),
                Op::Mul => return self.bin(Op::And, a, b),
                _ => {}
            }
        }
        if kb.is_none() && ka.is_none() {
            let bn = self.n(b);
            match op {
                Op::Or | Op::Add | Op::Xor => {
                    // disjoint pieces: zext(x) | concat(y, 0)
                    if let Some(r) = self.disjoint_or(a, b) {
                        return r;
                    }
                }
                Op::Eq => {
                    if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                        return self.bin(Op::Eq, an.a, bn.a);
                    }
                    if an.op == Op::Concat && bn.op == Op::Concat && self.w(an.a) == self.w(bn.a) {
                        let x = self.bin(Op::Eq, an.a, bn.a);
                        let y = self.bin(Op::Eq, an.b, bn.b);
                        return self.and1(x, y);
                    }
                }
                Op::Ult | Op::Ule => {
                    if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                        return self.bin(op, an.a, bn.a);
                    }
                }
                Op::Sub => {
                    // (x + k) - x
                    if an.op == Op::Add && an.a == b {
                        return an.b;
                    }
                    if an.op == Op::Add && an.b == b {
                        return an.a;
                    }
                    if an.op == Op::Add && bn.op == Op::Add && an.a == bn.a {
                        return self.bin(Op::Sub, an.b, bn.b);
                    }
                }
                _ => {}
            }
        }
        self.mk(op, rw, a, b, 0)
    }
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let (an, bn) = (self.n(a), self.n(b));
        // one is zext(x, w) with width iw, the other concat(y, 0_k) with k >= iw (possibly inside zext)
        for (z, c) in [(an, b), (bn, a)] {
            if z.op == Op::ZExt {
                let iw = self.w(z.a);
                let w = self.w(c);
                let low = self.extract(c, 0, iw);
                if self.as_const(low) == Some(0) {
                    let hi = self.extract(c, iw, w - iw);
                    return Some(self.concat(hi, z.a));
                }
            }
        }
        None
    }
    fn split_bitop(&mut self, op: Op, a: E, k: u128) -> E {
        let an = self.n(a);
        let w = self.w(a);
        if an.op == Op::Concat {
            let lw = self.w(an.b);
            let hw = self.w(an.a);
            let kh = self.konst(hw, k >> lw);
            let kl = self.konst(lw, k);
            let h = self.bin(op, an.a, kh);
            let l = self.bin(op, an.b, kl);
            self.concat(h, l)
        } else {
            let iw = self.w(an.a);
            let kl = self.konst(iw, k);
            let l = self.bin(op, an.a, kl);
            let h = match op {
                Op::And => 0,
                _ => k >> iw,
            };
            let he = self.konst(w - iw, h);
            self.concat(he, l)
        }
    }
    fn tabcmp(&mut self, n: Node, f: impl Fn(u64) -> u64) -> E {
        let t = self.tabs[n.c as usize].clone();
        let mut o = [0u64; 256];
        for i in 0..256 {
            o[i] = f(t[i]);
        }
        let v = self.nodes[n.a as usize].a as u16;
        self.tab(v, o, 1)
    }

    // ---------- evaluation ----------
    pub fn eval(&mut self, e: E, model_id: u64, model: &[u8]) -> u128 {
        if self.gen_model != model_id {
            self.gen_model = model_id;
            self.gen += 1;
            if self.gen == u32::MAX {
                self.gen = 1;
                self.ev_gen.iter_mut().for_each(|x| *x = 0);
            }
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.ev_gen[i] == self.gen {
            return self.ev_val[i];
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Tab => {
                let x = self.ev(n.a, model) as usize;
                self.tabs[n.c as usize][x] as u128
            }
            Op::Ite => {
                if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) }
            }
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let aw = self.w(n.a);
                let x = self.ev(n.a, model);
                sx(x, aw) as u128 & mask(w)
            }
            Op::Extract => (self.ev(n.a, model) >> n.c) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model) << lw) | self.ev(n.b, model)
            }
            op => {
                let aw = self.w(n.a);
                let a = self.ev(n.a, model);
                let b = self.ev(n.b, model);
                fold(op, aw, a, b)
            }
        };
        self.ev_gen[i] = self.gen;
        self.ev_val[i] = v;
        v
    }

    /// table of a single-byte expression (width <= 64)
    pub fn table(&mut self, e: E) -> Table {
        if let Some(t) = self.tcache.get(&e) {
            return t.clone();
        }
        if self.tcache.len() > 20000 {
            self.tcache.clear();
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let m = mask(w.min(64)) as u64;
        let mut o = [0u64; 256];
        let t: Table = match n.op {
            Op::Const => {
                let k = self.consts[n.a as usize] as u64;
                Rc::new([k; 256])
            }
            Op::Var => {
                for i in 0..256 {
                    o[i] = i as u64;
                }
                Rc::new(o)
            }
            Op::Tab => self.tabs[n.c as usize].clone(),
            _ if self.has_wide(n) || w > 64 => {
                // wide intermediate values: evaluate one by one
                let v = self.support(e)[0] as usize;
                let mut model = vec![0u8; v + 1];
                for i in 0..256 {
                    model[v] = i as u8;
                    self.gen_model = u64::MAX;
                    self.gen += 1;
                    o[i] = self.ev(e, &model) as u64;
                }
                self.gen_model = u64::MAX;
                self.gen += 1;
                Rc::new(o)
            }
            Op::Ite => {
                let (c, a, b) = (self.table(n.a), self.table(n.b), self.table(n.c));
                for i in 0..256 {
                    o[i] = if c[i] == 1 { a[i] } else { b[i] };
                }
                Rc::new(o)
            }
            Op::ZExt => self.table(n.a),
            Op::SExt => {
                let aw = self.w(n.a);
                let a = self.table(n.a);
                for i in 0..256 {
                    o[i] = sx(a[i] as u128, aw) as u64 & m;
                }
                Rc::new(o)
            }
            Op::Extract => {
                let a = self.table(n.a);
                for i in 0..256 {
                    o[i] = (a[i] >> n.c) & m;
                }
                Rc::new(o)
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let (a, b) = (self.table(n.a), self.table(n.b));
                for i in 0..256 {
                    o[i] = (a[i] << lw) | b[i];
                }
                Rc::new(o)
            }
            op => {
                let aw = self.w(n.a);
                let (a, b) = (self.table(n.a), self.table(n.b));
                for i in 0..256 {
                    o[i] = fold(op, aw, a[i] as u128, b[i] as u128) as u64;
                }
                Rc::new(o)
            }
        };
        self.tcache.insert(e, t.clone());
        t
    }
    fn has_wide(&self, n: Node) -> bool {
        let w = |e: E| self.nodes[e as usize].w > 64;
        match n.op {
            Op::Ite => w(n.b),
            Op::ZExt | Op::SExt | Op::Extract => w(n.a),
            Op::Concat => n.w > 64,
            _ => w(n.a) || w(n.b),
        }
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.nodes[e as usize];
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("b{}", n.a),
            Op::Tab => format!("tab{}({})", n.c, self.show(n.a, d)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d), n.c, n.w),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
