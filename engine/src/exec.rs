//! Symbolic execution of LLVM IR: states, forking decisions, memory, calls, externs.
use crate::expr::*;
use crate::ir::{Bin, Callee, CastOp, Cst, Func, Inst, Module, Opd, Pred, Ty, TyId, NODST, NONORMAL};
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    W(Box<u128>),
    A(Rc<Vec<V>>),
}

pub struct Fun {
    pub f: Func,
    pub consts: Vec<V>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Fun>,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    dst: u32,
    normal: u32,
    sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub doms: Rc<Vec<Dom>>,
    pub multi: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>,
    pub mid: u64,
    pins: Rc<Vec<(E, u64)>>,
    /// every decision and assumption of this path, as it was met (for the cross-check with Z3)
    pc: Option<Rc<Link>>,
    claims: Rc<Vec<E>>,
    pub depth: u32,
    pub obs: Rc<Vec<V>>,
    pub ninput: u32,
    pub steps: u64,
}

pub struct Link {
    e: E,
    prev: Option<Rc<Link>>,
}
impl Drop for Link {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(l) = p {
            match Rc::try_unwrap(l) {
                Ok(mut l) => p = l.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Debug)]
pub enum Stop {
    /// a concrete value of this expression is needed
    Conc(E),
    /// path infeasible or rejected
    Kill,
    Done,
    Panic(String),
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub rejected: u64,
    pub panics: u64,
    pub errors: u64,
    pub steps: u64,
    pub decisions: u64,
    pub forks: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub dom_decided: u64,
    pub max_multi: u64,
    pub audit_paths: u64,
    pub audit_splits: u64,
}

pub enum Outcome {
    Path { input: Vec<u8>, obs: u64 },
    Violation { id: String, input: Vec<u8> },
    Error { msg: String, input: Vec<u8> },
}

pub struct Exec {
    pub m: Module,
    funs: Vec<Option<Rc<Fun>>>,
    pub ar: Arena,
    pub solver: Solver,
    gaddr: HashMap<Vec<u8>, u64>,
    ext_names: Vec<Vec<u8>>,
    pub base_mem: Mem,
    next_mid: u64,
    qcache: FxMap<Vec<u64>, Option<Rc<Vec<(u16, u8)>>>>,
    pub st: Stats,
    pub max_steps: u64,
    pub out: Vec<Outcome>,
    pub covers: BTreeMap<String, u64>,
    pub seen: HashSet<u32>,
    seen_v: Vec<bool>,
    pub stack: Vec<State>,
    pub trace: bool,
    pub viol_ids: HashMap<String, u32>,
    pub hot: HashMap<(usize, u32, u32), (String, u64)>,
    pub profile: bool,
    warned: HashSet<String>,
    pub enum_limit: usize,
    pub audit_cap: u64,
}

const FN_BASE: u64 = 0x10000;
const EXT_BASE: u64 = 0x4000;

#[inline(always)]
fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
#[inline(always)]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}
fn vc(w: u32, v: u128) -> V {
    if w > 64 { V::W(Box::new(v & mask(w))) } else { V::C(v as u64 & m64(w)) }
}
pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Exec {
    pub fn new(m: Module, seed: u32) -> Self {
        let nf = m.funcs.len();
        let mut ex = Exec {
            m, funs: (0..nf).map(|_| None).collect(), ar: Arena::new(), solver: Solver::new(60_000_000, seed), gaddr: HashMap::new(), ext_names: vec![], base_mem: Mem::new(), next_mid: 1,
            qcache: Default::default(), st: Stats::default(), max_steps: 400_000_000, out: vec![], covers: BTreeMap::new(), seen: HashSet::new(), seen_v: vec![false; nf], stack: vec![], trace: false,
            viol_ids: HashMap::new(), hot: HashMap::new(), profile: false, warned: HashSet::new(), enum_limit: 64, audit_cap: 100,
        };
        ex.init_globals();
        ex
    }
    fn init_globals(&mut self) {
        for (i, f) in self.m.funcs.iter().enumerate() {
            let _ = f;
            let _ = i;
        }
        let names: Vec<(Vec<u8>, u32)> = self.m.func_idx.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (k, v) in names {
            self.gaddr.insert(k, FN_BASE + 16 * v as u64);
        }
        assert!(FN_BASE + 16 * (self.m.funcs.len() as u64) < CONST_BASE);
        for (i, d) in self.m.declares.clone().into_iter().enumerate() {
            self.gaddr.entry(d.clone()).or_insert(EXT_BASE + 4 * i as u64);
            self.ext_names.push(d);
        }
        assert!(EXT_BASE + 4 * (self.ext_names.len() as u64) < FN_BASE, "too many externs");
        let mut cp = CONST_BASE;
        let mut gp = GLOB_BASE;
        let globals = std::mem::take(&mut self.m.globals);
        for g in &globals {
            let sz = self.m.types.size(g.ty).max(1);
            let al = g.align.max(8);
            if g.init.is_none() {
                // external: weak -> null; otherwise 64 zero bytes
                let a = if g.extern_weak { 0 } else {
                    gp = (gp + 15) / 16 * 16;
                    let a = gp;
                    gp += sz.max(64);
                    a
                };
                self.gaddr.entry(g.name.clone()).or_insert(a);
                continue;
            }
            let p = if g.constant { &mut cp } else { &mut gp };
            *p = (*p + al - 1) / al * al;
            let a = *p;
            *p += sz;
            self.gaddr.insert(g.name.clone(), a);
        }
        assert!(cp < GLOB_BASE && gp < HEAP_BASE);
        let z = self.base_mem.zero.clone();
        Rc::get_mut(&mut self.base_mem.konst).unwrap().grow(cp + 64, &z);
        self.base_mem.glob.grow(gp + 64, &z);
        for (n, c) in self.m.aliases.clone() {
            let pt = self.m.types.get(Ty::Ptr);
            let v = self.cst(pt, &c);
            if let V::C(a) = v {
                self.gaddr.insert(n, a);
            }
        }
        for g in &globals {
            if let Some(c) = &g.init {
                let a = self.gaddr[&g.name];
                self.init_mem(a, g.ty, c);
            }
        }
        self.m.globals = globals;
    }
    fn wr(&mut self, a: u64, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            if *x != 0 {
                self.base_mem.set(a + i as u64, B::C(*x));
            }
        }
    }
    fn init_mem(&mut self, a: u64, ty: TyId, c: &Cst) {
        match c {
            Cst::Zero => {}
            Cst::Bytes(b) => self.wr(a, b),
            Cst::Agg(v) => {
                let lay = self.m.types.lay[ty as usize].offs.clone();
                let es = match self.m.types.ty(ty) {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => self.m.types.size(*e),
                    _ => 0,
                };
                for (i, (t, c)) in v.iter().enumerate() {
                    let off = if lay.is_empty() { es * i as u64 } else { lay[i] };
                    self.init_mem(a + off, *t, c);
                }
            }
            _ => {
                let v = self.cst(ty, c);
                let sz = self.m.types.size(ty) as usize;
                match v {
                    V::C(x) => self.wr(a, &x.to_le_bytes()[..sz.min(8)]),
                    V::W(x) => self.wr(a, &x.to_le_bytes()[..sz.min(16)]),
                    _ => panic!("init {:?}", c),
                }
            }
        }
    }
    fn cst(&mut self, ty: TyId, c: &Cst) -> V {
        let w = self.m.types.width(ty);
        match c {
            Cst::Int(i) => vc(w, *i),
            Cst::Zero => self.zero(ty),
            Cst::Global(g) => {
                let a = *self.gaddr.get(g).unwrap_or_else(|| panic!("unknown global {}", String::from_utf8_lossy(g)));
                V::C(a)
            }
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cst(*t, c)).collect())),
            Cst::Gep(et, b, ix) => {
                let pt = self.m.types.get(Ty::Ptr);
                let mut a = self.cc(pt, b);
                let i64t = self.m.types.get(Ty::Int(64));
                let mut cur = *et;
                for (k, i) in ix.iter().enumerate() {
                    let i = match i {
                        Cst::Int(n) => {
                            // index constants carry their own width; treat as i64 (rustc prints i64)
                            *n as u64 as i64
                        }
                        o => self.cc(i64t, o) as i64,
                    };
                    if k == 0 {
                        a = a.wrapping_add((i * self.m.types.size(cur) as i64) as u64);
                    } else {
                        match self.m.types.ty(cur).clone() {
                            Ty::Struct(fs, _) => {
                                a += self.m.types.lay[cur as usize].offs[i as usize];
                                cur = fs[i as usize];
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                a = a.wrapping_add((i * self.m.types.size(e) as i64) as u64);
                                cur = e;
                            }
                            t => panic!("const gep {:?}", t),
                        }
                    }
                }
                V::C(a)
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.cc(*t, a), self.cc(*t, b));
                let r = match *op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    _ => x >> y,
                };
                vc(w, r as u128)
            }
            Cst::Cast(f, _t, c) => match self.cst(*f, c) {
                V::C(x) => vc(w, x as u128),
                V::W(x) => vc(w, *x),
                v => v,
            },
        }
    }
    fn cc(&mut self, ty: TyId, c: &Cst) -> u64 {
        match self.cst(ty, c) {
            V::C(x) => x,
            v => panic!("const {:?}", v),
        }
    }
    fn zero(&self, ty: TyId) -> V {
        match self.m.types.ty(ty) {
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|t| self.zero(*t)).collect())),
            Ty::Arr(n, e) => V::A(Rc::new(vec![self.zero(*e); *n as usize])),
            Ty::Vec(n, e) => V::A(Rc::new(vec![self.zero(*e); *n as usize])),
            _ => vc(self.m.types.width(ty).max(1), 0),
        }
    }
    pub fn fun(&mut self, fi: u32) -> Rc<Fun> {
        if let Some(f) = &self.funs[fi as usize] {
            return f.clone();
        }
        let f = self.m.decode(fi);
        let consts = f.consts.iter().map(|(t, c)| self.cst(*t, c)).collect();
        let r = Rc::new(Fun { f, consts });
        self.funs[fi as usize] = Some(r.clone());
        r
    }

    // ---------------- symbolic helpers ----------------
    fn mkv(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(k) => vc(self.ar.w(e), k),
            None => V::S(e),
        }
    }
    fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.ar.konst(w, *x as u128),
            V::W(x) => self.ar.konst(w, **x),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn effv(&self, st: &State, e: E) -> Vec<u16> {
        self.ar.support(e).iter().copied().filter(|v| dom_count(&st.doms[*v as usize]) > 1).collect()
    }
    /// number of effective variables, capped at 2, and the first one
    fn eff1(&self, st: &State, e: E) -> (u32, u16) {
        let s = &self.ar.sets[self.ar.sup[e as usize] as usize];
        let mut n = 0;
        let mut f = 0;
        for v in s.iter() {
            let d = &st.doms[*v as usize];
            if d[0] & d[0].wrapping_sub(1) != 0 || dom_count(d) > 1 {
                n += 1;
                if n == 1 {
                    f = *v
                } else {
                    break;
                }
            }
        }
        (n, f)
    }
    fn evalm(&mut self, st: &State, e: E) -> u128 {
        self.ar.eval(e, st.mid, &st.model)
    }
    fn mid(&mut self) -> u64 {
        self.next_mid += 1;
        self.next_mid
    }
    fn values_over(&mut self, st: &State, e: E, x: u16) -> Vec<(u8, u64)> {
        let d = st.doms[x as usize];
        let single = self.ar.nsup(e) == 1;
        if single && self.ar.w(e) <= 64 {
            let t = self.ar.table(e);
            return (0..256usize).filter(|v| dom_has(&d, *v as u8)).map(|v| (v as u8, t[v])).collect();
        }
        let mut model = (*st.model).clone();
        let mut out = vec![];
        for v in 0..256usize {
            if dom_has(&d, v as u8) {
                model[x as usize] = v as u8;
                let id = self.mid();
                out.push((v as u8, self.ar.eval(e, id, &model) as u64));
            }
        }
        out
    }
    /// concrete value of a scalar, or a request to decide it
    fn need(&mut self, st: &State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::S(e) => self.need_e(st, *e),
            V::A(_) => Err(Stop::Err("aggregate where a scalar is needed".into())),
        }
    }
    fn need_e(&mut self, st: &State, e: E) -> R<u64> {
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k as u64);
        }
        for (p, v) in st.pins.iter().rev() {
            if *p == e {
                return Ok(*v);
            }
        }
        let (n, x) = self.eff1(st, e);
        if n == 0 {
            return Ok(self.evalm(st, e) as u64);
        }
        if n == 1 && self.ar.nsup(e) == 1 && self.ar.w(e) <= 64 {
            let d = st.doms[x as usize];
            let t = self.ar.table(e);
            let f = t[dom_first(&d).unwrap() as usize];
            let mut same = true;
            'o: for k in 0..4 {
                let mut b = d[k];
                while b != 0 {
                    let i = b.trailing_zeros() as usize;
                    b &= b - 1;
                    if t[k * 64 + i] != f {
                        same = false;
                        break 'o;
                    }
                }
            }
            if same {
                return Ok(f);
            }
        }
        Err(Stop::Conc(e))
    }
    fn need128(&mut self, st: &State, v: &V) -> R<u128> {
        match v {
            V::C(x) => Ok(*x as u128),
            V::W(x) => Ok(**x),
            V::S(e) => {
                if self.ar.w(*e) <= 64 {
                    return self.need_e(st, *e).map(|x| x as u128);
                }
                let (n, _) = self.eff1(st, *e);
                if n == 0 { Ok(self.evalm(st, *e)) } else { Err(Stop::Conc(*e)) }
            }
            V::A(_) => Err(Stop::Err("aggregate where a scalar is needed".into())),
        }
    }
    /// symbolic value simplified if its variables are fixed
    fn settle(&mut self, st: &State, e: E) -> V {
        if self.ar.as_const(e).is_some() {
            return self.mkv(e);
        }
        let (n, _) = self.eff1(st, e);
        if n == 0 {
            let v = self.evalm(st, e);
            vc(self.ar.w(e), v)
        } else {
            V::S(e)
        }
    }

    fn closure(&self, st: &State, vars: &mut Vec<u16>) -> Vec<E> {
        let mut cs = vec![];
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = &self.ar.sets[self.ar.sup[*c as usize] as usize];
                if s.iter().any(|v| vars.contains(v) && dom_count(&st.doms[*v as usize]) > 1) {
                    used[i] = true;
                    ch = true;
                    cs.push(*c);
                    for v in s.iter() {
                        if !vars.contains(v) {
                            vars.push(*v)
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        cs.sort_unstable();
        vars.sort_unstable();
        cs
    }
    /// is `extra` (plus a domain override) satisfiable together with the path condition?
    fn feasible(&mut self, st: &State, extra: &[E], ovr: Option<(u16, Dom)>) -> R<Option<Rc<Vec<(u16, u8)>>>> {
        let mut vars: Vec<u16> = vec![];
        for e in extra {
            for v in self.ar.support(*e).iter() {
                if !vars.contains(v) {
                    vars.push(*v)
                }
            }
        }
        if let Some((v, _)) = ovr {
            if !vars.contains(&v) {
                vars.push(v)
            }
        }
        let mut cs = self.closure(st, &mut vars);
        cs.extend_from_slice(extra);
        let doms: Vec<(u16, Dom)> = vars
            .iter()
            .map(|v| {
                if let Some((x, d)) = ovr {
                    if x == *v {
                        return (*v, d);
                    }
                }
                (*v, st.doms[*v as usize])
            })
            .collect();
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + doms.len() * 5 + 1);
        key.push(cs.len() as u64);
        key.extend(cs.iter().map(|x| *x as u64));
        for (v, d) in &doms {
            key.push(*v as u64);
            key.extend_from_slice(d);
        }
        if let Some(r) = self.qcache.get(&key) {
            return Ok(r.clone());
        }
        let r = match self.solver.check(&mut self.ar, &cs, &doms, true) {
            Res::Sat(m) => Some(Rc::new(m)),
            Res::Unsat => None,
            Res::Unknown => return Err(Stop::Err("solver gave no answer".into())),
        };
        self.qcache.insert(key, r.clone());
        Ok(r)
    }
    fn with_model(&mut self, st: &mut State, upd: &[(u16, u8)]) {
        let m = Rc::make_mut(&mut st.model);
        for (v, x) in upd {
            m[*v as usize] = *x;
        }
        st.mid = self.mid();
    }
    /// the model of st must satisfy c already
    fn add_constraint(&mut self, st: &mut State, c: E) {
        let mut work = vec![c];
        let mut fixed = false;
        while let Some(c) = work.pop() {
            if self.ar.as_const(c).is_some() {
                continue;
            }
            let n = self.ar.nodes[c as usize];
            if n.op == Op::And && n.w == 1 {
                work.push(n.a);
                work.push(n.b);
                continue;
            }
            if n.op == Op::Xor && n.w == 1 && n.b == self.ar.t {
                let i = self.ar.nodes[n.a as usize];
                if i.op == Op::Or {
                    let x = self.ar.not(i.a);
                    let y = self.ar.not(i.b);
                    work.push(x);
                    work.push(y);
                    continue;
                }
            }
            let (k, x) = self.eff1(st, c);
            if k == 0 {
                continue;
            }
            if k == 1 {
                let vs = self.values_over(st, c, x);
                let mut d: Dom = [0; 4];
                for (v, t) in vs {
                    if t == 1 {
                        d[(v >> 6) as usize] |= 1 << (v & 63)
                    }
                }
                if dom_count(&d) == 1 {
                    fixed = true
                }
                Rc::make_mut(&mut st.doms)[x as usize] = d;
                continue;
            }
            if !st.multi.contains(&c) {
                Rc::make_mut(&mut st.multi).push(c);
            }
        }
        if fixed {
            self.propagate(st);
        }
        self.st.max_multi = self.st.max_multi.max(st.multi.len() as u64);
    }
    fn propagate(&mut self, st: &mut State) {
        loop {
            let mut again = false;
            let mut keep = vec![];
            let multi = st.multi.clone();
            for c in multi.iter() {
                let (k, x) = self.eff1(st, *c);
                match k {
                    0 => {}
                    1 => {
                        let vs = self.values_over(st, *c, x);
                        let mut d: Dom = [0; 4];
                        for (v, t) in vs {
                            if t == 1 {
                                d[(v >> 6) as usize] |= 1 << (v & 63)
                            }
                        }
                        Rc::make_mut(&mut st.doms)[x as usize] = d;
                        if dom_count(&d) == 1 {
                            again = true;
                        }
                    }
                    _ => keep.push(*c),
                }
            }
            if keep.len() != st.multi.len() {
                st.multi = Rc::new(keep);
            }
            if !again {
                break;
            }
        }
    }
    fn in_multi(&self, st: &State, x: u16) -> bool {
        st.multi.iter().any(|c| self.ar.sets[self.ar.sup[*c as usize] as usize].contains(&x))
    }
    fn pin(&mut self, st: &mut State, e: E, v: u64) {
        let w = self.ar.w(e);
        let k = self.ar.konst(w, v as u128);
        let q = self.ar.eq(e, k);
        Self::note(st, q);
        let p = Rc::make_mut(&mut st.pins);
        if p.len() >= 24 {
            p.drain(..8);
        }
        p.push((e, v));
    }
    fn note(st: &mut State, c: E) {
        let prev = st.pc.take();
        st.pc = Some(Rc::new(Link { e: c, prev }));
    }
    /// asks Z3 about the path condition as recorded, with `extra`
    fn raw_query(&mut self, pc: &Option<Rc<Link>>, extra: &[E]) -> R<bool> {
        let mut cs: Vec<E> = extra.to_vec();
        let mut p = pc.clone();
        while let Some(l) = p {
            cs.push(l.e);
            p = l.prev.clone();
        }
        match self.solver.check(&mut self.ar, &cs, &[], false) {
            Res::Sat(_) => Ok(true),
            Res::Unsat => Ok(false),
            Res::Unknown => Err(Stop::Err("solver gave no answer (cross-check)".into())),
        }
    }
    /// Z3 confirms that a completed path is feasible and that no input on it breaks an assertion
    fn audit_path(&mut self, st: &State) -> R<()> {
        let n = self.st.paths;
        if n > self.audit_cap && n % 64 != 0 {
            return Ok(());
        }
        self.st.audit_paths += 1;
        if !self.raw_query(&st.pc, &[])? {
            return Err(Stop::Err("cross-check: completed path is infeasible".into()));
        }
        if !st.claims.is_empty() {
            let mut bad = self.ar.f;
            for c in st.claims.iter() {
                let n = self.ar.not(*c);
                bad = self.ar.or1(bad, n);
            }
            if self.raw_query(&st.pc, &[bad])? {
                return Err(Stop::Err("cross-check: an assertion does not hold on the whole path".into()));
            }
        }
        Ok(())
    }
    /// Z3 confirms that no other value of e is possible here
    fn audit_split(&mut self, pc: &Option<Rc<Link>>, e: E, vals: &[u64]) -> R<()> {
        let n = self.st.decisions;
        if n > self.audit_cap && n % 64 != 0 {
            return Ok(());
        }
        self.st.audit_splits += 1;
        let w = self.ar.w(e);
        let mut ex = vec![];
        for v in vals {
            let k = self.ar.konst(w, *v as u128);
            let q = self.ar.eq(e, k);
            ex.push(self.ar.not(q));
        }
        if self.raw_query(pc, &ex)? {
            return Err(Stop::Err("cross-check: a split misses a value".into()));
        }
        Ok(())
    }
    /// decide the value of e on this path; alternatives go to the stack
    fn decide(&mut self, st: &mut State, e: E) -> R<()> {
        self.st.decisions += 1;
        let eff = self.effv(st, e);
        let w = self.ar.w(e);
        if self.profile {
            if let Some(fr) = st.frames.last() {
                let k = (Rc::as_ptr(&fr.f) as usize, fr.blk, fr.ip);
                let mut nm = String::new();
                if !self.hot.contains_key(&k) {
                    for f in st.frames.iter().rev().take(4) {
                        nm.push_str(&short(&f.f.f.name));
                        nm.push_str(" < ");
                    }
                    nm.push_str(&self.ar.show(e, 4));
                }
                self.hot.entry(k).or_insert((nm, 0)).1 += 1;
            }
        }
        if eff.len() == 1 || (eff.len() > 1 && self.ar.nodes[e as usize].op == Op::Var) {
            let x = eff[0];
            let vs = self.values_over(st, e, x);
            let mut groups: BTreeMap<u64, Dom> = BTreeMap::new();
            for (v, k) in vs {
                groups.entry(k).or_insert([0; 4])[(v >> 6) as usize] |= 1 << (v & 63);
            }
            let cur = self.evalm(st, e) as u64;
            let multi = self.in_multi(st, x);
            let pc0 = st.pc.clone();
            let mut taken = vec![cur];
            if groups.len() > 1 {
                self.st.dom_decided += 1;
            }
            for (k, d) in &groups {
                if *k == cur {
                    continue;
                }
                let upd = if multi {
                    match self.feasible(st, &[], Some((x, *d)))? {
                        None => continue,
                        Some(m) => m,
                    }
                } else {
                    Rc::new(vec![(x, dom_first(d).unwrap())])
                };
                let mut s2 = st.clone();
                self.with_model(&mut s2, &upd);
                Rc::make_mut(&mut s2.doms)[x as usize] = *d;
                if dom_count(d) == 1 && multi {
                    self.propagate(&mut s2);
                }
                self.pin(&mut s2, e, *k);
                s2.depth += 1;
                taken.push(*k);
                self.st.forks += 1;
                self.stack.push(s2);
            }
            self.audit_split(&pc0, e, &taken)?;
            let d = groups[&cur];
            Rc::make_mut(&mut st.doms)[x as usize] = d;
            if dom_count(&d) == 1 && multi {
                self.propagate(st);
            }
            self.pin(st, e, cur);
            st.depth += 1;
            return Ok(());
        }
        if eff.is_empty() {
            return Err(Stop::Err("decide: nothing to decide".into()));
        }
        if w == 1 {
            let cur = self.evalm(st, e) == 1;
            let ne = self.ar.not(e);
            let (pos, neg) = if cur { (e, ne) } else { (ne, e) };
            if let Some(m) = self.feasible(st, &[neg], None)? {
                let mut s2 = st.clone();
                self.with_model(&mut s2, &m);
                self.add_constraint(&mut s2, neg);
                self.pin(&mut s2, e, !cur as u64);
                s2.depth += 1;
                self.st.forks += 1;
                self.stack.push(s2);
                self.add_constraint(st, pos);
            }
            self.pin(st, e, cur as u64);
            st.depth += 1;
            return Ok(());
        }
        // several variables, several values
        let prod: f64 = eff.iter().map(|v| dom_count(&st.doms[*v as usize]) as f64).product();
        let mut small = vec![];
        for v in &eff {
            small.push((dom_count(&st.doms[*v as usize]), *v));
        }
        small.sort_unstable();
        let split = w > 64 || prod <= 32.0 || self.size(e, 400) >= 400;
        if !split {
            let cur = self.evalm(st, e) as u64;
            let mut vals: Vec<(u64, Rc<Vec<(u16, u8)>>)> = vec![];
            let ck = self.ar.konst(w, cur as u128);
            let ceq = self.ar.eq(e, ck);
            let mut excl = vec![self.ar.not(ceq)];
            let mut over = false;
            loop {
                match self.feasible(st, &excl, None)? {
                    None => break,
                    Some(m) => {
                        let mut model = (*st.model).clone();
                        for (v, x) in m.iter() {
                            model[*v as usize] = *x;
                        }
                        let id = self.mid();
                        let v = self.ar.eval(e, id, &model) as u64;
                        vals.push((v, m));
                        if vals.len() > self.enum_limit {
                            over = true;
                            break;
                        }
                        let k = self.ar.konst(w, v as u128);
                        let q = self.ar.eq(e, k);
                        excl.push(self.ar.not(q));
                    }
                }
            }
            if !over {
                for (v, m) in vals.iter() {
                    let mut s2 = st.clone();
                    self.with_model(&mut s2, m);
                    let k = self.ar.konst(w, *v as u128);
                    let q = self.ar.eq(e, k);
                    self.add_constraint(&mut s2, q);
                    self.pin(&mut s2, e, *v);
                    s2.depth += 1;
                    self.st.forks += 1;
                    self.stack.push(s2);
                }
                if !vals.is_empty() {
                    self.add_constraint(st, ceq);
                }
                self.pin(st, e, cur);
                st.depth += 1;
                return Ok(());
            }
        }
        let x = small[0].1;
        let xe = self.ar.var(x as u32);
        self.decide(st, xe)
    }
    fn size(&self, e: E, lim: usize) -> usize {
        let mut seen: HashSet<E> = HashSet::new();
        let mut w = vec![e];
        while let Some(x) = w.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() >= lim {
                break;
            }
            let n = self.ar.nodes[x as usize];
            match n.op {
                Op::Const | Op::Var | Op::Tab => {}
                Op::Ite => w.extend([n.a, n.b, n.c]),
                Op::ZExt | Op::SExt | Op::Extract => w.push(n.a),
                _ => w.extend([n.a, n.b]),
            }
        }
        seen.len()
    }

    // ---------------- memory ----------------
    fn load_scalar(&mut self, st: &State, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(x) = st.mem.load_fast(a, n) {
                return Ok(V::C(x & m64(w)));
            }
        }
        if !st.mem.mapped(a, n as u64) {
            return Err(Stop::Panic(format!("memory: load of {} bytes at {:#x}", n, a)));
        }
        let mut e: Option<E> = None;
        let mut all = true;
        let mut conc = 0u128;
        for i in 0..n {
            match st.mem.byte(a + i as u64).unwrap() {
                B::C(c) => conc |= (c as u128) << (8 * i),
                B::S(_) => {
                    all = false;
                    break;
                }
            }
        }
        if all {
            return Ok(vc(w, conc));
        }
        for i in 0..n {
            let b = match st.mem.byte(a + i as u64).unwrap() {
                B::C(c) => self.ar.konst(8, c as u128),
                B::S(s) => {
                    let (k, _) = self.eff1(st, s);
                    if k == 0 {
                        let v = self.evalm(st, s);
                        self.ar.konst(8, v)
                    } else {
                        s
                    }
                }
            };
            e = Some(match e {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let mut e = e.unwrap();
        if w < n as u32 * 8 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.mkv(e))
    }
    fn load_ty(&mut self, st: &State, a: u64, ty: TyId) -> R<V> {
        let w = self.m.types.width(ty);
        if w > 0 {
            return self.load_scalar(st, a, w);
        }
        match self.m.types.ty(ty).clone() {
            Ty::Struct(fs, _) => {
                let offs = self.m.types.lay[ty as usize].offs.clone();
                let mut v = vec![];
                for (f, o) in fs.iter().zip(offs) {
                    v.push(self.load_ty(st, a + o, *f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let n = n_of(self.m.types.ty(ty));
                if self.m.types.width(e) == 1 && matches!(self.m.types.ty(ty), Ty::Vec(..)) {
                    let bits = self.load_scalar(st, a, n as u32)?;
                    return Ok(self.unpack_bits(&bits, n as u32));
                }
                let es = self.m.types.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, a + i * es, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => Err(Stop::Err(format!("load of {:?}", t))),
        }
    }
    fn unpack_bits(&mut self, bits: &V, n: u32) -> V {
        let mut v = vec![];
        for i in 0..n {
            v.push(match bits {
                V::C(x) => V::C(x >> i & 1),
                V::W(x) => V::C((**x >> i & 1) as u64),
                V::S(e) => {
                    let b = self.ar.extract(*e, i, 1);
                    self.mkv(b)
                }
                V::A(_) => unreachable!(),
            });
        }
        V::A(Rc::new(v))
    }
    fn store_scalar(&mut self, st: &mut State, a: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if let V::C(x) = v {
            if n <= 8 && st.mem.store_fast(a, n, *x) {
                return Ok(());
            }
        }
        if a < GLOB_BASE || !st.mem.mapped(a, n as u64) {
            return Err(Stop::Panic(format!("memory: store of {} bytes at {:#x}", n, a)));
        }
        match v {
            V::C(x) => {
                for i in 0..n {
                    st.mem.set(a + i as u64, B::C((x >> (8 * i)) as u8));
                }
            }
            V::W(x) => {
                for i in 0..n {
                    st.mem.set(a + i as u64, B::C((**x >> (8 * i)) as u8));
                }
            }
            V::S(e) => {
                let e = if w < n as u32 * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i as u32, 8);
                    let b = match self.ar.as_const(b) {
                        Some(k) => B::C(k as u8),
                        None => B::S(b),
                    };
                    st.mem.set(a + i as u64, b);
                }
            }
            V::A(_) => return Err(Stop::Err("store of aggregate as scalar".into())),
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: TyId, v: &V) -> R<()> {
        let w = self.m.types.width(ty);
        if w > 0 {
            return self.store_scalar(st, a, w, v);
        }
        let vs = match v {
            V::A(v) => v.clone(),
            _ => return Err(Stop::Err("store: scalar for aggregate type".into())),
        };
        match self.m.types.ty(ty).clone() {
            Ty::Struct(fs, _) => {
                let offs = self.m.types.lay[ty as usize].offs.clone();
                for (i, f) in fs.iter().enumerate() {
                    self.store_ty(st, a + offs[i], *f, &vs[i])?;
                }
                Ok(())
            }
            Ty::Arr(_, e) => {
                let es = self.m.types.size(e);
                for (i, x) in vs.iter().enumerate() {
                    self.store_ty(st, a + es * i as u64, e, x)?;
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                if self.m.types.width(e) == 1 {
                    let x = self.pack(&vs, 1);
                    return self.store_scalar(st, a, n, &x);
                }
                let es = self.m.types.size(e);
                for (i, x) in vs.iter().enumerate() {
                    self.store_ty(st, a + es * i as u64, e, x)?;
                }
                Ok(())
            }
            t => Err(Stop::Err(format!("store of {:?}", t))),
        }
    }
    /// concatenates lanes, lane 0 lowest
    fn pack(&mut self, vs: &[V], w: u32) -> V {
        let tw = w * vs.len() as u32;
        if vs.iter().all(|v| matches!(v, V::C(_))) && tw <= 128 {
            let mut x = 0u128;
            for (i, v) in vs.iter().enumerate() {
                if let V::C(c) = v {
                    x |= (*c as u128) << (w * i as u32);
                }
            }
            return vc(tw, x);
        }
        let mut e = self.to_e(&vs[0], w);
        for v in &vs[1..] {
            let h = self.to_e(v, w);
            e = self.ar.concat(h, e);
        }
        self.mkv(e)
    }
    fn unpack(&mut self, v: &V, w: u32, n: u32) -> V {
        let mut o = vec![];
        for i in 0..n {
            o.push(match v {
                V::C(x) => V::C((x >> (w * i)) & m64(w)),
                V::W(x) => vc(w, **x >> (w * i)),
                V::S(e) => {
                    let b = self.ar.extract(*e, w * i, w);
                    self.mkv(b)
                }
                V::A(_) => unreachable!(),
            });
        }
        V::A(Rc::new(o))
    }
    fn sym_load(&mut self, st: &State, pe: E, ty: TyId) -> R<V> {
        let w = self.m.types.width(ty);
        for (p, v) in st.pins.iter().rev() {
            if *p == pe {
                return self.load_ty(st, *v, ty);
            }
        }
        let (k, x) = self.eff1(st, pe);
        if k == 0 {
            let a = self.evalm(st, pe) as u64;
            return self.load_ty(st, a, ty);
        }
        if w == 0 || w > 64 {
            return Err(Stop::Conc(pe));
        }
        if k == 1 {
            let vs = self.values_over(st, pe, x);
            let n = ((w + 7) / 8) as usize;
            let mut tab = [0u64; 256];
            let mut conc = true;
            for (v, a) in &vs {
                match st.mem.load_fast(*a, n) {
                    Some(c) => tab[*v as usize] = c & m64(w),
                    None => {
                        if !st.mem.mapped(*a, n as u64) {
                            return Err(Stop::Conc(pe));
                        }
                        conc = false;
                        break;
                    }
                }
            }
            if conc {
                let f = tab[vs[0].0 as usize];
                let d = st.doms[x as usize];
                for i in 0..256 {
                    if !dom_has(&d, i as u8) {
                        tab[i] = f;
                    }
                }
                let e = self.ar.tab(x, tab, w);
                return Ok(self.mkv(e));
            }
            let mut addrs: Vec<u64> = vs.iter().map(|x| x.1).collect();
            addrs.sort_unstable();
            addrs.dedup();
            if addrs.len() <= 64 {
                return self.ite_load(st, pe, &addrs, w);
            }
            return Err(Stop::Conc(pe));
        }
        let mut leaves = vec![];
        if self.leaves(pe, &mut leaves, 32) {
            leaves.sort_unstable();
            leaves.dedup();
            if leaves.iter().all(|a| st.mem.mapped(*a, ((w + 7) / 8) as u64)) {
                return self.ite_load(st, pe, &leaves, w);
            }
        }
        Err(Stop::Conc(pe))
    }
    fn ite_load(&mut self, st: &State, pe: E, addrs: &[u64], w: u32) -> R<V> {
        let mut r: Option<E> = None;
        for a in addrs.iter() {
            let v = self.load_scalar(st, *a, w)?;
            let ve = self.to_e(&v, w);
            r = Some(match r {
                None => ve,
                Some(o) => {
                    let k = self.ar.konst(64, *a as u128);
                    let c = self.ar.eq(pe, k);
                    self.ar.ite(c, ve, o)
                }
            });
        }
        Ok(self.mkv(r.unwrap()))
    }
    fn leaves(&self, e: E, out: &mut Vec<u64>, lim: usize) -> bool {
        if let Some(k) = self.ar.as_const(e) {
            out.push(k as u64);
            return out.len() <= lim;
        }
        let n = self.ar.nodes[e as usize];
        if n.op == Op::Ite {
            return self.leaves(n.b, out, lim) && self.leaves(n.c, out, lim);
        }
        false
    }

    // ---------------- scalar operations ----------------
    fn binop(&mut self, st: &State, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = m64(w);
                let (x, y) = (*x, *y);
                let r = match op {
                    Bin::Add => x.wrapping_add(y) & m,
                    Bin::Sub => x.wrapping_sub(y) & m,
                    Bin::Mul => x.wrapping_mul(y) & m,
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::AShr => {
                        let s = sx64(x, w);
                        (s >> y.min(63)) as u64 & m
                    }
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        if y == 0 {
                            return Err(Stop::Panic("division by zero".into()));
                        }
                        let (sa, sb) = (sx64(x, w), sx64(y, w));
                        (match op {
                            Bin::UDiv => x / y,
                            Bin::URem => x % y,
                            Bin::SDiv => sa.wrapping_div(sb) as u64,
                            _ => sa.wrapping_rem(sb) as u64,
                        }) & m
                    }
                    _ => {
                        if w == 32 {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits() as u64
                        } else {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            (match op { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits()
                        }
                    }
                };
                return Ok(V::C(r));
            }
        }
        let o = match op {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem,
            Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr,
            _ => {
                let x = self.need(st, a)?;
                let y = self.need(st, b)?;
                return self.binop(st, op, w, &V::C(x), &V::C(y));
            }
        };
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
            // a symbolic divisor is decided first
            let d = self.need128(st, b)?;
            if d == 0 {
                return Err(Stop::Panic("division by zero".into()));
            }
        }
        if let (V::W(x), V::W(y)) = (a, b) {
            return Ok(vc(w, fold(o, w, **x, **y)));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.ar.bin(o, x, y);
        Ok(self.mkv(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx64(x, w), sx64(y, w));
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s > t, Pred::Sge => s >= t, Pred::Slt => s < t, Pred::Sle => s <= t,
            };
            return V::C(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        self.mkv(r)
    }
    fn cast(&mut self, st: &State, op: CastOp, ft: TyId, tt: TyId, a: &V) -> R<V> {
        if let V::A(vs) = a {
            // vector cast
            if op == CastOp::BitCast {
                let (fw, fe) = match self.m.types.ty(ft) {
                    Ty::Vec(_, e) => (self.m.types.width(*e), *e),
                    _ => return Err(Stop::Err("bitcast aggregate".into())),
                };
                let _ = fe;
                match self.m.types.ty(tt).clone() {
                    Ty::Vec(n, e) => {
                        let tw = self.m.types.width(e);
                        if tw == fw {
                            return Ok(a.clone());
                        }
                        let total = fw * vs.len() as u32;
                        if total <= 128 {
                            let p = self.pack(vs, fw);
                            return Ok(self.unpack(&p, tw, n));
                        }
                        // chunked
                        let chunk = fw.max(tw);
                        let mut out = vec![];
                        let per = (chunk / fw) as usize;
                        for c in vs.chunks(per) {
                            let p = self.pack(c, fw);
                            if let V::A(x) = self.unpack(&p, tw, chunk / tw) {
                                out.extend(x.iter().cloned());
                            }
                        }
                        return Ok(V::A(Rc::new(out)));
                    }
                    _ => return Ok(self.pack(vs, fw)),
                }
            }
            let (fe, te) = match (self.m.types.ty(ft), self.m.types.ty(tt)) {
                (Ty::Vec(_, x), Ty::Vec(_, y)) => (*x, *y),
                _ => return Err(Stop::Err("vector cast".into())),
            };
            let mut o = vec![];
            for v in vs.iter() {
                o.push(self.cast(st, op, fe, te, v)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if op == CastOp::BitCast {
            if let Ty::Vec(n, e) = self.m.types.ty(tt).clone() {
                let w = self.m.types.width(e);
                return Ok(self.unpack(a, w, n));
            }
        }
        let fw = self.m.types.width(ft);
        let tw = self.m.types.width(tt);
        let float = matches!(op, CastOp::FpToUi | CastOp::FpToSi | CastOp::UiToFp | CastOp::SiToFp | CastOp::FpExt | CastOp::FpTrunc);
        if float {
            let x = self.need128(st, a)?;
            let f = |x: u128| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            let r = match op {
                CastOp::FpToUi => f(x) as u128,
                CastOp::FpToSi => (f(x) as i128) as u128,
                CastOp::UiToFp => if tw == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
                CastOp::SiToFp => {
                    let s = sx(x, fw);
                    if tw == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
                }
                CastOp::FpExt => f(x).to_bits() as u128,
                _ => (f(x) as f32).to_bits() as u128,
            };
            return Ok(vc(tw, r));
        }
        match a {
            V::C(x) => Ok(match op {
                CastOp::SExt => vc(tw, sx64(*x, fw) as i128 as u128),
                _ => vc(tw, *x as u128),
            }),
            V::W(x) => Ok(match op {
                CastOp::SExt => vc(tw, sx(**x, fw) as u128),
                _ => vc(tw, **x),
            }),
            V::S(e) => {
                let r = match op {
                    CastOp::SExt => self.ar.sext(*e, tw),
                    _ => if tw < fw { self.ar.extract(*e, 0, tw) } else if tw > fw { self.ar.zext(*e, tw) } else { *e },
                };
                Ok(self.mkv(r))
            }
            V::A(_) => unreachable!(),
        }
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, ty: TyId) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let tys: Vec<TyId> = match self.m.types.ty(ty) {
                    Ty::Struct(fs, _) => fs.clone(),
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![*e; x.len()],
                    _ => unreachable!(),
                };
                let v = (0..x.len()).map(|i| self.ite_v(c, &x[i], &y[i], tys[i])).collect();
                V::A(Rc::new(v))
            }
            _ => {
                let w = self.m.types.width(ty);
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ar.ite(c, x, y);
                self.mkv(r)
            }
        }
    }

    // ---------------- main loop ----------------
    pub fn initial(&mut self, fi: u32) -> State {
        let f = self.fun(fi);
        let mut mem = self.base_mem.clone();
        let z = mem.zero.clone();
        mem.stack.grow(mem.sp + 64, &z);
        mem.heap.grow(mem.hp + 64, &z);
        let sp = mem.sp;
        let regs = vec![V::C(0); f.f.nregs as usize];
        State {
            frames: vec![Frame { f, blk: 0, ip: 0, regs, dst: NODST, normal: NONORMAL, sp }],
            mem, doms: Rc::new(vec![]), multi: Rc::new(vec![]), model: Rc::new(vec![]), mid: self.mid(), pins: Rc::new(vec![]), pc: None, claims: Rc::new(vec![]), depth: 0, obs: Rc::new(vec![]), ninput: 0, steps: 0,
        }
    }
    fn input(&self, st: &State) -> Vec<u8> {
        st.model[..st.ninput as usize].to_vec()
    }
    fn violation(&mut self, st: &State, id: String) {
        let input = self.input(st);
        let n = self.viol_ids.entry(id.clone()).or_insert(0);
        *n += 1;
        if *n <= 8 {
            self.out.push(Outcome::Violation { id, input });
        }
    }
    pub fn obs_hash(&mut self, st: &State) -> u64 {
        let obs = st.obs.clone();
        let mut h = 0xcbf29ce484222325u64;
        for v in obs.iter() {
            let b = match v {
                V::C(x) => *x as u8,
                V::S(e) => self.evalm(st, *e) as u8,
                _ => 0,
            };
            h = fnv(h, &[b]);
        }
        h
    }
    pub fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(12).map(|f| short(&f.f.f.name)).collect::<Vec<_>>().join(" < ")
    }
    /// runs one state to its end
    pub fn run(&mut self, mut st: State, hook: &mut dyn FnMut(&mut Exec)) {
        loop {
            let s0 = st.steps;
            let r = self.go(&mut st);
            self.st.steps += st.steps - s0;
            match r {
                Stop::Conc(e) => {
                    match self.decide(&mut st, e) {
                        Ok(()) => {
                            hook(self);
                            continue;
                        }
                        Err(Stop::Err(m)) => {
                            let bt = self.backtrace(&st);
                            self.st.errors += 1;
                            let input = self.input(&st);
                            self.out.push(Outcome::Error { msg: format!("{m} at {bt}"), input });
                        }
                        Err(_) => {}
                    }
                    return;
                }
                Stop::Kill => {
                    self.st.rejected += 1;
                    return;
                }
                Stop::Done => {
                    self.st.paths += 1;
                    if let Err(Stop::Err(m)) = self.audit_path(&st) {
                        self.st.errors += 1;
                        let input = self.input(&st);
                        self.out.push(Outcome::Error { msg: m, input });
                        return;
                    }
                    let obs = self.obs_hash(&st);
                    let input = self.input(&st);
                    self.out.push(Outcome::Path { input, obs });
                    return;
                }
                Stop::Panic(m) => {
                    self.st.panics += 1;
                    let bt = self.backtrace(&st);
                    self.violation(&st, format!("abort: {m} at {bt}"));
                    return;
                }
                Stop::Err(m) => {
                    self.st.errors += 1;
                    let bt = self.backtrace(&st);
                    let input = self.input(&st);
                    self.out.push(Outcome::Error { msg: format!("{m} at {bt}"), input });
                    return;
                }
            }
        }
    }
    fn go(&mut self, st: &mut State) -> Stop {
        let mut fr = match st.frames.pop() {
            Some(f) => f,
            None => return Stop::Done,
        };
        let lim = self.max_steps;
        loop {
            let f = fr.f.clone();
            // executes within one frame until call/return
            let r = self.frame(st, &mut fr, &f);
            match r {
                Ok(Next::Call(nf)) => {
                    st.frames.push(std::mem::replace(&mut fr, nf));
                    if st.frames.len() > 5000 {
                        st.frames.push(fr);
                        return Stop::Panic("stack overflow".into());
                    }
                    if self.trace {
                        eprintln!("{:w$}> {}", "", short(&fr.f.f.name), w = st.frames.len());
                    }
                }
                Ok(Next::Ret(v)) => {
                    st.mem.sp = fr.sp;
                    match st.frames.pop() {
                        None => return Stop::Done,
                        Some(mut up) => {
                            if fr.dst != NODST {
                                up.regs[fr.dst as usize] = v.unwrap_or(V::C(0));
                            }
                            let normal = fr.normal;
                            fr = up;
                            if normal != NONORMAL {
                                if let Err(e) = self.jump(&mut fr, normal) {
                                    st.frames.push(fr);
                                    return e;
                                }
                            } else {
                                fr.ip += 1;
                            }
                        }
                    }
                }
                Err(s) => {
                    st.frames.push(fr);
                    return s;
                }
            }
            if st.steps > lim {
                st.frames.push(fr);
                return Stop::Err("step limit".into());
            }
        }
    }
    #[inline(always)]
    fn get<'a>(fr: &'a Frame, f: &'a Fun, o: Opd) -> &'a V {
        if o.is_const() { &f.consts[o.idx()] } else { &fr.regs[o.idx()] }
    }
    fn jump(&mut self, fr: &mut Frame, to: u32) -> R<()> {
        let f = fr.f.clone();
        let b = &f.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = fr.blk;
            if let Some((_, moves)) = b.phis.iter().find(|x| x.0 == from) {
                if moves.len() == 1 {
                    let v = Self::get(fr, &f, moves[0].1).clone();
                    fr.regs[moves[0].0 as usize] = v;
                } else {
                    let vs: Vec<V> = moves.iter().map(|(_, o)| Self::get(fr, &f, *o).clone()).collect();
                    for ((d, _), v) in moves.iter().zip(vs) {
                        fr.regs[*d as usize] = v;
                    }
                }
            } else {
                return Err(Stop::Err("phi without entry for predecessor".into()));
            }
        }
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    fn frame(&mut self, st: &mut State, fr: &mut Frame, f: &Rc<Fun>) -> R<Next> {
        loop {
            let blk = &f.f.blocks[fr.blk as usize];
            let n = blk.insts.len();
            while (fr.ip as usize) < n {
                st.steps += 1;
                match &blk.insts[fr.ip as usize] {
                    Inst::Bin { op, w, lanes, dst, a, b } => {
                        let r = if *lanes == 0 {
                            let (x, y) = (Self::get(fr, f, *a), Self::get(fr, f, *b));
                            if let (V::C(p), V::C(q), Bin::Add) = (x, y, *op) {
                                V::C(p.wrapping_add(*q) & m64(*w))
                            } else {
                                self.binop(st, *op, *w, x, y)?
                            }
                        } else {
                            let (x, y) = (Self::get(fr, f, *a).clone(), Self::get(fr, f, *b).clone());
                            self.lanes2(&x, &y, |s, p, q| s.binop(st, *op, *w, p, q))?
                        };
                        fr.regs[*dst as usize] = r;
                    }
                    Inst::ICmp { p, w, lanes, dst, a, b } => {
                        let r = if *lanes == 0 {
                            self.icmp(*p, *w, Self::get(fr, f, *a), Self::get(fr, f, *b))
                        } else {
                            let (x, y) = (Self::get(fr, f, *a).clone(), Self::get(fr, f, *b).clone());
                            self.lanes2(&x, &y, |s, q, r| Ok(s.icmp(*p, *w, q, r)))?
                        };
                        fr.regs[*dst as usize] = r;
                    }
                    Inst::Load { ty, dst, p } => {
                        let r = match Self::get(fr, f, *p) {
                            V::C(a) => {
                                let a = *a;
                                let w = self.m.types.width(*ty);
                                if w > 0 { self.load_scalar(st, a, w)? } else { self.load_ty(st, a, *ty)? }
                            }
                            V::S(e) => {
                                let e = *e;
                                self.sym_load(st, e, *ty)?
                            }
                            _ => return Err(Stop::Err("bad pointer".into())),
                        };
                        fr.regs[*dst as usize] = r;
                    }
                    Inst::Store { ty, v, p } => {
                        let pv = Self::get(fr, f, *p).clone();
                        let a = self.need(st, &pv)?;
                        let v = Self::get(fr, f, *v).clone();
                        self.store_ty(st, a, *ty, &v)?;
                    }
                    Inst::Gep { dst, base, off, idx } => {
                        let bv = Self::get(fr, f, *base);
                        let mut all = matches!(bv, V::C(_));
                        let mut acc = if let V::C(x) = bv { x.wrapping_add(*off as u64) } else { *off as u64 };
                        for (o, sc, w) in idx {
                            match Self::get(fr, f, *o) {
                                V::C(x) => acc = acc.wrapping_add((sx64(*x, *w).wrapping_mul(*sc)) as u64),
                                _ => all = false,
                            }
                        }
                        let r = if all {
                            V::C(acc)
                        } else {
                            let mut e = match bv {
                                V::S(b) => {
                                    let b = *b;
                                    let k = self.ar.konst(64, acc as u128);
                                    self.ar.bin(Op::Add, b, k)
                                }
                                _ => self.ar.konst(64, acc as u128),
                            };
                            for (o, sc, w) in idx {
                                if let V::S(i) = Self::get(fr, f, *o) {
                                    let i = self.ar.sext(*i, 64);
                                    let _ = w;
                                    let k = self.ar.konst(64, *sc as u64 as u128);
                                    let t = self.ar.bin(Op::Mul, i, k);
                                    e = self.ar.bin(Op::Add, e, t);
                                }
                            }
                            self.mkv(e)
                        };
                        fr.regs[*dst as usize] = r;
                    }
                    Inst::Cast { op, ft, tt, dst, a } => {
                        let v = Self::get(fr, f, *a).clone();
                        fr.regs[*dst as usize] = self.cast(st, *op, *ft, *tt, &v)?;
                    }
                    Inst::Br(t) => {
                        self.jump(fr, *t)?;
                        break;
                    }
                    Inst::CondBr(c, t, e) => {
                        let k = match Self::get(fr, f, *c) {
                            V::C(x) => *x,
                            v => {
                                let v = v.clone();
                                self.need(st, &v)?
                            }
                        };
                        let to = if k & 1 == 1 { *t } else { *e };
                        self.jump(fr, to)?;
                        break;
                    }
                    Inst::Switch(v, w, d, cs) => {
                        let v = Self::get(fr, f, *v).clone();
                        let to = match &v {
                            V::C(x) => cs.iter().find(|c| c.0 == *x as u128).map(|c| c.1).unwrap_or(*d),
                            V::W(x) => cs.iter().find(|c| c.0 == **x).map(|c| c.1).unwrap_or(*d),
                            V::S(e) => self.sym_switch(st, *e, *w, *d, cs)?,
                            V::A(_) => return Err(Stop::Err("switch on aggregate".into())),
                        };
                        self.jump(fr, to)?;
                        break;
                    }
                    Inst::Select { w, vecc, dst, c, a, b, ty } => {
                        let _ = w;
                        let cv = Self::get(fr, f, *c);
                        let r = if *vecc > 0 {
                            let (cv, x, y) = (cv.clone(), Self::get(fr, f, *a).clone(), Self::get(fr, f, *b).clone());
                            let et = match self.m.types.ty(*ty) {
                                Ty::Vec(_, e) => *e,
                                _ => return Err(Stop::Err("vector select".into())),
                            };
                            match (&cv, &x, &y) {
                                (V::A(cv), V::A(x), V::A(y)) => {
                                    let mut o = vec![];
                                    for i in 0..cv.len() {
                                        o.push(match &cv[i] {
                                            V::C(1) => x[i].clone(),
                                            V::C(_) => y[i].clone(),
                                            V::S(e) => self.ite_v(*e, &x[i], &y[i], et),
                                            _ => return Err(Stop::Err("vector select".into())),
                                        });
                                    }
                                    V::A(Rc::new(o))
                                }
                                _ => return Err(Stop::Err("vector select".into())),
                            }
                        } else {
                            match cv {
                                V::C(x) => if *x & 1 == 1 { Self::get(fr, f, *a).clone() } else { Self::get(fr, f, *b).clone() },
                                V::S(e) => {
                                    let e = *e;
                                    let (x, y) = (Self::get(fr, f, *a).clone(), Self::get(fr, f, *b).clone());
                                    // pointers stay concrete: selecting between addresses forks
                                    if *self.m.types.ty(*ty) == Ty::Ptr {
                                        let k = self.need_e(st, e)?;
                                        if k == 1 { x } else { y }
                                    } else {
                                        self.ite_v(e, &x, &y, *ty)
                                    }
                                }
                                _ => return Err(Stop::Err("select".into())),
                            }
                        };
                        fr.regs[*dst as usize] = r;
                    }
                    Inst::Alloca { size, align, n, dst } => {
                        let k = match n {
                            None => 1,
                            Some(o) => {
                                let v = Self::get(fr, f, *o).clone();
                                self.need(st, &v)?
                            }
                        };
                        let p = st.mem.alloca(*size * k, *align);
                        fr.regs[*dst as usize] = V::C(p);
                    }
                    Inst::ExtractValue { dst, a, path } => {
                        let mut v = Self::get(fr, f, *a).clone();
                        for i in path {
                            v = match v {
                                V::A(x) => x[*i as usize].clone(),
                                _ => return Err(Stop::Err("extractvalue".into())),
                            };
                        }
                        fr.regs[*dst as usize] = v;
                    }
                    Inst::InsertValue { dst, a, v, path } => {
                        let mut base = Self::get(fr, f, *a).clone();
                        let x = Self::get(fr, f, *v).clone();
                        insert(&mut base, path, x);
                        fr.regs[*dst as usize] = base;
                    }
                    Inst::ExtractElem { dst, a, i } => {
                        let iv = Self::get(fr, f, *i).clone();
                        let i = self.need(st, &iv)?;
                        let v = match Self::get(fr, f, *a) {
                            V::A(x) => x[i as usize].clone(),
                            _ => return Err(Stop::Err("extractelement".into())),
                        };
                        fr.regs[*dst as usize] = v;
                    }
                    Inst::InsertElem { dst, a, v, i } => {
                        let iv = Self::get(fr, f, *i).clone();
                        let i = self.need(st, &iv)?;
                        let mut base = Self::get(fr, f, *a).clone();
                        let x = Self::get(fr, f, *v).clone();
                        insert(&mut base, &[i as u32], x);
                        fr.regs[*dst as usize] = base;
                    }
                    Inst::Shuffle { dst, a, b, mask } => {
                        let v = match (Self::get(fr, f, *a), Self::get(fr, f, *b)) {
                            (V::A(x), V::A(y)) => mask
                                .iter()
                                .map(|m| {
                                    let m = (*m).max(0) as usize;
                                    if m < x.len() { x[m].clone() } else { y[m - x.len()].clone() }
                                })
                                .collect(),
                            _ => return Err(Stop::Err("shufflevector".into())),
                        };
                        fr.regs[*dst as usize] = V::A(Rc::new(v));
                    }
                    Inst::Freeze { dst, a } => {
                        let v = Self::get(fr, f, *a).clone();
                        fr.regs[*dst as usize] = v;
                    }
                    Inst::FNeg { w, lanes, dst, a } => {
                        let v = Self::get(fr, f, *a).clone();
                        if *lanes > 0 {
                            return Err(Stop::Err("vector fneg".into()));
                        }
                        let x = self.need(st, &v)?;
                        fr.regs[*dst as usize] = V::C(x ^ (1u64 << (w - 1)));
                    }
                    Inst::FCmp { p, w, lanes, dst, a, b } => {
                        let (x, y) = (Self::get(fr, f, *a).clone(), Self::get(fr, f, *b).clone());
                        let (p, w) = (*p, *w);
                        let r = if *lanes == 0 { self.fcmp(st, p, w, &x, &y)? } else { self.lanes2(&x, &y, |s, q, r| s.fcmp(st, p, w, q, r))? };
                        fr.regs[*dst as usize] = r;
                    }
                    Inst::CmpXchg { dst, p, c, n, ty } => {
                        let pv = Self::get(fr, f, *p).clone();
                        let a = self.need(st, &pv)?;
                        let w = self.m.types.width(*ty);
                        let old = self.load_scalar(st, a, w)?;
                        let cv = Self::get(fr, f, *c).clone();
                        let eq = self.icmp(Pred::Eq, w, &old, &cv);
                        let k = self.need(st, &eq)?;
                        if k == 1 {
                            let nv = Self::get(fr, f, *n).clone();
                            self.store_scalar(st, a, w, &nv)?;
                        }
                        fr.regs[*dst as usize] = V::A(Rc::new(vec![old, V::C(k)]));
                    }
                    Inst::Rmw { op, dst, p, v, ty } => {
                        let pv = Self::get(fr, f, *p).clone();
                        let a = self.need(st, &pv)?;
                        let w = self.m.types.width(*ty);
                        let old = self.load_scalar(st, a, w)?;
                        let x = Self::get(fr, f, *v).clone();
                        let nv = match *op {
                            "xchg" => x,
                            "add" => self.binop(st, Bin::Add, w, &old, &x)?,
                            "sub" => self.binop(st, Bin::Sub, w, &old, &x)?,
                            "and" => self.binop(st, Bin::And, w, &old, &x)?,
                            "or" => self.binop(st, Bin::Or, w, &old, &x)?,
                            "xor" => self.binop(st, Bin::Xor, w, &old, &x)?,
                            o => {
                                let p = match o { "umax" => Pred::Ugt, "umin" => Pred::Ult, "max" => Pred::Sgt, _ => Pred::Slt };
                                let c = self.icmp(p, w, &old, &x);
                                let k = self.need(st, &c)?;
                                if k == 1 { old.clone() } else { x }
                            }
                        };
                        self.store_scalar(st, a, w, &nv)?;
                        if *dst != NODST {
                            fr.regs[*dst as usize] = old;
                        }
                    }
                    Inst::Call { dst, callee, args, argt, ret, normal } => {
                        let mut fi = None;
                        let mut ext: Option<String> = None;
                        match callee {
                            Callee::Direct(i) => fi = Some(*i),
                            Callee::Intrinsic(k, n) => {
                                let v: Vec<V> = args.iter().map(|a| Self::get(fr, f, *a).clone()).collect();
                                let r = self.intrinsic(st, k, n, &v, argt, *ret)?;
                                if *dst != NODST {
                                    fr.regs[*dst as usize] = r;
                                }
                            }
                            Callee::Extern(n) => ext = Some(n.clone()),
                            Callee::Ptr(o) => {
                                let pv = Self::get(fr, f, *o).clone();
                                let a = self.need(st, &pv)?;
                                if a >= FN_BASE && a < FN_BASE + 16 * self.m.funcs.len() as u64 && a % 16 == 0 {
                                    fi = Some(((a - FN_BASE) / 16) as u32);
                                } else if a >= EXT_BASE && a < FN_BASE {
                                    ext = Some(String::from_utf8_lossy(&self.ext_names[((a - EXT_BASE) / 4) as usize]).to_string());
                                } else {
                                    return Err(Stop::Panic(format!("memory: call through {:#x}", a)));
                                }
                            }
                            Callee::Asm(t) => {
                                let r = if t.contains("cpuid") || t.starts_with('|') || t.contains("xgetbv") {
                                    self.zero(*ret)
                                } else {
                                    return Err(Stop::Err(format!("inline asm {t}")));
                                };
                                if *dst != NODST {
                                    fr.regs[*dst as usize] = r;
                                }
                            }
                        }
                        if let Some(i) = fi {
                            if self.m.funcs[i as usize].is_panic {
                                return Err(Stop::Panic(short(&self.m.funcs[i as usize].name)));
                            }
                            let nf = self.fun(i);
                            if !self.seen_v[i as usize] {
                                self.seen_v[i as usize] = true;
                                self.seen.insert(i);
                            }
                            let mut regs = Vec::with_capacity(nf.f.nregs as usize);
                            for a in args.iter().take(nf.f.nparams as usize) {
                                let v = Self::get(fr, f, *a);
                                regs.push(match v {
                                    V::S(e) => {
                                        let e = *e;
                                        self.settle(st, e)
                                    }
                                    v => v.clone(),
                                });
                            }
                            regs.resize(nf.f.nregs as usize, V::C(0));
                            return Ok(Next::Call(Frame { f: nf, blk: 0, ip: 0, regs, dst: *dst, normal: *normal, sp: st.mem.sp }));
                        }
                        if let Some(n) = ext {
                            let v: Vec<V> = args.iter().map(|a| Self::get(fr, f, *a).clone()).collect();
                            let r = self.external(st, &n, &v, *ret)?;
                            if *dst != NODST {
                                fr.regs[*dst as usize] = r;
                            }
                        }
                        if *normal != NONORMAL {
                            self.jump(fr, *normal)?;
                            break;
                        }
                    }
                    Inst::Ret(v) => {
                        let v = v.map(|o| match Self::get(fr, f, o) {
                            V::S(e) => {
                                let e = *e;
                                self.settle(st, e)
                            }
                            v => v.clone(),
                        });
                        return Ok(Next::Ret(v));
                    }
                    Inst::Unreachable => return Err(Stop::Panic("unreachable code reached".into())),
                    Inst::Nop => {}
                    Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {s}"))),
                }
                fr.ip += 1;
            }
            if st.steps > self.max_steps {
                return Err(Stop::Err("step limit".into()));
            }
        }
    }
    fn lanes2(&mut self, x: &V, y: &V, mut g: impl FnMut(&mut Self, &V, &V) -> R<V>) -> R<V> {
        match (x, y) {
            (V::A(a), V::A(b)) => {
                let mut o = Vec::with_capacity(a.len());
                for (p, q) in a.iter().zip(b.iter()) {
                    o.push(g(self, p, q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Err(Stop::Err("vector operands".into())),
        }
    }
    fn fcmp(&mut self, st: &State, p: u8, w: u32, a: &V, b: &V) -> R<V> {
        let x = self.need(st, a)?;
        let y = self.need(st, b)?;
        let (x, y) = if w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
        let un = x.is_nan() || y.is_nan();
        let bits = p;
        // LLVM fcmp encoding: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
        let r = (bits & 8 != 0 && un) || (!un && ((bits & 1 != 0 && x == y) || (bits & 2 != 0 && x > y) || (bits & 4 != 0 && x < y)));
        Ok(V::C(r as u64))
    }
    fn sym_switch(&mut self, st: &State, e: E, w: u32, d: u32, cs: &[(u128, u32)]) -> R<u32> {
        // one decision per distinct target: cases with the same target are one condition
        if let Some(k) = self.ar.as_const(e) {
            return Ok(cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(d));
        }
        // encode the target as an expression and decide that
        let mut t = self.ar.konst(32, d as u128);
        for (k, b) in cs.iter().rev() {
            let kk = self.ar.konst(w, *k);
            let c = self.ar.eq(e, kk);
            let bb = self.ar.konst(32, *b as u128);
            t = self.ar.ite(c, bb, t);
        }
        let v = self.need_e(st, t)?;
        Ok(v as u32)
    }

    // ---------------- memory intrinsics ----------------
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if d < GLOB_BASE || !st.mem.copy(d, s, n) {
            return Err(Stop::Panic(format!("memory: copy of {n} bytes {s:#x} -> {d:#x}")));
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if d < GLOB_BASE || !st.mem.mapped(d, n) {
            return Err(Stop::Panic(format!("memory: set of {n} bytes at {d:#x}")));
        }
        match v {
            V::S(e) => {
                for i in 0..n {
                    st.mem.set(d + i, B::S(*e));
                }
            }
            V::C(x) => {
                let w = u64::from_le_bytes([*x as u8; 8]);
                let mut i = 0;
                while i + 8 <= n && st.mem.store_fast(d + i, 8, w) {
                    i += 8;
                }
                while i < n {
                    st.mem.set(d + i, B::C(*x as u8));
                    i += 1;
                }
            }
            _ => return Err(Stop::Err("memset".into())),
        }
        Ok(())
    }
    fn bytes_at(&mut self, st: &State, a: u64, n: u64) -> R<Vec<V>> {
        if n > 0 && !st.mem.mapped(a, n) {
            return Err(Stop::Panic(format!("memory: read of {n} bytes at {a:#x}")));
        }
        let mut o = vec![];
        for i in 0..n {
            o.push(match st.mem.byte(a + i).unwrap() {
                B::C(c) => V::C(c as u64),
                B::S(e) => self.settle(st, e),
            });
        }
        Ok(o)
    }
    fn memcmp(&mut self, st: &State, a: u64, b: u64, n: u64, eqonly: bool) -> R<V> {
        let x = self.bytes_at(st, a, n)?;
        let y = self.bytes_at(st, b, n)?;
        let mut r = self.ar.konst(32, 0);
        if eqonly {
            let mut ne = self.ar.f;
            for i in 0..n as usize {
                if let (V::C(p), V::C(q)) = (&x[i], &y[i]) {
                    if p != q {
                        return Ok(V::C(1));
                    }
                    continue;
                }
                let (p, q) = (self.to_e(&x[i], 8), self.to_e(&y[i], 8));
                let e = self.ar.eq(p, q);
                let d = self.ar.not(e);
                ne = self.ar.or1(ne, d);
            }
            let one = self.ar.konst(32, 1);
            let e = self.ar.ite(ne, one, r);
            return Ok(self.mkv(e));
        }
        for i in (0..n as usize).rev() {
            if let (V::C(p), V::C(q)) = (&x[i], &y[i]) {
                if p != q {
                    r = self.ar.konst(32, if p < q { u32::MAX as u128 } else { 1 });
                }
                continue;
            }
            let (p, q) = (self.to_e(&x[i], 8), self.to_e(&y[i], 8));
            let e = self.ar.eq(p, q);
            let l = self.ar.bin(Op::Ult, p, q);
            let m1 = self.ar.konst(32, u32::MAX as u128);
            let p1 = self.ar.konst(32, 1);
            let d = self.ar.ite(l, m1, p1);
            r = self.ar.ite(e, r, d);
        }
        Ok(self.mkv(r))
    }
    fn intrinsic(&mut self, st: &mut State, k: &str, name: &str, a: &[V], at: &[TyId], ret: TyId) -> R<V> {
        // vector forms are handled lane by lane
        if let Ty::Vec(n, e) = self.m.types.ty(ret).clone() {
            if a.iter().any(|v| matches!(v, V::A(_))) && !k.starts_with("x86") {
                let mut out = vec![];
                for i in 0..n as usize {
                    let la: Vec<V> = a.iter().map(|v| if let V::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                    let lt: Vec<TyId> = at.iter().map(|t| if let Ty::Vec(_, e) = self.m.types.ty(*t) { *e } else { *t }).collect();
                    out.push(self.intrinsic(st, k, name, &la, &lt, e)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        let w = self.m.types.width(ret);
        match k {
            "memcpy" | "memmove" => {
                let d = self.need(st, &a[0])?;
                let s = self.need(st, &a[1])?;
                let n = self.need(st, &a[2])?;
                self.memcpy(st, d, s, n)?;
                Ok(V::C(0))
            }
            "memset" => {
                let d = self.need(st, &a[0])?;
                let n = self.need(st, &a[2])?;
                self.memset(st, d, &a[1], n)?;
                Ok(V::C(0))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match k { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                let c = self.icmp(p, w, &a[0], &a[1]);
                Ok(match c {
                    V::C(1) => a[0].clone(),
                    V::C(_) => a[1].clone(),
                    V::S(e) => self.ite_v(e, &a[0], &a[1], ret),
                    _ => return Err(Stop::Err("minmax".into())),
                })
            }
            "uadd.with.overflow" | "sadd.with.overflow" | "usub.with.overflow" | "ssub.with.overflow" | "umul.with.overflow" | "smul.with.overflow" => {
                let w = self.m.types.width(at[0]);
                let op = if k.contains("add") { Bin::Add } else if k.contains("sub") { Bin::Sub } else { Bin::Mul };
                let signed = k.starts_with('s');
                let r = self.binop(st, op, w, &a[0], &a[1])?;
                let o = match (&a[0], &a[1]) {
                    (V::C(_), V::C(_)) | (V::W(_), V::W(_)) => {
                        let (x, y) = (self.need128(st, &a[0])?, self.need128(st, &a[1])?);
                        let ov = if signed {
                            let (x, y) = (sx(x, w), sx(y, w));
                            let r = match op { Bin::Add => x.checked_add(y), Bin::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
                            match r { None => true, Some(v) => sx(v as u128, w) != v }
                        } else {
                            let r = match op { Bin::Add => x.checked_add(y), Bin::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
                            match r { None => true, Some(v) => v & mask(w) != v }
                        };
                        V::C(ov as u64)
                    }
                    _ => {
                        let x = self.to_e(&a[0], w);
                        let y = self.to_e(&a[1], w);
                        let re = self.to_e(&r, w);
                        let o = match (op, signed) {
                            (Bin::Add, false) => self.ar.bin(Op::Ult, re, x),
                            (Bin::Sub, false) => self.ar.bin(Op::Ult, x, y),
                            (Bin::Add, true) | (Bin::Sub, true) => {
                                // overflow iff sign(x)==sign(y') and sign(r)!=sign(x)
                                let t1 = self.ar.bin(Op::Xor, x, re);
                                let t2 = if op == Bin::Add { self.ar.bin(Op::Xor, y, re) } else { self.ar.bin(Op::Xor, x, y) };
                                let t = self.ar.bin(Op::And, t1, t2);
                                self.ar.extract(t, w - 1, 1)
                            }
                            _ => {
                                if w > 64 {
                                    // by a positive constant c: x beyond the limits divided by c
                                    let (x, c) = match (self.ar.as_const(x), self.ar.as_const(y)) {
                                        (_, Some(c)) => (x, c),
                                        (Some(c), _) => (y, c),
                                        _ => return Err(Stop::Err("128-bit symbolic mul overflow".into())),
                                    };
                                    if c == 0 || sx(c, w) < 0 {
                                        return Err(Stop::Err("128-bit symbolic mul overflow".into()));
                                    }
                                    let o = if signed {
                                        let (mx, mn) = ((mask(w) >> 1) / c, ((mask(w) >> 1) as i128).wrapping_neg().wrapping_sub(1) / c as i128);
                                        let (mx, mn) = (self.ar.konst(w, mx), self.ar.konst(w, mn as u128 & mask(w)));
                                        let hi = self.ar.bin(Op::Slt, mx, x);
                                        let lo = self.ar.bin(Op::Slt, x, mn);
                                        self.ar.bin(Op::Or, hi, lo)
                                    } else {
                                        let mx = self.ar.konst(w, mask(w) / c);
                                        self.ar.bin(Op::Ult, mx, x)
                                    };
                                    let o = self.mkv(o);
                                    return Ok(V::A(Rc::new(vec![r, o])));
                                }
                                let (x2, y2) = if signed { (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w)) } else { (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w)) };
                                let p = self.ar.bin(Op::Mul, x2, y2);
                                let back = if signed { self.ar.sext(re, 2 * w) } else { self.ar.zext(re, 2 * w) };
                                let e = self.ar.eq(p, back);
                                self.ar.not(e)
                            }
                        };
                        self.mkv(o)
                    }
                };
                Ok(V::A(Rc::new(vec![r, o])))
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let op = if k.contains("add") { Bin::Add } else { Bin::Sub };
                let r = self.binop(st, op, w, &a[0], &a[1])?;
                if k.starts_with('s') {
                    let (x, y) = (self.need(st, &a[0])?, self.need(st, &a[1])?);
                    let (x, y) = (sx64(x, w) as i128, sx64(y, w) as i128);
                    let v = if op == Bin::Add { x + y } else { x - y };
                    let mx = (1i128 << (w - 1)) - 1;
                    return Ok(vc(w, v.clamp(-mx - 1, mx) as u128));
                }
                let (ov, sat) = if op == Bin::Add { (self.icmp(Pred::Ult, w, &r, &a[0]), vc(w, mask(w))) } else { (self.icmp(Pred::Ult, w, &a[0], &a[1]), vc(w, 0)) };
                Ok(match ov {
                    V::C(1) => sat,
                    V::C(_) => r,
                    V::S(e) => self.ite_v(e, &sat, &r, ret),
                    _ => unreachable!(),
                })
            }
            "abs" => {
                let z = vc(w, 0);
                let n = self.binop(st, Bin::Sub, w, &z, &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &z);
                Ok(match c {
                    V::C(1) => n,
                    V::C(_) => a[0].clone(),
                    V::S(e) => self.ite_v(e, &n, &a[0], ret),
                    _ => unreachable!(),
                })
            }
            "ucmp" | "scmp" => {
                let w0 = self.m.types.width(at[0]);
                let p = if k == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w0, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, w0, &a[0], &a[1]);
                let (le, ee) = (self.to_e(&lt, 1), self.to_e(&eq, 1));
                let (m1, z, o) = (self.ar.konst(w, mask(w)), self.ar.konst(w, 0), self.ar.konst(w, 1));
                let r = self.ar.ite(ee, z, o);
                let r = self.ar.ite(le, m1, r);
                Ok(self.mkv(r))
            }
            "ctlz" | "cttz" | "ctpop" => {
                if let V::S(e) = &a[0] {
                    let e = *e;
                    if k == "ctpop" {
                        let mut s = self.ar.konst(w, 0);
                        for i in 0..w {
                            let b = self.ar.extract(e, i, 1);
                            let b = self.ar.zext(b, w);
                            s = self.ar.bin(Op::Add, s, b);
                        }
                        return Ok(self.mkv(s));
                    }
                    // ITE chain over bit positions
                    let mut r = self.ar.konst(w, w as u128);
                    let order: Vec<u32> = if k == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                    for i in order {
                        let b = self.ar.extract(e, i, 1);
                        let v = if k == "cttz" { i } else { w - 1 - i };
                        let kk = self.ar.konst(w, v as u128);
                        r = self.ar.ite(b, kk, r);
                    }
                    return Ok(self.mkv(r));
                }
                let x = self.need128(st, &a[0])?;
                let r = match k {
                    "ctpop" => x.count_ones(),
                    "ctlz" => if x == 0 { w } else { x.leading_zeros() - (128 - w) },
                    _ => if x == 0 { w } else { x.trailing_zeros() },
                };
                Ok(vc(w, r as u128))
            }
            "fshl" | "fshr" => {
                let sh = self.need(st, &a[2])? as u32 % w;
                if sh == 0 {
                    return Ok(if k == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let l = if k == "fshl" { sh } else { w - sh };
                let x = self.binop(st, Bin::Shl, w, &a[0], &vc(w, l as u128))?;
                let y = self.binop(st, Bin::LShr, w, &a[1], &vc(w, (w - l) as u128))?;
                self.binop(st, Bin::Or, w, &x, &y)
            }
            "bswap" => match &a[0] {
                V::S(e) => {
                    let e = *e;
                    let mut r = self.ar.extract(e, 0, 8);
                    for i in 1..w / 8 {
                        let b = self.ar.extract(e, 8 * i, 8);
                        r = self.ar.concat(r, b);
                    }
                    Ok(self.mkv(r))
                }
                v => {
                    let x = self.need128(st, v)?;
                    Ok(vc(w, x.swap_bytes() >> (128 - w)))
                }
            },
            "bitreverse" => {
                let x = self.need128(st, &a[0])?;
                Ok(vc(w, x.reverse_bits() >> (128 - w)))
            }
            "expect" | "threadlocal.address" | "is.constant" => Ok(if k == "is.constant" { V::C(0) } else { a[0].clone() }),
            "ptrmask" => self.binop(st, Bin::And, 64, &a[0], &a[1]),
            "objectsize" => Ok(V::C(u64::MAX)),
            "stacksave" => Ok(V::C(st.mem.sp)),
            "load.relative" => {
                let b = self.need(st, &a[0])?;
                let o = self.need(st, &a[1])?;
                let v = self.load_scalar(st, b.wrapping_add(o), 32)?;
                let v = self.need(st, &v)?;
                Ok(V::C(b.wrapping_add(sx64(v, 32) as u64)))
            }
            "trap" | "debugtrap" => Err(Stop::Panic("trap".into())),
            "vector.reduce.add" | "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.xor" | "vector.reduce.umax" | "vector.reduce.umin" | "vector.reduce.mul" | "vector.reduce.smax" | "vector.reduce.smin" => {
                let vs = match &a[0] {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Err("reduce".into())),
                };
                let mut r = vs[0].clone();
                for v in vs[1..].iter() {
                    r = match &k[14..] {
                        ".add" => self.binop(st, Bin::Add, w, &r, v)?,
                        ".or" => self.binop(st, Bin::Or, w, &r, v)?,
                        ".and" => self.binop(st, Bin::And, w, &r, v)?,
                        ".xor" => self.binop(st, Bin::Xor, w, &r, v)?,
                        ".mul" => self.binop(st, Bin::Mul, w, &r, v)?,
                        o => {
                            let t = ret;
                            self.intrinsic(st, &o[1..], name, &[r, v.clone()], &[t, t], ret)?
                        }
                    };
                }
                Ok(r)
            }
            "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" | "roundeven" | "nearbyint" | "sqrt" | "exp" | "log" | "log10" | "log2" | "exp2" | "canonicalize" => {
                let x = self.need(st, &a[0])?;
                let g = |v: f64| match k {
                    "fabs" => v.abs(), "floor" => v.floor(), "ceil" => v.ceil(), "trunc" => v.trunc(), "round" => v.round(), "rint" | "roundeven" | "nearbyint" => v.round_ties_even(),
                    "sqrt" => v.sqrt(), "exp" => v.exp(), "log" => v.ln(), "log10" => v.log10(), "log2" => v.log2(), "exp2" => v.exp2(), _ => v,
                };
                Ok(if w == 32 { V::C((g(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64) } else { V::C(g(f64::from_bits(x)).to_bits()) })
            }
            "copysign" | "minnum" | "maxnum" | "pow" | "powi" => {
                let x = self.need(st, &a[0])?;
                let y = self.need(st, &a[1])?;
                if w != 64 {
                    return Err(Stop::Err(format!("intrinsic {name}")));
                }
                let p = f64::from_bits(x);
                Ok(V::C(match k {
                    "copysign" => p.copysign(f64::from_bits(y)),
                    "minnum" => p.min(f64::from_bits(y)),
                    "maxnum" => p.max(f64::from_bits(y)),
                    "pow" => p.powf(f64::from_bits(y)),
                    _ => p.powi(y as i32),
                }.to_bits()))
            }
            "fma" | "fmuladd" => {
                let (x, y, z) = (self.need(st, &a[0])?, self.need(st, &a[1])?, self.need(st, &a[2])?);
                if w != 64 {
                    return Err(Stop::Err(format!("intrinsic {name}")));
                }
                Ok(V::C(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()))
            }
            "fptoui.sat" | "fptosi.sat" => {
                let fw = self.m.types.width(at[0]);
                let x = self.need(st, &a[0])?;
                let v = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = if k == "fptoui.sat" {
                    let u = v as u128;
                    u.min(mask(w))
                } else {
                    let s = v as i128;
                    let mx = (1i128 << (w - 1)) - 1;
                    s.clamp(-mx - 1, mx) as u128
                };
                Ok(vc(w, r))
            }
            "is.fpclass" => {
                let fw = self.m.types.width(at[0]);
                let x = self.need(st, &a[0])?;
                let m = self.need(st, &a[1])?;
                let v = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let neg = v.is_sign_negative();
                use std::num::FpCategory::*;
                let c = if fw == 32 { f32::from_bits(x as u32).classify() } else { v.classify() };
                let bit = match c {
                    Nan => 3u64,
                    Infinite => if neg { 1 << 2 } else { 1 << 9 },
                    Normal => if neg { 1 << 3 } else { 1 << 8 },
                    Subnormal => if neg { 1 << 4 } else { 1 << 7 },
                    Zero => if neg { 1 << 5 } else { 1 << 6 },
                };
                Ok(V::C((bit & m != 0) as u64))
            }
            "x86." => self.x86(st, name, a, ret),
            "eh.typeid" => Ok(V::C(0)),
            _ => Err(Stop::Err(format!("intrinsic {name}"))),
        }
    }
    fn x86(&mut self, st: &State, name: &str, a: &[V], ret: TyId) -> R<V> {
        let _ = st;
        match name {
            "llvm.x86.sse2.pmovmskb.128" => {
                if let V::A(v) = &a[0] {
                    let bits: Vec<V> = v
                        .iter()
                        .map(|x| match x {
                            V::C(c) => V::C(c >> 7 & 1),
                            V::S(e) => {
                                let b = self.ar.extract(*e, 7, 1);
                                self.mkv(b)
                            }
                            _ => V::C(0),
                        })
                        .collect();
                    let p = self.pack(&bits, 1);
                    return Ok(match p {
                        V::C(x) => V::C(x),
                        V::S(e) => {
                            let z = self.ar.zext(e, 32);
                            self.mkv(z)
                        }
                        v => v,
                    });
                }
                Err(Stop::Err(name.into()))
            }
            "llvm.x86.xgetbv" => Ok(self.zero(ret)),
            "llvm.x86.rdtsc" => Ok(V::C(0)),
            _ => Err(Stop::Err(format!("intrinsic {name}"))),
        }
    }

    fn warn_once(&mut self, s: &str) {
        if self.warned.insert(s.to_string()) {
            eprintln!("rsx: note: {s}");
        }
    }

    // ---------------- externs ----------------
    fn external(&mut self, st: &mut State, n: &str, a: &[V], ret: TyId) -> R<V> {
        let w = self.m.types.width(ret);
        match n {
            "malloc" => {
                let k = self.need(st, &a[0])?;
                Ok(V::C(self.do_alloc(st, k, 16)?))
            }
            "calloc" => {
                let k = self.need(st, &a[0])?;
                let m = self.need(st, &a[1])?;
                Ok(V::C(self.do_alloc(st, k * m, 16)?))
            }
            "posix_memalign" => {
                let p = self.need(st, &a[0])?;
                let al = self.need(st, &a[1])?;
                let k = self.need(st, &a[2])?;
                let r = self.do_alloc(st, k, al)?;
                self.store_scalar(st, p, 64, &V::C(r))?;
                Ok(V::C(0))
            }
            "aligned_alloc" => {
                let al = self.need(st, &a[0])?;
                let k = self.need(st, &a[1])?;
                Ok(V::C(self.do_alloc(st, k, al)?))
            }
            "realloc" => {
                let p = self.need(st, &a[0])?;
                let k = self.need(st, &a[1])?;
                if p == 0 {
                    return Ok(V::C(self.do_alloc(st, k, 16)?));
                }
                let old = st.mem.alloc_size(p).unwrap_or(0);
                let r = self.do_alloc(st, k, 16)?;
                self.memcpy(st, r, p, old.min(k))?;
                Ok(V::C(r))
            }
            "free" => Ok(V::C(0)),
            "memcmp" | "bcmp" => {
                let x = self.need(st, &a[0])?;
                let y = self.need(st, &a[1])?;
                let k = self.need(st, &a[2])?;
                self.memcmp(st, x, y, k, n == "bcmp")
            }
            "memcpy" | "memmove" => {
                let d = self.need(st, &a[0])?;
                let s = self.need(st, &a[1])?;
                let k = self.need(st, &a[2])?;
                self.memcpy(st, d, s, k)?;
                Ok(a[0].clone())
            }
            "strlen" => {
                let p = self.need(st, &a[0])?;
                let mut i = 0;
                loop {
                    let v = self.load_scalar(st, p + i, 8)?;
                    if self.need(st, &v)? == 0 {
                        return Ok(V::C(i));
                    }
                    i += 1;
                }
            }
            "symex_byte" => {
                let i = st.ninput;
                st.ninput += 1;
                Rc::make_mut(&mut st.doms).push(FULL);
                Rc::make_mut(&mut st.model).push(0);
                st.mid = self.mid();
                let e = self.ar.var(i);
                let e = if w > 8 { self.ar.zext(e, w) } else { e };
                Ok(V::S(e))
            }
            "symex_assume" => {
                let c = match &a[0] {
                    V::C(x) => return if *x & 0xffff_ffff != 0 { Ok(V::C(0)) } else { Err(Stop::Kill) },
                    V::S(e) => {
                        let we = self.ar.w(*e);
                        let z = self.ar.konst(we, 0);
                        let q = self.ar.eq(*e, z);
                        self.ar.not(q)
                    }
                    _ => return Err(Stop::Err("assume".into())),
                };
                if let Some(k) = self.ar.as_const(c) {
                    return if k == 1 { Ok(V::C(0)) } else { Err(Stop::Kill) };
                }
                if self.evalm(st, c) != 1 {
                    let (k, x) = self.eff1(st, c);
                    if k == 0 {
                        return Err(Stop::Kill);
                    }
                    let mut done = false;
                    if k == 1 && !self.in_multi(st, x) {
                        let vs = self.values_over(st, c, x);
                        match vs.iter().find(|v| v.1 == 1) {
                            None => return Err(Stop::Kill),
                            Some((v, _)) => {
                                let v = *v;
                                self.with_model(st, &[(x, v)]);
                                done = true;
                            }
                        }
                    }
                    if !done {
                        match self.feasible(st, &[c], None)? {
                            None => return Err(Stop::Kill),
                            Some(m) => self.with_model(st, &m),
                        }
                    }
                }
                Self::note(st, c);
                self.add_constraint(st, c);
                Ok(V::C(0))
            }
            "symex_assert" => {
                let p = self.need(st, &a[1])?;
                let l = self.need(st, &a[2])?;
                self.st.asserts += 1;
                let c = match &a[0] {
                    V::C(x) => {
                        if *x & 0xffff_ffff == 0 {
                            let id = self.cstring(st, p, l)?;
                            self.violation(st, id);
                            return Err(Stop::Kill);
                        }
                        return Ok(V::C(0));
                    }
                    V::S(e) => {
                        let we = self.ar.w(*e);
                        let z = self.ar.konst(we, 0);
                        let q = self.ar.eq(*e, z);
                        self.ar.not(q)
                    }
                    _ => return Err(Stop::Err("assert".into())),
                };
                self.st.assert_queries += 1;
                let nc = self.ar.not(c);
                let bad = if let Some(k) = self.ar.as_const(nc) {
                    if k == 1 { Some(Rc::new(vec![])) } else { None }
                } else if self.evalm(st, nc) == 1 {
                    Some(Rc::new(vec![]))
                } else {
                    if self.eff1(st, nc).0 == 0 {
                        None
                    } else {
                        self.feasible(st, &[nc], None)?
                    }
                };
                if let Some(m) = bad {
                    let id = self.cstring(st, p, l)?;
                    let mut s2 = st.clone();
                    self.with_model(&mut s2, &m);
                    self.violation(&s2, id);
                    // go on with the inputs that satisfy it
                    if self.ar.as_const(c).is_some() {
                        return Err(Stop::Kill);
                    }
                    match self.feasible(st, &[c], None)? {
                        None => return Err(Stop::Kill),
                        Some(m) => {
                            if self.evalm(st, c) != 1 {
                                self.with_model(st, &m);
                            }
                            Self::note(st, c);
                            self.add_constraint(st, c);
                        }
                    }
                }
                if self.ar.as_const(c).is_none() {
                    Rc::make_mut(&mut st.claims).push(c);
                }
                Ok(V::C(0))
            }
            "symex_observe" => {
                let p = self.need(st, &a[0])?;
                let l = self.need(st, &a[1])?;
                let b = self.bytes_at(st, p, l)?;
                Rc::make_mut(&mut st.obs).extend(b);
                Ok(V::C(0))
            }
            "symex_cover" => {
                let p = self.need(st, &a[0])?;
                let l = self.need(st, &a[1])?;
                let id = self.cstring(st, p, l)?;
                *self.covers.entry(id).or_insert(0) += 1;
                Ok(V::C(0))
            }
            "symex_concretize" => {
                let p = self.need(st, &a[0])?;
                let l = self.need(st, &a[1])?;
                for i in 0..l {
                    let v = self.load_scalar(st, p + i, 8)?;
                    let k = self.need(st, &v)?;
                    self.store_scalar(st, p + i, 8, &V::C(k))?;
                }
                Ok(V::C(0))
            }
            "symex_is_symbolic" => Ok(V::C(1)),
            "symex_print" => {
                let p = self.need(st, &a[0])?;
                let l = self.need(st, &a[1])?;
                let b = self.bytes_at(st, p, l)?;
                let s: Vec<u8> = b.iter().map(|v| match v { V::C(x) => *x as u8, V::S(e) => self.ar.eval(*e, st.mid, &st.model) as u8, _ => 0 }).collect();
                eprintln!("[print] {}", String::from_utf8_lossy(&s));
                Ok(V::C(0))
            }
            "symex_reject" => Err(Stop::Kill),
            "write" => Ok(a[2].clone()),
            "writev" => Ok(V::C(0)),
            "getenv" | "secure_getenv" => Ok(V::C(0)),
            "__errno_location" => Ok(V::C(GLOB_BASE)),
            "syscall" => {
                let nr = self.need(st, &a[0])?;
                match nr {
                    318 => {
                        let p = self.need(st, &a[1])?;
                        let l = self.need(st, &a[2])?;
                        for i in 0..l {
                            st.mem.set(p + i, B::C((i as u8).wrapping_mul(37) ^ 0x5a));
                        }
                        Ok(V::C(l))
                    }
                    202 => {
                        let op = self.need(st, &a[2])? & 0x7f;
                        if op == 0 || op == 9 { Err(Stop::Panic("deadlock: futex wait".into())) } else { Ok(V::C(0)) }
                    }
                    186 => Ok(V::C(1)),
                    _ => Err(Stop::Err(format!("syscall {nr}"))),
                }
            }
            "getrandom" => {
                let p = self.need(st, &a[0])?;
                let l = self.need(st, &a[1])?;
                for i in 0..l {
                    st.mem.set(p + i, B::C((i as u8).wrapping_mul(37) ^ 0x5a));
                }
                Ok(V::C(l))
            }
            "abort" | "exit" | "_exit" => Err(Stop::Panic(n.into())),
            "sysconf" => Ok(V::C(4096)),
            "sched_getaffinity" | "open64" | "open" => Ok(vc(w, u128::MAX)),
            "pthread_self" => Ok(V::C(1)),
            "getpid" | "gettid" => Ok(V::C(1)),
            "sched_yield" | "isatty" => Ok(V::C(0)),
            "__cxa_thread_atexit_impl" => Ok(V::C(0)),
            "clock_gettime" => {
                let p = self.need(st, &a[1])?;
                self.store_scalar(st, p, 64, &V::C(1_700_000_000))?;
                self.store_scalar(st, p + 8, 64, &V::C(0))?;
                Ok(V::C(0))
            }
            _ if n.starts_with("pthread_") => {
                if n == "pthread_key_create" {
                    let p = self.need(st, &a[0])?;
                    self.store_scalar(st, p, 32, &V::C(7))?;
                }
                Ok(V::C(0))
            }
            "fmod" | "pow" | "sqrt" | "floor" | "trunc" | "round" | "ceil" => {
                let x = f64::from_bits(self.need(st, &a[0])?);
                let r = match n {
                    "sqrt" => x.sqrt(), "floor" => x.floor(), "trunc" => x.trunc(), "round" => x.round(), "ceil" => x.ceil(),
                    _ => {
                        let y = f64::from_bits(self.need(st, &a[1])?);
                        if n == "pow" { x.powf(y) } else { x % y }
                    }
                };
                Ok(V::C(r.to_bits()))
            }
            _ => {
                self.warn_once(&format!("extern {n}"));
                Err(Stop::Err(format!("extern function {n}")))
            }
        }
    }
    fn do_alloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        if n > (1 << 30) {
            return Err(Stop::Panic(format!("allocation of {n} bytes")));
        }
        Ok(st.mem.alloc(n, al))
    }
    fn cstring(&mut self, st: &State, p: u64, l: u64) -> R<String> {
        let b = self.bytes_at(st, p, l)?;
        Ok(b.iter().map(|v| if let V::C(c) = v { *c as u8 as char } else { '?' }).collect())
    }
}

pub enum Next {
    Call(Frame),
    Ret(Option<V>),
}

fn n_of(t: &Ty) -> u64 {
    match t {
        Ty::Arr(n, _) => *n,
        Ty::Vec(n, _) => *n as u64,
        _ => 0,
    }
}
fn insert(base: &mut V, path: &[u32], x: V) {
    if path.is_empty() {
        *base = x;
        return;
    }
    if let V::A(v) = base {
        insert(&mut Rc::make_mut(v)[path[0] as usize], &path[1..], x)
    }
}
/// readable form of a mangled (legacy) Rust symbol
pub fn short(n: &str) -> String {
    let s = n.trim_matches('"');
    if let Some(r) = s.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            let p = &r[i..i + k];
            i += k;
            if p.len() == 17 && p.starts_with('h') {
                break;
            }
            parts.push(p.to_string());
        }
        let j = parts.join("::");
        return j
            .replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",").replace("..", "::").replace("$u7b$", "{").replace("$u7d$", "}").replace("$LP$", "(").replace("$RP$", ")").replace("$BP$", "*").replace("$u5b$", "[").replace("$u5d$", "]").replace("$u27$", "'").replace("$u3b$", ";");
    }
    s.to_string()
}
