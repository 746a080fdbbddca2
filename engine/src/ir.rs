//! LLVM textual IR (LLVM 19 as printed by rustc 1.82): types, constants, globals, functions.
//! Function bodies are decoded on first use.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}
pub type TyId = u32;

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

pub struct Types {
    pub tys: Vec<Ty>,
    pub lay: Vec<Layout>,
    map: HashMap<Ty, TyId>,
    named_src: HashMap<Vec<u8>, (usize, usize)>,
    named: HashMap<Vec<u8>, TyId>,
}

impl Types {
    pub fn new() -> Self {
        Types { tys: vec![], lay: vec![], map: HashMap::new(), named_src: HashMap::new(), named: HashMap::new() }
    }
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let lay = self.layout(&t);
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.lay.push(lay);
        self.map.insert(t, i);
        i
    }
    fn layout(&self, t: &Ty) -> Layout {
        let s = |size, align| Layout { size, align, offs: vec![] };
        match t {
            Ty::Void | Ty::Other => s(0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                s((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::F64 => s(8, 8),
            Ty::F32 => s(4, 4),
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.lay[*e as usize].size * 8,
                };
                let sz = ((*n as u64 * bits + 7) / 8).next_power_of_two();
                s(sz, sz.max(1))
            }
            Ty::Arr(n, e) => {
                let l = &self.lay[*e as usize];
                s(n * l.size, l.align)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1u64;
                let mut offs = vec![];
                for f in fs {
                    let l = &self.lay[*f as usize];
                    let a = if *packed { 1 } else { l.align.max(1) };
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += l.size;
                    al = al.max(a);
                }
                off = (off + al - 1) / al * al;
                Layout { size: off, align: al, offs }
            }
        }
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.lay[t as usize].size
    }
    pub fn align(&self, t: TyId) -> u64 {
        self.lay[t as usize].align.max(1)
    }
    /// bit width of scalar types
    pub fn width(&self, t: TyId) -> u32 {
        match self.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

/// Constant expressions, resolved against global addresses by the executor.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero,
    Global(Vec<u8>),
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, Cst)>),
    Gep(TyId, Box<Cst>, Vec<Cst>),
    Bin(&'static str, TyId, Box<Cst>, Box<Cst>),
    Cast(TyId, TyId, Box<Cst>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Opd(pub u32);
const KBIT: u32 = 1 << 31;
impl Opd {
    pub fn reg(r: u32) -> Self {
        Opd(r)
    }
    pub fn konst(k: u32) -> Self {
        Opd(k | KBIT)
    }
    #[inline(always)]
    pub fn is_const(self) -> bool {
        self.0 & KBIT != 0
    }
    #[inline(always)]
    pub fn idx(self) -> usize {
        (self.0 & !KBIT) as usize
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Intrinsic(&'static str, String),
    Extern(String),
    Ptr(Opd),
    Asm(String),
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    FNeg { w: u32, lanes: u32, dst: u32, a: Opd },
    ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    FCmp { p: u8, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    Cast { op: CastOp, ft: TyId, tt: TyId, dst: u32, a: Opd },
    Load { ty: TyId, dst: u32, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Alloca { size: u64, align: u64, n: Option<Opd>, dst: u32 },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, i64, u32)> },
    Select { w: u32, vecc: u32, dst: u32, c: Opd, a: Opd, b: Opd, ty: TyId },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i32> },
    Freeze { dst: u32, a: Opd },
    CmpXchg { dst: u32, p: Opd, c: Opd, n: Opd, ty: TyId },
    Rmw { op: &'static str, dst: u32, p: Opd, v: Opd, ty: TyId },
    Call { dst: u32, callee: Callee, args: Vec<Opd>, argt: Vec<TyId>, ret: TyId, normal: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Unsupported(String),
}
pub const NODST: u32 = u32::MAX;
pub const NONORMAL: u32 = u32::MAX;

pub struct Block {
    pub insts: Vec<Inst>,
    /// (pred block, [(dst, src)])
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(TyId, Cst)>,
    pub is_panic: bool,
    pub ninsts: usize,
}

pub struct FuncSrc {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub is_panic: bool,
}

pub struct GlobalSrc {
    pub name: Vec<u8>,
    pub ty: TyId,
    pub init: Option<Cst>,
    pub align: u64,
    pub extern_weak: bool,
    pub constant: bool,
}

pub struct Module {
    pub src: Vec<u8>,
    pub types: Types,
    pub funcs: Vec<FuncSrc>,
    pub func_idx: HashMap<Vec<u8>, u32>,
    pub globals: Vec<GlobalSrc>,
    pub declares: Vec<Vec<u8>>,
    pub aliases: Vec<(Vec<u8>, Cst)>,
}

fn is_ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub p: usize,
    end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a [u8]),
    Global(&'a [u8]),
    Word(&'a [u8]),
    Num(&'a [u8]),
    Str(&'a [u8]),
    CStr(&'a [u8]),
    Meta(&'a [u8]),
    Attr(&'a [u8]),
    P(u8),
    Eof,
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], p: usize, end: usize) -> Self {
        Lex { s, p, end }
    }
    fn ws(&mut self) {
        while self.p < self.end {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn quoted(&mut self) -> &'a [u8] {
        let st = self.p + 1;
        let mut q = st;
        while self.s[q] != b'"' {
            q += 1
        }
        self.p = q + 1;
        &self.s[st..q]
    }
    fn ident(&mut self) -> &'a [u8] {
        let st = self.p;
        while self.p < self.end && is_ident(self.s[self.p]) {
            self.p += 1
        }
        &self.s[st..self.p]
    }
    pub fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.p >= self.end {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let n = if self.s[self.p] == b'"' { self.quoted() } else { self.ident() };
                if c == b'%' { Tok::Local(n) } else { Tok::Global(n) }
            }
            b'!' => {
                self.p += 1;
                if self.p < self.end && self.s[self.p] == b'{' {
                    return Tok::Meta(b"");
                }
                if self.p < self.end && self.s[self.p] == b'"' {
                    self.quoted();
                    return Tok::Meta(b"str");
                }
                Tok::Meta(self.ident())
            }
            b'#' => {
                self.p += 1;
                Tok::Attr(self.ident())
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                Tok::CStr(self.quoted())
            }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.end && (is_ident(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1
                }
                Tok::Num(&self.s[st..self.p])
            }
            c if c.is_ascii_alphabetic() || c == b'_' => Tok::Word(self.ident()),
            _ => {
                self.p += 1;
                if c == b'.' && self.s[self.p..self.end].starts_with(b"..") {
                    self.p += 2;
                    return Tok::Word(b"...");
                }
                Tok::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    pub fn accept(&mut self, c: u8) -> bool {
        let p = self.p;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn accept_w(&mut self, w: &[u8]) -> bool {
        let p = self.p;
        if self.next() == Tok::Word(w) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        let p = self.p;
        let t = self.next();
        if t != Tok::P(c) {
            let e = (p + 200).min(self.end);
            panic!("ir: expected '{}' got {:?} near: {}", c as char, t, String::from_utf8_lossy(&self.s[p.saturating_sub(200)..e]));
        }
    }
    fn skip_group(&mut self, open: u8, close: u8) {
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(c) if c == open => d += 1,
                Tok::P(c) if c == close => d -= 1,
                Tok::Eof => panic!("ir: eof in group"),
                _ => {}
            }
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn find_line_end(s: &[u8], mut p: usize) -> usize {
    while p < s.len() && s[p] != b'\n' {
        p += 1
    }
    p
}

const TYWORDS: &[&[u8]] = &[b"void", b"ptr", b"float", b"double", b"metadata", b"label", b"token", b"half", b"x86_fp80", b"fp128"];
fn is_tyword(w: &[u8]) -> bool {
    TYWORDS.contains(&w) || (w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()))
}

const CEXPRS: &[&[u8]] = &[
    b"getelementptr", b"inttoptr", b"ptrtoint", b"bitcast", b"trunc", b"add", b"sub", b"mul", b"xor", b"zext", b"sext", b"shl", b"and", b"or", b"lshr", b"icmp", b"select",
];
fn is_valword(w: &[u8]) -> bool {
    matches!(w, b"null" | b"undef" | b"poison" | b"true" | b"false" | b"zeroinitializer" | b"none" | b"splat" | b"asm") || CEXPRS.contains(&w)
}

impl Types {
    pub fn parse(&mut self, lx: &mut Lex, src: &[u8]) -> TyId {
        match lx.next() {
            Tok::Word(w) => {
                let t = match w {
                    b"void" => Ty::Void,
                    b"ptr" => {
                        if lx.accept_w(b"addrspace") {
                            lx.expect(b'(');
                            lx.skip_group(b'(', b')');
                        }
                        Ty::Ptr
                    }
                    b"float" => Ty::F32,
                    b"double" => Ty::F64,
                    _ if w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()) => {
                        Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap())
                    }
                    _ => Ty::Other,
                };
                self.get(t)
            }
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => std::str::from_utf8(n).unwrap().parse::<u64>().unwrap(),
                    t => panic!("ir: array len {:?}", t),
                };
                assert!(lx.accept_w(b"x"));
                let e = self.parse(lx, src);
                lx.expect(b']');
                self.get(Ty::Arr(n, e))
            }
            Tok::P(b'{') => {
                let mut fs = vec![];
                if !lx.accept(b'}') {
                    loop {
                        fs.push(self.parse(lx, src));
                        if !lx.accept(b',') {
                            break;
                        }
                    }
                    lx.expect(b'}');
                }
                self.get(Ty::Struct(fs, false))
            }
            Tok::P(b'<') => {
                if lx.accept(b'{') {
                    let mut fs = vec![];
                    if !lx.accept(b'}') {
                        loop {
                            fs.push(self.parse(lx, src));
                            if !lx.accept(b',') {
                                break;
                            }
                        }
                        lx.expect(b'}');
                    }
                    lx.expect(b'>');
                    return self.get(Ty::Struct(fs, true));
                }
                let n = match lx.next() {
                    Tok::Num(n) => std::str::from_utf8(n).unwrap().parse::<u32>().unwrap(),
                    t => panic!("ir: vec len {:?}", t),
                };
                assert!(lx.accept_w(b"x"));
                let e = self.parse(lx, src);
                lx.expect(b'>');
                self.get(Ty::Vec(n, e))
            }
            Tok::Local(n) => {
                if let Some(&t) = self.named.get(n) {
                    return t;
                }
                if let Some(&(s, e)) = self.named_src.get(n) {
                    let mut l2 = Lex::new(src, s, e);
                    let t = if l2.accept_w(b"opaque") { self.get(Ty::Other) } else { self.parse(&mut l2, src) };
                    self.named.insert(n.to_vec(), t);
                    return t;
                }
                panic!("ir: unknown type %{}", String::from_utf8_lossy(n))
            }
            t => panic!("ir: type {:?}", t),
        }
    }

    /// Parses a constant of type `ty` at the lexer.
    pub fn cst(&mut self, lx: &mut Lex, src: &[u8], ty: TyId) -> Cst {
        match lx.next() {
            Tok::Num(n) => Cst::Int(parse_num(n, self.ty(ty))),
            Tok::Global(g) => Cst::Global(g.to_vec()),
            Tok::CStr(s) => Cst::Bytes(unescape(s)),
            Tok::P(b'[') => {
                let v = self.cst_list(lx, src, b']');
                Cst::Agg(v)
            }
            Tok::P(b'{') => Cst::Agg(self.cst_list(lx, src, b'}')),
            Tok::P(b'<') => {
                if lx.accept(b'{') {
                    let v = self.cst_list(lx, src, b'}');
                    lx.expect(b'>');
                    Cst::Agg(v)
                } else {
                    Cst::Agg(self.cst_list(lx, src, b'>'))
                }
            }
            Tok::Word(w) => match w {
                b"null" | b"zeroinitializer" | b"undef" | b"poison" | b"none" => Cst::Zero,
                b"true" => Cst::Int(1),
                b"false" => Cst::Int(0),
                b"splat" => {
                    lx.expect(b'(');
                    let t = self.parse(lx, src);
                    let c = self.cst(lx, src, t);
                    lx.expect(b')');
                    let n = match self.ty(ty) {
                        Ty::Vec(n, _) => *n,
                        _ => 1,
                    };
                    Cst::Agg(vec![(t, c); n as usize])
                }
                b"getelementptr" => {
                    loop {
                        match lx.next() {
                            Tok::P(b'(') => break,
                            Tok::Word(b"inrange") => {
                                lx.expect(b'(');
                                lx.skip_group(b'(', b')');
                            }
                            _ => {}
                        }
                    }
                    let et = self.parse(lx, src);
                    lx.expect(b',');
                    let pt = self.parse(lx, src);
                    let base = self.cst(lx, src, pt);
                    let mut ix = vec![];
                    while lx.accept(b',') {
                        let t = self.parse(lx, src);
                        ix.push(self.cst(lx, src, t));
                    }
                    lx.expect(b')');
                    Cst::Gep(et, Box::new(base), ix)
                }
                b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"zext" => {
                    lx.expect(b'(');
                    let t = self.parse(lx, src);
                    let c = self.cst(lx, src, t);
                    assert!(lx.accept_w(b"to"));
                    let tt = self.parse(lx, src);
                    lx.expect(b')');
                    Cst::Cast(t, tt, Box::new(c))
                }
                b"add" | b"sub" | b"mul" | b"xor" | b"and" | b"or" | b"shl" | b"lshr" => {
                    let op: &'static str = match w {
                        b"add" => "add", b"sub" => "sub", b"mul" => "mul", b"xor" => "xor", b"and" => "and", b"or" => "or", b"shl" => "shl", _ => "lshr",
                    };
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let t = self.parse(lx, src);
                    let a = self.cst(lx, src, t);
                    lx.expect(b',');
                    let t2 = self.parse(lx, src);
                    let b = self.cst(lx, src, t2);
                    lx.expect(b')');
                    Cst::Bin(op, t, Box::new(a), Box::new(b))
                }
                _ => panic!("ir: const {}", String::from_utf8_lossy(w)),
            },
            t => panic!("ir: const {:?}", t),
        }
    }
    fn cst_list(&mut self, lx: &mut Lex, src: &[u8], close: u8) -> Vec<(TyId, Cst)> {
        let mut v = vec![];
        if lx.accept(close) {
            return v;
        }
        loop {
            let t = self.parse(lx, src);
            let c = self.cst(lx, src, t);
            v.push((t, c));
            if !lx.accept(b',') {
                break;
            }
        }
        lx.expect(close);
        v
    }
}

fn parse_num(n: &[u8], ty: &Ty) -> u128 {
    let s = std::str::from_utf8(n).unwrap();
    match ty {
        Ty::F32 | Ty::F64 => {
            let bits64 = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16).unwrap()
            } else {
                s.parse::<f64>().unwrap().to_bits()
            };
            if *ty == Ty::F32 {
                (f64::from_bits(bits64) as f32).to_bits() as u128
            } else {
                bits64 as u128
            }
        }
        Ty::Int(w) => {
            let v = if let Some(m) = s.strip_prefix('-') {
                (m.parse::<u128>().unwrap()).wrapping_neg()
            } else {
                s.parse::<u128>().unwrap_or_else(|_| panic!("num {}", s))
            };
            if *w < 128 { v & ((1u128 << w) - 1) } else { v }
        }
        _ => s.parse::<u128>().unwrap_or(0),
    }
}

fn is_panic_name(n: &str) -> bool {
    n.starts_with("_ZN4core9panicking")
        || n.starts_with("_ZN3std9panicking11begin_panic")
        || n == "rust_begin_unwind"
        || n == "rust_panic"
        || n.starts_with("_ZN3std9panicking20rust_panic_with_hook")
        || n.starts_with("_ZN4core6option13unwrap_failed")
        || n.starts_with("_ZN4core6option13expect_failed")
        || n.starts_with("_ZN4core6result13unwrap_failed")
        || n.starts_with("_ZN4core4cell22panic_already")
        || n.starts_with("_ZN4core3str16slice_error_fail")
        || n.starts_with("_ZN4core5slice5index")  && n.contains("fail")
        || n.starts_with("_ZN5alloc7raw_vec12handle_error")
        || n.starts_with("_ZN5alloc7raw_vec17capacity_overflow")
        || n.starts_with("_ZN5alloc5alloc18handle_alloc_error")
        || n.starts_with("_ZN3std7process5abort")
        || n.starts_with("_ZN3std6thread5local18panic_access_error")
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let mut m = Module { src: vec![], types: Types::new(), funcs: vec![], func_idx: HashMap::new(), globals: vec![], declares: vec![], aliases: vec![] };
        let mut p = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        while p < src.len() {
            let e = find_line_end(&src, p);
            let l = &src[p..e];
            if l.starts_with(b"define ") {
                // ends at line "}"
                let mut q = e + 1;
                loop {
                    let e2 = find_line_end(&src, q);
                    if &src[q..e2] == b"}" {
                        let mut lx = Lex::new(&src, p, e);
                        let name = loop {
                            match lx.next() {
                                Tok::Global(n) => break n,
                                Tok::Eof => panic!("ir: define without name"),
                                _ => {}
                            }
                        };
                        let ns = String::from_utf8_lossy(&unescape(name)).to_string();
                        m.func_idx.insert(name.to_vec(), m.funcs.len() as u32);
                        let is_panic = is_panic_name(&ns);
                        m.funcs.push(FuncSrc { name: ns, start: p, end: e2, is_panic });
                        p = e2 + 1;
                        break;
                    }
                    q = e2 + 1;
                }
                continue;
            } else if l.starts_with(b"@") {
                gl.push((p, e));
            } else if l.starts_with(b"%") {
                let mut lx = Lex::new(&src, p, e);
                if let Tok::Local(n) = lx.next() {
                    lx.expect(b'=');
                    assert!(lx.accept_w(b"type"));
                    m.types.named_src.insert(n.to_vec(), (lx.p, e));
                }
            } else if l.starts_with(b"declare ") {
                let mut lx = Lex::new(&src, p, e);
                loop {
                    match lx.next() {
                        Tok::Global(n) => {
                            m.declares.push(n.to_vec());
                            break;
                        }
                        Tok::Eof => break,
                        _ => {}
                    }
                }
            }
            p = e + 1;
        }
        for (s, e) in gl {
            m.global(&src, s, e);
        }
        // a direct call through a function alias is a call of its target
        loop {
            let mut more = false;
            for (n, c) in &m.aliases {
                if let Cst::Global(t) = c {
                    if let Some(&fi) = m.func_idx.get(t) {
                        more |= m.func_idx.insert(n.clone(), fi).is_none();
                    }
                }
            }
            if !more {
                break;
            }
        }
        m.src = src;
        m
    }

    fn global(&mut self, src: &[u8], s: usize, e: usize) {
        let mut lx = Lex::new(src, s, e);
        let name = match lx.next() {
            Tok::Global(n) => n.to_vec(),
            t => panic!("ir: global {:?}", t),
        };
        lx.expect(b'=');
        let mut ext = false;
        let mut weak = false;
        let constant;
        loop {
            match lx.next() {
                Tok::Word(b"global") => {
                    constant = false;
                    break;
                }
                Tok::Word(b"constant") => {
                    constant = true;
                    break;
                }
                Tok::Word(b"external") => ext = true,
                Tok::Word(b"extern_weak") => {
                    ext = true;
                    weak = true
                }
                Tok::Word(b"alias") => {
                    let _t = self.types.parse(&mut lx, src);
                    if lx.accept(b'(') {
                        lx.skip_group(b'(', b')');
                    }
                    lx.expect(b',');
                    let t = self.types.parse(&mut lx, src);
                    let c = self.types.cst(&mut lx, src, t);
                    self.aliases.push((name, c));
                    return;
                }
                Tok::Eof => panic!("ir: global"),
                _ => {}
            }
        }
        let ty = self.types.parse(&mut lx, src);
        let init = if ext { None } else { Some(self.types.cst(&mut lx, src, ty)) };
        let mut align = self.types.align(ty);
        while lx.accept(b',') {
            match lx.next() {
                Tok::Word(b"align") => {
                    if let Tok::Num(n) = lx.next() {
                        align = std::str::from_utf8(n).unwrap().parse().unwrap();
                    }
                }
                Tok::Word(_) => {
                    lx.next();
                }
                _ => {
                    lx.next();
                }
            }
        }
        self.globals.push(GlobalSrc { name, ty, init, align, extern_weak: weak, constant });
    }

    pub fn decode(&mut self, fi: u32) -> Func {
        let src = std::mem::take(&mut self.src);
        let f = {
            let fs = &self.funcs[fi as usize];
            let (s, e, name, is_panic) = (fs.start, fs.end, fs.name.clone(), fs.is_panic);
            let mut d = Dec { types: &mut self.types, func_idx: &self.func_idx, src: &src, regs: HashMap::new(), nregs: 0, consts: vec![], blocks: HashMap::new() };
            d.func(s, e, name, is_panic)
        };
        self.src = src;
        f
    }
}

struct Dec<'a> {
    types: &'a mut Types,
    func_idx: &'a HashMap<Vec<u8>, u32>,
    src: &'a [u8],
    regs: HashMap<&'a [u8], u32>,
    nregs: u32,
    consts: Vec<(TyId, Cst)>,
    blocks: HashMap<&'a [u8], u32>,
}

const INSTFLAGS: &[&[u8]] = &[
    b"nuw", b"nsw", b"exact", b"disjoint", b"nneg", b"samesign", b"inbounds", b"nusw", b"fast", b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"volatile", b"atomic", b"weak",
];

impl<'a> Dec<'a> {
    fn reg(&mut self, n: &'a [u8]) -> u32 {
        let nr = &mut self.nregs;
        *self.regs.entry(n).or_insert_with(|| {
            *nr += 1;
            *nr - 1
        })
    }
    fn flags(&self, lx: &mut Lex<'a>) {
        loop {
            match lx.peek() {
                Tok::Word(w) if INSTFLAGS.contains(&w) => {
                    lx.next();
                }
                Tok::Word(b"inrange") => {
                    lx.next();
                    lx.expect(b'(');
                    lx.skip_group(b'(', b')');
                }
                _ => break,
            }
        }
    }
    fn ty(&mut self, lx: &mut Lex<'a>) -> TyId {
        self.types.parse(lx, self.src)
    }
    /// value of known type
    fn val(&mut self, lx: &mut Lex<'a>, ty: TyId) -> Opd {
        let p = lx.p;
        match lx.next() {
            Tok::Local(n) => Opd::reg(self.reg(n)),
            Tok::Meta(_) => {
                if lx.accept(b'{') {
                    lx.skip_group(b'{', b'}');
                } else if lx.accept(b'(') {
                    lx.skip_group(b'(', b')');
                }
                self.konst(ty, Cst::Zero)
            }
            _ => {
                lx.p = p;
                let c = self.types.cst(lx, self.src, ty);
                self.konst(ty, c)
            }
        }
    }
    fn konst(&mut self, ty: TyId, c: Cst) -> Opd {
        self.consts.push((ty, c));
        Opd::konst(self.consts.len() as u32 - 1)
    }
    fn tv(&mut self, lx: &mut Lex<'a>) -> (TyId, Opd) {
        let t = self.ty(lx);
        let v = self.val(lx, t);
        (t, v)
    }
    fn block(&mut self, lx: &mut Lex<'a>) -> u32 {
        assert!(lx.accept_w(b"label"), "label expected");
        match lx.next() {
            Tok::Local(n) => *self.blocks.get(n).unwrap_or_else(|| panic!("unknown block {}", String::from_utf8_lossy(n))),
            t => panic!("block {:?}", t),
        }
    }
    fn scalar(&self, t: TyId) -> (u32, u32) {
        match self.types.ty(t) {
            Ty::Vec(n, e) => (self.types.width(*e), *n),
            _ => (self.types.width(t), 0),
        }
    }
    fn skip_attrs(&mut self, lx: &mut Lex<'a>) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Word(w) if is_valword(w) => {
                    lx.p = p;
                    return;
                }
                Tok::Word(_) => {
                    if lx.accept(b'(') {
                        lx.skip_group(b'(', b')');
                    } else if let Tok::Num(_) = lx.peek() {
                        // `align 8`: only after word "align"
                        let w = &self.src[p..lx.p];
                        let ws = std::str::from_utf8(w).unwrap().trim();
                        if ws == "align" {
                            lx.next();
                        } else {
                            return;
                        }
                    }
                }
                _ => {
                    lx.p = p;
                    return;
                }
            }
        }
    }
    /// skips return attributes until a type starts
    fn skip_ret_attrs(&mut self, lx: &mut Lex<'a>) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Word(w) if is_tyword(w) => {
                    lx.p = p;
                    return;
                }
                Tok::Word(w) => {
                    if lx.accept(b'(') {
                        lx.skip_group(b'(', b')');
                    } else if w == b"align" {
                        lx.next();
                    }
                }
                _ => {
                    lx.p = p;
                    return;
                }
            }
        }
    }

    fn func(&mut self, s: usize, e: usize, name: String, is_panic: bool) -> Func {
        let src = self.src;
        let mut lx = Lex::new(src, s, e);
        loop {
            if let Tok::Global(_) = lx.next() {
                break;
            }
        }
        lx.expect(b'(');
        let mut nparams = 0;
        let mut unnamed = 0;
        if !lx.accept(b')') {
            loop {
                if lx.accept_w(b"...") {
                    break;
                }
                let _t = self.ty(&mut lx);
                self.skip_attrs(&mut lx);
                let n = match lx.peek() {
                    Tok::Local(n) => {
                        lx.next();
                        n
                    }
                    _ => b"",
                };
                if n.is_empty() {
                    // unnamed parameter printed without a name cannot occur in definitions
                    let r = self.nregs;
                    self.nregs += 1;
                    let _ = r;
                } else {
                    if n.iter().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    self.reg(n);
                }
                nparams += 1;
                if !lx.accept(b',') {
                    break;
                }
            }
            lx.expect(b')');
        }
        // body lines
        let mut p = find_line_end(src, s) + 1;
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut blks: Vec<(Vec<(usize, usize)>,)> = vec![];
        let entry_name: Vec<u8> = format!("{}", unnamed).into_bytes();
        let entry_name: &'static [u8] = Box::leak(entry_name.into_boxed_slice());
        let mut first = true;
        let mut cur = 0u32;
        while p < e {
            let le = find_line_end(src, p).min(e);
            let l = &src[p..le];
            if l.is_empty() || l[0] == b';' || l == b"}" {
                p = le + 1;
                continue;
            }
            if l[0] != b' ' && l[0] != b'\t' && l[0] != b'#' {
                // label
                let nm: &'a [u8] = if l[0] == b'"' {
                    let q = l[1..].iter().position(|&c| c == b'"').unwrap();
                    &src[p + 1..p + 1 + q]
                } else {
                    let q = l.iter().position(|&c| c == b':').unwrap();
                    &src[p..p + q]
                };
                if !first {
                    blks.push((std::mem::take(&mut lines),));
                    cur += 1;
                }
                first = false;
                self.blocks.insert(nm, cur);
            } else {
                if first {
                    self.blocks.insert(entry_name, 0);
                    first = false;
                }
                // debug records "#dbg_value(...)" are ignored
                let t = l.iter().position(|&c| c != b' ' && c != b'\t').unwrap_or(0);
                if l[t] != b'#' && l[t] != b';' {
                    // continuation lines (switch tables, landingpad clauses)
                    let cont = !lines.is_empty() && {
                        let tl = &l[t..];
                        tl.starts_with(b"]") || l.starts_with(b"    ") || tl.starts_with(b"to label") || tl.starts_with(b"cleanup") || tl.starts_with(b"catch ") || tl.starts_with(b"filter ")
                    };
                    if cont {
                        lines.last_mut().unwrap().1 = le;
                    } else {
                        lines.push((p, le));
                    }
                }
            }
            p = le + 1;
        }
        blks.push((lines,));
        let mut blocks = vec![];
        let mut ninsts = 0;
        for (bi, (ls,)) in blks.into_iter().enumerate() {
            let mut insts = vec![];
            let mut phis: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
            let _ = bi;
            for (s, e) in ls {
                let mut lx = Lex::new(src, s, e);
                let mut dst = NODST;
                if let Tok::Local(n) = lx.peek() {
                    lx.next();
                    lx.expect(b'=');
                    dst = self.reg(n);
                }
                if lx.peek() == Tok::Word(b"phi") {
                    lx.next();
                    self.flags(&mut lx);
                    let t = self.ty(&mut lx);
                    loop {
                        lx.expect(b'[');
                        let v = self.val(&mut lx, t);
                        lx.expect(b',');
                        let b = match lx.next() {
                            Tok::Local(n) => *self.blocks.get(n).unwrap_or_else(|| panic!("phi: unknown block {} in {}", String::from_utf8_lossy(n), name)),
                            t => panic!("phi {:?}", t),
                        };
                        lx.expect(b']');
                        match phis.iter_mut().find(|x| x.0 == b) {
                            Some(x) => {
                                // duplicate edges from one predecessor carry the same value
                                if x.1.iter().all(|y| y.0 != dst) {
                                    x.1.push((dst, v))
                                }
                            }
                            None => phis.push((b, vec![(dst, v)])),
                        }
                        if !lx.accept(b',') {
                            break;
                        }
                        if let Tok::Meta(_) = lx.peek() {
                            break;
                        }
                    }
                    continue;
                }
                let i = self.inst(&mut lx, dst, s, e);
                ninsts += 1;
                if !matches!(i, Inst::Nop) {
                    insts.push(i);
                }
            }
            blocks.push(Block { insts, phis });
        }
        Func { name, nregs: self.nregs, nparams, blocks, consts: std::mem::take(&mut self.consts), is_panic, ninsts }
    }

    fn inst(&mut self, lx: &mut Lex<'a>, dst: u32, s: usize, e: usize) -> Inst {
        let src = self.src;
        let unsup = |src: &[u8]| Inst::Unsupported(String::from_utf8_lossy(&src[s..e]).to_string());
        let w = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("inst {:?}: {}", t, String::from_utf8_lossy(&src[s..e])),
        };
        let bin = |w: &[u8]| -> Option<Bin> {
            Some(match w {
                b"add" => Bin::Add, b"sub" => Bin::Sub, b"mul" => Bin::Mul, b"udiv" => Bin::UDiv, b"sdiv" => Bin::SDiv, b"urem" => Bin::URem, b"srem" => Bin::SRem,
                b"and" => Bin::And, b"or" => Bin::Or, b"xor" => Bin::Xor, b"shl" => Bin::Shl, b"lshr" => Bin::LShr, b"ashr" => Bin::AShr,
                b"fadd" => Bin::FAdd, b"fsub" => Bin::FSub, b"fmul" => Bin::FMul, b"fdiv" => Bin::FDiv, b"frem" => Bin::FRem,
                _ => return None,
            })
        };
        if let Some(op) = bin(w) {
            self.flags(lx);
            let t = self.ty(lx);
            let a = self.val(lx, t);
            lx.expect(b',');
            let b = self.val(lx, t);
            let (w, lanes) = self.scalar(t);
            return Inst::Bin { op, w, lanes, dst, a, b };
        }
        let cast = |w: &[u8]| -> Option<CastOp> {
            Some(match w {
                b"trunc" => CastOp::Trunc, b"zext" => CastOp::ZExt, b"sext" => CastOp::SExt, b"ptrtoint" => CastOp::PtrToInt, b"inttoptr" => CastOp::IntToPtr, b"bitcast" | b"addrspacecast" => CastOp::BitCast,
                b"fptoui" => CastOp::FpToUi, b"fptosi" => CastOp::FpToSi, b"uitofp" => CastOp::UiToFp, b"sitofp" => CastOp::SiToFp, b"fpext" => CastOp::FpExt, b"fptrunc" => CastOp::FpTrunc,
                _ => return None,
            })
        };
        if let Some(op) = cast(w) {
            self.flags(lx);
            let (ft, a) = self.tv(lx);
            assert!(lx.accept_w(b"to"));
            let tt = self.ty(lx);
            return Inst::Cast { op, ft, tt, dst, a };
        }
        match w {
            b"icmp" => {
                self.flags(lx);
                let p = match lx.next() {
                    Tok::Word(b"eq") => Pred::Eq, Tok::Word(b"ne") => Pred::Ne, Tok::Word(b"ugt") => Pred::Ugt, Tok::Word(b"uge") => Pred::Uge,
                    Tok::Word(b"ult") => Pred::Ult, Tok::Word(b"ule") => Pred::Ule, Tok::Word(b"sgt") => Pred::Sgt, Tok::Word(b"sge") => Pred::Sge,
                    Tok::Word(b"slt") => Pred::Slt, Tok::Word(b"sle") => Pred::Sle,
                    t => panic!("icmp {:?}", t),
                };
                let t = self.ty(lx);
                let a = self.val(lx, t);
                lx.expect(b',');
                let b = self.val(lx, t);
                let (w, lanes) = self.scalar(t);
                Inst::ICmp { p, w, lanes, dst, a, b }
            }
            b"fcmp" => {
                self.flags(lx);
                let names: &[&[u8]] = &[b"false", b"oeq", b"ogt", b"oge", b"olt", b"ole", b"one", b"ord", b"uno", b"ueq", b"ugt", b"uge", b"ult", b"ule", b"une", b"true"];
                let p = match lx.next() {
                    Tok::Word(w) => names.iter().position(|n| *n == w).unwrap() as u8,
                    t => panic!("fcmp {:?}", t),
                };
                let t = self.ty(lx);
                let a = self.val(lx, t);
                lx.expect(b',');
                let b = self.val(lx, t);
                let (w, lanes) = self.scalar(t);
                Inst::FCmp { p, w, lanes, dst, a, b }
            }
            b"fneg" => {
                self.flags(lx);
                let (t, a) = self.tv(lx);
                let (w, lanes) = self.scalar(t);
                Inst::FNeg { w, lanes, dst, a }
            }
            b"load" => {
                self.flags(lx);
                let t = self.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tv(lx);
                Inst::Load { ty: t, dst, p }
            }
            b"store" => {
                self.flags(lx);
                let (t, v) = self.tv(lx);
                lx.expect(b',');
                let (_, p) = self.tv(lx);
                Inst::Store { ty: t, v, p }
            }
            b"alloca" => {
                let t = self.ty(lx);
                let mut n = None;
                let mut align = self.types.align(t);
                while lx.accept(b',') {
                    if lx.accept_w(b"align") {
                        if let Tok::Num(x) = lx.next() {
                            align = std::str::from_utf8(x).unwrap().parse().unwrap();
                        }
                    } else if let Tok::Meta(_) = lx.peek() {
                        break;
                    } else {
                        n = Some(self.tv(lx).1);
                    }
                }
                Inst::Alloca { size: self.types.size(t), align, n, dst }
            }
            b"getelementptr" => {
                self.flags(lx);
                let et = self.ty(lx);
                lx.expect(b',');
                let (bt, base) = self.tv(lx);
                if matches!(self.types.ty(bt), Ty::Vec(..)) {
                    return unsup(src);
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut firsti = true;
                while lx.accept(b',') {
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                    let (it, iv) = self.tv(lx);
                    if matches!(self.types.ty(it), Ty::Vec(..)) {
                        return unsup(src);
                    }
                    let iw = self.types.width(it);
                    let ci = if iv.is_const() {
                        match &self.consts[iv.idx()].1 {
                            Cst::Int(n) => Some(sext128(*n, iw) as i64),
                            Cst::Zero => Some(0),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    if firsti {
                        let sz = self.types.size(cur) as i64;
                        match ci {
                            Some(c) => off = off.wrapping_add(c.wrapping_mul(sz)),
                            None => idx.push((iv, sz, iw)),
                        }
                        firsti = false;
                    } else {
                        match self.types.ty(cur).clone() {
                            Ty::Struct(fs, _) => {
                                let c = ci.unwrap() as usize;
                                off += self.types.lay[cur as usize].offs[c] as i64;
                                cur = fs[c];
                            }
                            Ty::Arr(_, el) | Ty::Vec(_, el) => {
                                let sz = self.types.size(el) as i64;
                                match ci {
                                    Some(c) => off = off.wrapping_add(c.wrapping_mul(sz)),
                                    None => idx.push((iv, sz, iw)),
                                }
                                cur = el;
                            }
                            t => panic!("gep into {:?}", t),
                        }
                    }
                }
                Inst::Gep { dst, base, off, idx }
            }
            b"select" => {
                self.flags(lx);
                let (ct, c) = self.tv(lx);
                lx.expect(b',');
                let (t, a) = self.tv(lx);
                lx.expect(b',');
                let (_, b) = self.tv(lx);
                let vecc = match self.types.ty(ct) {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                Inst::Select { w: self.types.width(t), vecc, dst, c, a, b, ty: t }
            }
            b"extractvalue" => {
                let (_, a) = self.tv(lx);
                let path = self.ipath(lx);
                Inst::ExtractValue { dst, a, path }
            }
            b"insertvalue" => {
                let (_, a) = self.tv(lx);
                lx.expect(b',');
                let (_, v) = self.tv(lx);
                let path = self.ipath(lx);
                Inst::InsertValue { dst, a, v, path }
            }
            b"extractelement" => {
                let (_, a) = self.tv(lx);
                lx.expect(b',');
                let (_, i) = self.tv(lx);
                Inst::ExtractElem { dst, a, i }
            }
            b"insertelement" => {
                let (_, a) = self.tv(lx);
                lx.expect(b',');
                let (_, v) = self.tv(lx);
                lx.expect(b',');
                let (_, i) = self.tv(lx);
                Inst::InsertElem { dst, a, v, i }
            }
            b"shufflevector" => {
                let (_, a) = self.tv(lx);
                lx.expect(b',');
                let (_, b) = self.tv(lx);
                lx.expect(b',');
                let mt = self.ty(lx);
                let n = match self.types.ty(mt) {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!("shuffle"),
                };
                let mask = match self.types.cst(lx, src, mt) {
                    Cst::Agg(v) => v.iter().map(|(_, c)| if let Cst::Int(i) = c { *i as i32 } else { 0 }).collect(),
                    _ => vec![0; n],
                };
                Inst::Shuffle { dst, a, b, mask }
            }
            b"freeze" => {
                let (_, a) = self.tv(lx);
                Inst::Freeze { dst, a }
            }
            b"cmpxchg" => {
                self.flags(lx);
                let (_, p) = self.tv(lx);
                lx.expect(b',');
                let (t, c) = self.tv(lx);
                lx.expect(b',');
                let (_, n) = self.tv(lx);
                Inst::CmpXchg { dst, p, c, n, ty: t }
            }
            b"atomicrmw" => {
                self.flags(lx);
                let op: &'static str = match lx.next() {
                    Tok::Word(b"add") => "add", Tok::Word(b"sub") => "sub", Tok::Word(b"and") => "and", Tok::Word(b"or") => "or", Tok::Word(b"xor") => "xor", Tok::Word(b"xchg") => "xchg",
                    Tok::Word(b"umax") => "umax", Tok::Word(b"umin") => "umin", Tok::Word(b"max") => "max", Tok::Word(b"min") => "min",
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tv(lx);
                lx.expect(b',');
                let (t, v) = self.tv(lx);
                Inst::Rmw { op, dst, p, v, ty: t }
            }
            b"fence" => Inst::Nop,
            b"br" => {
                if let Tok::Word(b"label") = lx.peek() {
                    return Inst::Br(self.block(lx));
                }
                let (_, c) = self.tv(lx);
                lx.expect(b',');
                let t = self.block(lx);
                lx.expect(b',');
                let f = self.block(lx);
                Inst::CondBr(c, t, f)
            }
            b"switch" => {
                let (t, v) = self.tv(lx);
                lx.expect(b',');
                let d = self.block(lx);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.accept(b']') {
                    let ct = self.ty(lx);
                    let c = match self.types.cst(lx, src, ct) {
                        Cst::Int(i) => i,
                        _ => 0,
                    };
                    lx.expect(b',');
                    let b = self.block(lx);
                    cs.push((c, b));
                }
                Inst::Switch(v, self.types.width(t), d, cs)
            }
            b"ret" => {
                let t = self.ty(lx);
                if *self.types.ty(t) == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.val(lx, t)))
                }
            }
            b"unreachable" => Inst::Unreachable,
            b"resume" | b"landingpad" | b"cleanupret" | b"catchswitch" => Inst::Unsupported("unwind path".into()),
            b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
                let invoke = w == b"invoke";
                if !(w == b"call" || invoke) {
                    lx.next();
                }
                self.flags(lx);
                // calling convention and return attributes
                self.skip_ret_attrs(lx);
                let ret = self.ty(lx);
                if lx.peek() == Tok::P(b'(') {
                    lx.next();
                    lx.skip_group(b'(', b')');
                }
                let p = lx.p;
                let mut asm = None;
                let mut callee_g: Option<&'a [u8]> = None;
                let mut callee_p = None;
                match lx.next() {
                    Tok::Global(g) => callee_g = Some(g),
                    Tok::Local(n) => callee_p = Some(Opd::reg(self.reg(n))),
                    Tok::Word(b"asm") => {
                        let mut t = String::new();
                        loop {
                            match lx.next() {
                                Tok::Str(s) => {
                                    t.push_str(&String::from_utf8_lossy(s));
                                    t.push('|');
                                    if lx.accept(b',') {
                                        continue;
                                    }
                                    break;
                                }
                                Tok::Word(_) => {}
                                t => panic!("asm {:?}", t),
                            }
                        }
                        asm = Some(t);
                    }
                    _ => {
                        lx.p = p;
                        let pt = self.types.get(Ty::Ptr);
                        callee_p = Some(self.val(lx, pt));
                    }
                }
                lx.expect(b'(');
                let mut args = vec![];
                let mut argt = vec![];
                if !lx.accept(b')') {
                    loop {
                        let t = self.ty(lx);
                        self.skip_attrs(lx);
                        let v = self.val(lx, t);
                        args.push(v);
                        argt.push(t);
                        if !lx.accept(b',') {
                            break;
                        }
                    }
                    lx.expect(b')');
                }
                let mut normal = NONORMAL;
                if invoke {
                    loop {
                        match lx.next() {
                            Tok::Word(b"to") => break,
                            Tok::Eof => panic!("invoke"),
                            Tok::P(b'[') => lx.skip_group(b'[', b']'),
                            _ => {}
                        }
                    }
                    normal = self.block(lx);
                }
                let callee = if let Some(t) = asm {
                    Callee::Asm(t)
                } else if let Some(g) = callee_g {
                    if let Some(&fi) = self.func_idx.get(g) {
                        Callee::Direct(fi)
                    } else {
                        let n = String::from_utf8_lossy(g).to_string();
                        match intrinsic(&n) {
                            Some("nop") => {
                                if invoke {
                                    return Inst::Br(normal);
                                }
                                return Inst::Nop;
                            }
                            Some(i) => Callee::Intrinsic(i, n),
                            None => Callee::Extern(n),
                        }
                    }
                } else {
                    Callee::Ptr(callee_p.unwrap())
                };
                Inst::Call { dst, callee, args, argt, ret, normal }
            }
            _ => unsup(src),
        }
    }
    fn ipath(&mut self, lx: &mut Lex<'a>) -> Vec<u32> {
        let mut path = vec![];
        while lx.accept(b',') {
            match lx.next() {
                Tok::Num(n) => path.push(std::str::from_utf8(n).unwrap().parse().unwrap()),
                _ => break,
            }
        }
        path
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn intrinsic(n: &str) -> Option<&'static str> {
    let r = n.strip_prefix("llvm.")?;
    const NOPS: &[&str] = &["lifetime.", "dbg.", "assume", "experimental.noalias", "prefetch", "invariant.", "donothing", "sideeffect", "stackrestore", "x86.sse2.pause", "var.annotation"];
    if NOPS.iter().any(|p| r.starts_with(p)) {
        return Some("nop");
    }
    const K: &[&str] = &[
        "memcpy", "memmove", "memset", "umax", "umin", "smax", "smin", "uadd.with.overflow", "sadd.with.overflow", "usub.with.overflow", "ssub.with.overflow", "umul.with.overflow",
        "smul.with.overflow", "uadd.sat", "usub.sat", "sadd.sat", "ssub.sat", "ctlz", "cttz", "ctpop", "fshl", "fshr", "bswap", "bitreverse", "abs", "vector.reduce.add", "vector.reduce.or",
        "vector.reduce.and", "vector.reduce.xor", "vector.reduce.umax", "vector.reduce.umin", "vector.reduce.mul", "load.relative", "trap", "debugtrap", "expect", "stacksave", "fabs", "floor", "ceil", "trunc", "rint", "round", "roundeven", "copysign", "fptoui.sat", "fptosi.sat",
        "is.constant", "objectsize", "threadlocal.address", "fmuladd", "fma", "minnum", "maxnum", "sqrt", "pow", "powi", "exp", "log", "ucmp", "scmp", "x86.", "eh.typeid", "vector.reduce.smax", "vector.reduce.smin", "ptrmask", "is.fpclass", "log10", "log2", "exp2", "canonicalize", "nearbyint",
    ];
    let mut best: Option<&'static str> = None;
    for k in K {
        if r.starts_with(k) {
            if best.map_or(true, |b| b.len() < k.len()) {
                best = Some(k);
            }
        }
    }
    Some(best.unwrap_or("unknown"))
}
