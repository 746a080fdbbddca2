//! Paged copy-on-write memory with concrete bytes and a symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

pub const PSH: u32 = 9;
pub const PSZ: usize = 1 << PSH;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PSZ],
    /// expression per byte (0 = concrete); E 0 is the constant `false`, never stored here
    pub sym: Option<Box<[E; PSZ]>>,
}
impl Page {
    fn new() -> Self {
        Page { data: [0; PSZ], sym: None }
    }
}

#[derive(Clone)]
pub struct Region {
    pub base: u64,
    pub end: u64,
    pub pages: Vec<Rc<Page>>,
}
impl Region {
    pub fn new(base: u64) -> Self {
        Region { base, end: base, pages: vec![] }
    }
    pub fn grow(&mut self, to: u64, zero: &Rc<Page>) {
        if to > self.end {
            self.end = to;
        }
        let need = ((self.end - self.base) as usize + PSZ - 1) >> PSH;
        while self.pages.len() < need {
            self.pages.push(zero.clone());
        }
    }
}

pub const CONST_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x5000_0000;
pub const HEAP_BASE: u64 = 0x2_0000_0000;
pub const STACK_BASE: u64 = 0x6_0000_0000;

#[derive(Clone)]
pub struct Mem {
    pub konst: Rc<Region>,
    pub glob: Region,
    pub heap: Region,
    pub stack: Region,
    pub zero: Rc<Page>,
    pub hp: u64,
    pub sp: u64,
}

pub enum B {
    C(u8),
    S(E),
}

impl Mem {
    pub fn new() -> Self {
        Mem {
            konst: Rc::new(Region::new(CONST_BASE)),
            glob: Region::new(GLOB_BASE),
            heap: Region::new(HEAP_BASE),
            stack: Region::new(STACK_BASE),
            zero: Rc::new(Page::new()),
            hp: HEAP_BASE + 64,
            sp: STACK_BASE + 64,
        }
    }
    #[inline(always)]
    fn reg(&self, a: u64) -> Option<&Region> {
        let r = if a >= STACK_BASE {
            &self.stack
        } else if a >= HEAP_BASE {
            &self.heap
        } else if a >= GLOB_BASE {
            &self.glob
        } else {
            &*self.konst
        };
        if a >= r.base && a < r.end { Some(r) } else { None }
    }
    #[inline(always)]
    fn reg_mut(&mut self, a: u64) -> Option<&mut Region> {
        let r = if a >= STACK_BASE {
            &mut self.stack
        } else if a >= HEAP_BASE {
            &mut self.heap
        } else if a >= GLOB_BASE {
            &mut self.glob
        } else {
            Rc::get_mut(&mut self.konst)?
        };
        if a >= r.base && a < r.end { Some(r) } else { None }
    }
    pub fn mapped(&self, a: u64, n: u64) -> bool {
        match self.reg(a) {
            Some(r) => a + n <= r.end,
            None => false,
        }
    }
    #[inline(always)]
    pub fn page(&self, a: u64) -> Option<(&Page, usize)> {
        let r = self.reg(a)?;
        let o = a - r.base;
        Some((&r.pages[(o >> PSH) as usize], (o as usize) & (PSZ - 1)))
    }
    #[inline(always)]
    pub fn page_mut(&mut self, a: u64) -> Option<(&mut Page, usize)> {
        let r = self.reg_mut(a)?;
        let o = a - r.base;
        let p = Rc::make_mut(&mut r.pages[(o >> PSH) as usize]);
        Some((p, (o as usize) & (PSZ - 1)))
    }
    pub fn byte(&self, a: u64) -> Option<B> {
        let (p, o) = self.page(a)?;
        if let Some(s) = &p.sym {
            if s[o] != 0 {
                return Some(B::S(s[o]));
            }
        }
        Some(B::C(p.data[o]))
    }
    /// concrete load of up to 8 bytes; None when out of range, symbolic, or page-crossing
    #[inline(always)]
    pub fn load_fast(&self, a: u64, n: usize) -> Option<u64> {
        let (p, o) = self.page(a)?;
        if o + n > PSZ {
            return None;
        }
        if let Some(s) = &p.sym {
            if s[o..o + n].iter().any(|x| *x != 0) {
                return None;
            }
        }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.data[o..o + n]);
        Some(u64::from_le_bytes(b))
    }
    #[inline(always)]
    pub fn store_fast(&mut self, a: u64, n: usize, v: u64) -> bool {
        if let Some((p, o)) = self.page_mut(a) {
            if o + n <= PSZ {
                p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
                if let Some(s) = &mut p.sym {
                    s[o..o + n].iter_mut().for_each(|x| *x = 0);
                }
                return true;
            }
        }
        false
    }
    pub fn set(&mut self, a: u64, b: B) -> bool {
        match self.page_mut(a) {
            None => false,
            Some((p, o)) => {
                match b {
                    B::C(c) => {
                        p.data[o] = c;
                        if let Some(s) = &mut p.sym {
                            s[o] = 0
                        }
                    }
                    B::S(e) => {
                        p.sym.get_or_insert_with(|| Box::new([0; PSZ]))[o] = e;
                    }
                }
                true
            }
        }
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        // 16-byte header holds the size
        let p = (self.hp + 16 + al - 1) / al * al;
        self.hp = p + n.max(1);
        let z = self.zero.clone();
        self.heap.grow(self.hp + 64, &z);
        self.store_fast(p - 8, 8, n);
        p
    }
    pub fn alloc_size(&self, p: u64) -> Option<u64> {
        self.load_fast(p - 8, 8)
    }
    pub fn alloca(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(1);
        let p = (self.sp + al - 1) / al * al;
        self.sp = p + n;
        let z = self.zero.clone();
        self.stack.grow(self.sp + 64, &z);
        p
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> bool {
        if n == 0 || d == s {
            return true;
        }
        if !self.mapped(d, n) || !self.mapped(s, n) {
            return false;
        }
        // gather then scatter, in page runs
        let mut data: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, E)> = vec![];
        let mut i = 0;
        while i < n {
            let (p, o) = self.page(s + i).unwrap();
            let k = ((PSZ - o) as u64).min(n - i) as usize;
            data.extend_from_slice(&p.data[o..o + k]);
            if let Some(sy) = &p.sym {
                for j in 0..k {
                    if sy[o + j] != 0 {
                        syms.push((i + j as u64, sy[o + j]));
                    }
                }
            }
            i += k as u64;
        }
        let mut i = 0;
        while i < n {
            let (p, o) = match self.page_mut(d + i) {
                Some(x) => x,
                None => return false,
            };
            let k = ((PSZ - o) as u64).min(n - i) as usize;
            p.data[o..o + k].copy_from_slice(&data[i as usize..i as usize + k]);
            if let Some(sy) = &mut p.sym {
                sy[o..o + k].iter_mut().for_each(|x| *x = 0);
            }
            i += k as u64;
        }
        for (i, e) in syms {
            self.set(d + i, B::S(e));
        }
        true
    }
}
