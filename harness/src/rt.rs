//! Interface to the symbolic executor; the native side is rt/symexrt.c.
#![allow(dead_code)]
mod ffi {
    extern "C" {
        pub fn symex_byte() -> u32;
        pub fn symex_assume(c: u32);
        pub fn symex_assert(c: u32, p: *const u8, n: usize);
        pub fn symex_observe(p: *const u8, n: usize);
        pub fn symex_cover(p: *const u8, n: usize);
        pub fn symex_concretize(p: *mut u8, n: usize);
        pub fn symex_print(p: *const u8, n: usize);
        pub fn symex_reject() -> !;
    }
}
/// any byte
pub fn byte() -> u8 {
    unsafe { ffi::symex_byte() as u8 }
}
pub fn assume(c: bool) {
    unsafe { ffi::symex_assume(c as u32) }
}
pub fn reject() -> ! {
    unsafe { ffi::symex_reject() }
}
pub fn check(c: bool, id: &'static str) {
    unsafe { ffi::symex_assert(c as u32, id.as_ptr(), id.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { ffi::symex_observe(b.as_ptr(), b.len()) }
}
pub fn observe_u64(x: u64) {
    observe(&x.to_le_bytes())
}
pub fn observe_bool(x: bool) {
    observe(&[x as u8])
}
pub fn cover(id: &'static str) {
    unsafe { ffi::symex_cover(id.as_ptr(), id.len()) }
}
pub fn print(s: &str) {
    unsafe { ffi::symex_print(s.as_ptr(), s.len()) }
}
/// splits the path so that the bytes are concrete afterwards
pub fn concretize(b: &mut [u8]) {
    unsafe { ffi::symex_concretize(b.as_mut_ptr(), b.len()) }
}
/// any value below n; one path per value
pub fn choose(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    let mut x = [b];
    concretize(&mut x);
    x[0]
}
pub fn any_bool() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}
pub fn choose_bool() -> bool {
    choose(2) == 1
}
/// any byte of the set
pub fn byte_of(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for x in set {
        ok |= b == *x;
    }
    assume(ok);
    b
}
pub fn byte_in(lo: u8, hi: u8) -> u8 {
    let b = byte();
    assume((b >= lo) & (b <= hi));
    b
}
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| byte()).collect()
}
/// any printable-ASCII string of exactly n characters
pub fn ascii(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| byte_in(0x20, 0x7e)).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// any string over the (ASCII) alphabet, exactly n characters
pub fn string_of(set: &[u8], n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| byte_of(set)).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// same, with every character decided (one path per string)
pub fn conc_string_of(set: &[u8], n: usize) -> String {
    let mut v: Vec<u8> = (0..n).map(|_| byte_of(set)).collect();
    concretize(&mut v);
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn any_u32() -> u32 {
    let b = bytes(4);
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
pub fn any_u64() -> u64 {
    let b = bytes(8);
    u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
}
pub fn any_i64() -> i64 {
    any_u64() as i64
}

/// runs a future and the tasks it spawns; timers fire once nothing else can go on
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll};
    let mut f = Box::pin(f);
    let w = futures_noop_waker();
    let mut cx = Context::from_waker(&w);
    let (mut tasks, mut timers, mut idle) = (vec![], vec![], 0);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        tasks.append(&mut rsx_shim::spawned());
        timers.append(&mut rsx_shim::timers());
        let before = tasks.len();
        tasks.retain_mut(|t| t.as_mut().poll(&mut cx).is_pending());
        if tasks.len() < before {
            idle = 0;
            continue;
        }
        if !timers.is_empty() {
            timers.drain(..).for_each(|t| rsx_shim::fire(&t));
            idle = 0;
            continue;
        }
        idle += 1;
        if idle > 2 {
            check(false, "future pending with nothing to wake it");
            reject()
        }
    }
}
pub fn futures_noop_waker() -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Entry {
    pub name: *const u8,
    pub len: usize,
    pub f: extern "C" fn(),
}
unsafe impl Sync for Entry {}
extern "C" {
    fn symex_main(argc: i32, argv: *const *const u8, t: *const Entry, n: usize) -> i32;
}
pub fn run_main(t: &[Entry]) -> i32 {
    let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
    let ptrs: Vec<*const u8> = args.iter().map(|a| a.as_ptr() as *const u8).collect();
    unsafe { symex_main(ptrs.len() as i32, ptrs.as_ptr(), t.as_ptr(), t.len()) }
}
/// declares the harness entries of a module
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        $( const _: () = { #[export_name = stringify!($n)] pub extern "C" fn entry() { $n() } }; )*
        mod ffi_entries { extern "C" { $( pub fn $n(); )* } }
        pub static TABLE: &[$crate::rt::Entry] = &[$( $crate::rt::Entry { name: stringify!($n).as_ptr(), len: stringify!($n).len(), f: unsafe { std::mem::transmute(ffi_entries::$n as unsafe extern "C" fn()) } } ),*];
    };
}

/// the clock the program under check reads
static NOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_000_000_000);
static NOW_NS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut Timespec) -> i32 {
    (*t).sec = NOW.load(std::sync::atomic::Ordering::Relaxed) as i64;
    (*t).nsec = NOW_NS.load(std::sync::atomic::Ordering::Relaxed) as i64;
    0
}
pub fn set_now(sec: u64, ms: u64) {
    NOW.store(sec, std::sync::atomic::Ordering::Relaxed);
    NOW_NS.store(ms * 1_000_000, std::sync::atomic::Ordering::Relaxed);
}
