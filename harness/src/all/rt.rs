//! What a harness may use. The `sym_*` and `rt_*` functions are provided by the
//! symbolic executor (in the IR) or by `native.rs` (in the replay binary).
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_tier() -> u32;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_cover(id: u64);
    fn sym_observe(v: u64);
    fn sym_expect_panic(on: u8);
    fn sym_live_heap() -> u64;
    fn rt_alloc(size: usize, align: usize) -> *mut u8;
    fn rt_alloc_zeroed(size: usize, align: usize) -> *mut u8;
    fn rt_dealloc(p: *mut u8, size: usize, align: usize);
    fn rt_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
}

/// Every allocation goes to the executor (or the replay runtime), with its layout.
struct Rt;
unsafe impl GlobalAlloc for Rt {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        rt_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        rt_realloc(p, l.size(), l.align(), new)
    }
}
#[global_allocator]
static RT: Rt = Rt;

pub fn any_u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { sym_u64() }
}
pub fn any_bool() -> bool {
    let b = any_u8();
    assume(b < 2);
    b == 1
}
/// 0 for the quick tier, 1 for the thorough one.
pub fn tier() -> u32 {
    unsafe { sym_tier() }
}
pub fn thorough() -> bool {
    tier() > 0
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn assert_id(c: bool, id: u64) {
    unsafe { sym_assert(c, id) }
}
pub fn fix(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// A value below `n`; the executor explores each of them on paths of its own.
pub fn pick(n: usize) -> usize {
    let v = any_u8();
    assume((v as usize) < n);
    fix(v as u64) as usize
}
/// Some symbolic value below n (n <= 256), not split into cases.
pub fn below(n: usize) -> u8 {
    let v = any_u8();
    assume((v as usize) < n);
    v
}
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn expect_panic(on: bool) {
    unsafe { sym_expect_panic(on as u8) }
}
pub fn live_heap() -> u64 {
    unsafe { sym_live_heap() }
}

/// `check!(id "what must hold", condition)`
#[macro_export]
macro_rules! check {
    ($id:literal $text:literal, $c:expr) => {{
        let _ = $text;
        $crate::all::rt::assert_id($c, $id)
    }};
}

/// Harnesses: `extern "C"` entry points, and a table for the replay binary.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n as extern "C" fn()) ),* ];
    };
}

/// Byte-string equality without a branch per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// A byte string of length 0..=max, every byte arbitrary.
pub fn any_bytes(max: usize) -> Vec<u8> {
    let n = pick(max + 1);
    bytes_n(n)
}
pub fn bytes_n(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any_u8());
    }
    v
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}

extern "C" {
    fn sym_par(f: extern "C" fn(*mut u8), d: *mut u8, g: extern "C" fn(*mut u8), e: *mut u8, switches: u32);
}
extern "C" fn in_thread<R, F: FnOnce() -> R>(d: *mut u8) {
    let d = unsafe { &mut *(d as *mut (Option<F>, Option<R>)) };
    let r = (d.0.take().unwrap())();
    d.1 = Some(r);
}
/// `f` and `g` in two threads, in every order of their synchronising steps with at
/// most `switches` changes of thread that nothing forces.
pub fn par<A: Send, B: Send>(switches: u32, f: impl FnOnce() -> A + Send, g: impl FnOnce() -> B + Send) -> (A, B) {
    fn entry<R, F: FnOnce() -> R>(_: &(Option<F>, Option<R>)) -> extern "C" fn(*mut u8) {
        in_thread::<R, F>
    }
    let mut x = (Some(f), None);
    let mut y = (Some(g), None);
    let (f, g) = (entry(&x), entry(&y));
    unsafe { sym_par(f, &mut x as *mut _ as *mut u8, g, &mut y as *mut _ as *mut u8, switches) };
    (x.1.unwrap(), y.1.unwrap())
}
