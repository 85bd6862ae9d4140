//! Replay: runs one harness natively on given inputs.
//! usage: native HARNESS TIER [w:v ...]
//! exit: 0 finished, 40 inputs ran out, 41 assertion, 42 assumption, 43 panic,
//! 44 allocator misuse
#![allow(clippy::missing_safety_doc)]
#[allow(dead_code)]
mod all;

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

const MAX: usize = 300;
static mut INPUTS: [u64; MAX] = [0; MAX];
static N: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static TIER: AtomicU64 = AtomicU64::new(0);
static EXPECT: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);

#[cfg(not(miri))]
extern "C" {
    fn dprintf(fd: i32, f: *const u8, ...) -> i32;
    fn _exit(c: i32) -> !;
    fn free(p: *mut std::ffi::c_void);
    fn posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32;
}
#[cfg(not(miri))]
fn say(k: &'static [u8], v: u64) {
    unsafe { dprintf(1, k.as_ptr(), v) };
}
#[cfg(miri)]
fn say(k: &'static [u8], v: u64) {
    println!("{}", std::str::from_utf8(&k[..k.len() - 1]).unwrap().replace("%llu", &v.to_string()).trim_end());
}
#[cfg(miri)]
unsafe fn _exit(c: i32) -> ! {
    std::process::exit(c)
}
fn next() -> u64 {
    let i = POS.fetch_add(1, Relaxed);
    if i >= N.load(Relaxed) {
        say(b"INPUTS RAN OUT %llu\n\0", i as u64);
        unsafe { _exit(40) }
    }
    unsafe { INPUTS[i] }
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn sym_tier() -> u32 {
    TIER.load(Relaxed) as u32
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        say(b"ASSUME %llu\n\0", POS.load(Relaxed) as u64);
        unsafe { _exit(42) }
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, id: u64) {
    if !c {
        say(b"ASSERT %llu\n\0", id);
        unsafe { _exit(41) }
    }
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_cover(_id: u64) {}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    say(b"OBS %llu\n\0", v);
}
#[no_mangle]
pub extern "C" fn sym_expect_panic(on: u8) {
    EXPECT.store(on as u64, Relaxed);
}
#[no_mangle]
pub extern "C" fn sym_live_heap() -> u64 {
    // (threads that ended may still hold something, in Miri)
    if cfg!(miri) {
        0
    } else {
        LIVE.load(Relaxed)
    }
}
#[no_mangle]
pub extern "C" fn sym_done() -> ! {
    say(b"DONE %llu\n\0", 0);
    unsafe { _exit(0) }
}
type Entry = extern "C" fn(*mut u8);
struct Ptr(*mut u8);
unsafe impl Send for Ptr {}
impl Ptr {
    fn run(self, f: Entry) {
        f(self.0)
    }
}
#[no_mangle]
pub extern "C" fn sym_par(f: Entry, d: *mut u8, g: Entry, e: *mut u8, _switches: u32) {
    let (d, e) = (Ptr(d), Ptr(e));
    static READY: AtomicUsize = AtomicUsize::new(0);
    fn start() {
        READY.fetch_add(1, Relaxed);
        while READY.load(Relaxed) < 2 {
            std::hint::spin_loop();
        }
    }
    READY.store(0, Relaxed);
    let f = std::thread::spawn(move || {
        start();
        d.run(f)
    });
    let g = std::thread::spawn(move || {
        start();
        e.run(g)
    });
    f.join().unwrap();
    g.join().unwrap();
}
// Miri looks after allocations itself.
#[cfg(miri)]
mod memory {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};
    #[no_mangle]
    pub unsafe extern "C" fn rt_alloc(size: usize, align: usize) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc(Layout::from_size_align_unchecked(size, align))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rt_alloc_zeroed(size: usize, align: usize) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc_zeroed(Layout::from_size_align_unchecked(size, align))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rt_dealloc(p: *mut u8, size: usize, align: usize) {
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, Layout::from_size_align_unchecked(size, align))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rt_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8 {
        System.realloc(p, Layout::from_size_align_unchecked(size, align), new)
    }
}
#[cfg(not(miri))]
mod memory {
use super::*;
// Each allocation carries its layout in front of it, so that a wrong one is seen.
const H: usize = 64;
unsafe fn bad(what: &'static [u8]) -> ! {
    say(what, 0);
    _exit(44)
}
#[no_mangle]
pub unsafe extern "C" fn rt_alloc(size: usize, align: usize) -> *mut u8 {
    if size == 0 {
        bad(b"ALLOC zero bytes %llu\n\0");
    }
    let mut p: *mut u8 = std::ptr::null_mut();
    if align > 4096 || posix_memalign(&mut p, align.max(H), size + H) != 0 {
        return std::ptr::null_mut();
    }
    (p as *mut usize).write(size);
    (p as *mut usize).add(1).write(align);
    (p as *mut usize).add(2).write(0x5ab1e5);
    LIVE.fetch_add(1, Relaxed);
    p.add(H)
}
#[no_mangle]
pub unsafe extern "C" fn rt_alloc_zeroed(size: usize, align: usize) -> *mut u8 {
    let p = rt_alloc(size, align);
    if !p.is_null() {
        std::ptr::write_bytes(p, 0, size);
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn rt_dealloc(p: *mut u8, size: usize, align: usize) {
    let h = p.sub(H) as *mut usize;
    if h.add(2).read() != 0x5ab1e5 {
        bad(b"FREE of something not allocated %llu\n\0");
    }
    if h.read() != size || h.add(1).read() != align {
        bad(b"FREE with another layout %llu\n\0");
    }
    h.add(2).write(0);
    LIVE.fetch_sub(1, Relaxed);
    free(h as *mut std::ffi::c_void);
}
#[no_mangle]
pub unsafe extern "C" fn rt_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8 {
    let q = rt_alloc(new, align);
    if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, size.min(new));
        rt_dealloc(p, size, align);
    }
    q
}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for t in all::TABLES {
            for (n, _) in t.iter() {
                println!("{}", n);
            }
        }
        return;
    }
    TIER.store(a[2].parse().unwrap(), Relaxed);
    for (i, x) in a[3..].iter().enumerate() {
        unsafe { INPUTS[i] = x.parse().unwrap() };
    }
    N.store(a.len() - 3, Relaxed);
    let mut f = None;
    for t in all::TABLES {
        for (n, h) in t.iter() {
            if *n == a[1] {
                f = Some(*h);
            }
        }
    }
    let f = f.expect("no such harness");
    std::panic::set_hook(Box::new(|i| {
        if EXPECT.load(Relaxed) == 1 {
            say(b"EXPECTED-PANIC %llu\n\0", 0);
            unsafe { _exit(0) }
        }
        eprintln!("PANIC {}", i);
        unsafe { _exit(43) }
    }));
    // (what the first thread leaves behind)
    std::thread::spawn(|| ()).join().unwrap();
    f();
    sym_done()
}
