//! Symbolic primitives. In the symbolic build they are external symbols interpreted by the engine; in the
//! native build (feature "native") they replay the concrete inputs of one path.

#[cfg(not(feature = "native"))]
mod imp {
    mod raw {
        extern "C" {
            pub fn sx_u8() -> u8;
            pub fn sx_u16() -> u16;
            pub fn sx_u32() -> u32;
            pub fn sx_u64() -> u64;
            pub fn sx_bool() -> bool;
            pub fn sx_assume(c: bool);
            pub fn sx_assert(c: bool, id: u32);
            pub fn sx_reach(id: u32);
            pub fn sx_observe(v: u64);
            pub fn sx_param(i: u64, default: u64) -> u64;
            pub fn sx_conc(v: u64) -> u64;
            pub fn sx_heap_peak() -> u64;
            pub fn sx_heap_live() -> u64;
            pub fn sx_heap_reset();
        }
    }
    pub fn u8() -> u8 { unsafe { raw::sx_u8() } }
    pub fn u16() -> u16 { unsafe { raw::sx_u16() } }
    pub fn u32() -> u32 { unsafe { raw::sx_u32() } }
    pub fn u64() -> u64 { unsafe { raw::sx_u64() } }
    pub fn bool() -> bool { unsafe { raw::sx_bool() } }
    pub fn assume(c: bool) { unsafe { raw::sx_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { raw::sx_assert(c, id) } }
    pub fn reach(id: u32) { unsafe { raw::sx_reach(id) } }
    pub fn observe(v: u64) { unsafe { raw::sx_observe(v) } }
    pub fn param(i: u64, d: u64) -> u64 { unsafe { raw::sx_param(i, d) } }
    pub fn conc(v: u64) -> u64 { unsafe { raw::sx_conc(v) } }
    pub fn heap_peak() -> u64 { unsafe { raw::sx_heap_peak() } }
    pub fn heap_live() -> u64 { unsafe { raw::sx_heap_live() } }
    pub fn heap_reset() { unsafe { raw::sx_heap_reset() } }
}

#[cfg(feature = "native")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

    pub struct Ctx { pub inputs: Vec<u64>, pub pos: usize, pub params: Vec<(u64, u64)>, pub trace: Vec<u64>, pub reach: u64, pub failed: Option<u32> }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx { inputs: vec![], pos: 0, params: vec![], trace: vec![], reach: 0, failed: None }); }
    pub struct Stop(pub &'static str);
    fn next() -> u64 {
        CTX.with(|c| { let mut c = c.borrow_mut(); let p = c.pos; c.pos += 1; if p < c.inputs.len() { c.inputs[p] } else { 0 } })
    }
    pub fn u8() -> u8 { next() as u8 }
    pub fn u16() -> u16 { next() as u16 }
    pub fn u32() -> u32 { next() as u32 }
    pub fn u64() -> u64 { next() }
    pub fn bool() -> bool { next() != 0 }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Stop("deadend")) } }
    pub fn check(c: bool, id: u32) { if !c { CTX.with(|x| x.borrow_mut().failed = Some(id)); std::panic::panic_any(Stop("assert")) } }
    pub fn reach(id: u32) { CTX.with(|c| c.borrow_mut().reach |= 1 << (id & 63)) }
    pub fn observe(v: u64) { CTX.with(|c| c.borrow_mut().trace.push(v)) }
    pub fn param(i: u64, d: u64) -> u64 { CTX.with(|c| c.borrow().params.iter().find(|p| p.0 == i).map(|p| p.1).unwrap_or(d)) }
    pub fn conc(v: u64) -> u64 { v }

    pub struct Counting;
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub static PEAK: AtomicU64 = AtomicU64::new(0);
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    fn grow(n: u64) { let l = LIVE.fetch_add(n, Relaxed) + n; PEAK.fetch_max(l, Relaxed); }
    pub static LIMIT: AtomicU64 = AtomicU64::new(1 << 20);
    fn huge(n: usize) { if n as u64 > LIMIT.load(Relaxed) && ARMED.load(Relaxed) { super::die("hugealloc"); } }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { huge(l.size()); grow(l.size() as u64); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { huge(l.size()); grow(l.size() as u64); System.alloc_zeroed(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as u64, Relaxed); System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { huge(n); grow(n as u64); LIVE.fetch_sub(l.size() as u64, Relaxed); System.realloc(p, l, n) }
    }
    pub fn heap_peak() -> u64 { PEAK.load(Relaxed) }
    pub fn heap_live() -> u64 { LIVE.load(Relaxed) }
    pub fn heap_reset() { PEAK.store(LIVE.load(Relaxed), Relaxed) }
}
pub use imp::*;

#[cfg(feature = "native")]
pub fn die(what: &str) -> ! {
    use std::io::Write;
    ARMED.store(false, std::sync::atomic::Ordering::Relaxed);
    let _ = std::io::stdout().flush();
    println!("R\t{}\t\t0\t0", what);
    let _ = std::io::stdout().flush();
    std::process::exit(9);
}

/// Symbolic u128.
pub fn u128() -> u128 { let hi = u64(); let lo = u64(); ((hi as u128) << 64) | lo as u128 }
/// A concrete choice in 0..n (every value is explored).
pub fn choose(n: u8) -> u8 { if n <= 1 { return 0; } let v = u8(); assume(v < n); conc(v as u64) as u8 }
/// A byte buffer of exactly n symbolic bytes.
pub fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(u8()); } v }

/// Symbolic input bytes. Params: 0 = length bound N, 1 = class.
/// class 0: every byte string of 0..=N bytes. class 1: first byte has additional information 24..27, the full
/// argument follows (possibly truncated by up to N bytes) plus up to N further bytes.
/// class 2: text string of exactly 0..=N content bytes (short header). class 3: first byte tag/array/map of one or two
/// items (0xc0..=0xd7, 0x81, 0x82, 0xa1, 0xa2), then exactly N bytes.
pub fn input(default: u64) -> Vec<u8> {
    let n = param(0, default) as usize;
    match param(1, 0) {
        0 => { let l = choose(n as u8 + 1) as usize; bytes(l) }
        1 => {
            let ai = choose(4); let full = 1usize << ai;
            let tail = choose(2 * n as u8 + 1) as usize; // 0..=N: extra bytes; N+1..=2N: truncation
            let len = if tail <= n { full + tail } else if full >= tail - n { full - (tail - n) } else { 0 };
            let b = u8(); assume(b & 31 == 24 + ai);
            let mut d = Vec::with_capacity(1 + len); d.push(b); for _ in 0..len { d.push(u8()); } d
        }
        2 => { let l = choose(n as u8 + 1); let mut d = Vec::with_capacity(n + 1); d.push(0x60 | l); for _ in 0..l { d.push(u8()); } d }
        3 => { let h = [0x81u8, 0x82, 0xa1, 0xa2, 0xc0][choose(5) as usize]; let mut d = Vec::with_capacity(n + 1); d.push(h); for _ in 0..n { d.push(u8()); } d }
        _ => Vec::new(),
    }
}

