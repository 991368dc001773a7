//! Deterministic work and memory meters for the crate under test.
//!
//! * Work: the crate under test is compiled with LLVM's trace-pc-guard
//!   instrumentation (see rustc-wrap.sh), every executed edge calls us. The
//!   number of edges is a deterministic function of the input. Exceeding the
//!   fuel limit ends the process with exit code FUEL_EXIT (only ever reached in
//!   a forked child).
//! * Memory: a counting global allocator with a peak meter and a hard limit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const FUEL_EXIT: i32 = 77;
pub const MEM_EXIT: i32 = 78;

static COUNT: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static EDGES: AtomicUsize = AtomicUsize::new(0);
const MAP: usize = 1 << 16;
static HIT: [std::sync::atomic::AtomicU8; MAP] = [const { std::sync::atomic::AtomicU8::new(0) }; MAP];

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            let n = EDGES.fetch_add(1, Relaxed) + 1;
            *p = (n % MAP) as u32 | 1 << 20;
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    // Not atomic read-modify-write on purpose: exact counts are only needed
    // single-threaded, where this is exact.
    let c = COUNT.load(Relaxed) + 1;
    COUNT.store(c, Relaxed);
    if c >= LIMIT.load(Relaxed) {
        unsafe { libc::_exit(FUEL_EXIT) };
    }
    let g = unsafe { *guard } as usize & (MAP - 1);
    let v = HIT[g].load(Relaxed);
    if v != 255 {
        HIT[g].store(v + 1, Relaxed);
    }
}

pub fn edges_total() -> usize {
    EDGES.load(Relaxed)
}
static SPENT: AtomicU64 = AtomicU64::new(0);
/// All edges executed so far, whatever was reset in between.
pub fn spent() -> u64 {
    SPENT.load(Relaxed) + COUNT.load(Relaxed)
}
pub fn reset(limit: u64) {
    SPENT.fetch_add(COUNT.swap(0, Relaxed), Relaxed);
    LIMIT.store(limit, Relaxed);
}
pub fn clear_map() {
    for h in HIT.iter() {
        h.store(0, Relaxed);
    }
}
pub fn count() -> u64 {
    COUNT.load(Relaxed)
}
pub fn distinct() -> usize {
    HIT.iter().filter(|h| h.load(Relaxed) != 0).count()
}
fn bucket(v: u8) -> u8 {
    match v {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// Fold the current map into `seen`; returns how many new (edge, count class)
/// pairs appeared.
pub fn merge_into(seen: &mut [u8]) -> usize {
    let mut new = 0;
    for (h, s) in HIT.iter().zip(seen.iter_mut()) {
        let b = bucket(h.load(Relaxed));
        if b & !*s != 0 {
            *s |= b;
            new += 1;
        }
    }
    new
}
pub fn map_len() -> usize {
    MAP
}

pub struct Meter;
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
/// Bytes allocated altogether, given back or not.
static TOTAL: AtomicU64 = AtomicU64::new(0);
static MEMLIM: AtomicI64 = AtomicI64::new(i64::MAX);
static METERING: AtomicBool = AtomicBool::new(false);

#[inline]
fn add(n: i64) {
    if METERING.load(Relaxed) {
        TOTAL.store(TOTAL.load(Relaxed) + n.max(0) as u64, Relaxed);
        let c = CUR.load(Relaxed) + n;
        CUR.store(c, Relaxed);
        if c > PEAK.load(Relaxed) {
            PEAK.store(c, Relaxed);
            if c > MEMLIM.load(Relaxed) {
                unsafe { libc::_exit(MEM_EXIT) };
            }
        }
    }
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GLOBAL: Meter = Meter;

/// Start metering heap use of this thread's work (single-threaded use only).
pub fn mem_start(limit: i64) {
    CUR.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    MEMLIM.store(limit, Relaxed);
    METERING.store(true, Relaxed);
}
/// Bytes allocated since the start, however many of them at a time.
pub fn mem_total() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn mem_stop() -> i64 {
    METERING.store(false, Relaxed);
    PEAK.load(Relaxed)
}
