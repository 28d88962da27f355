//! Counting allocator: lets a check bound the memory and the number of allocations of one call.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n)));
    let _ = COUNT.try_with(|t| t.set(t.get().wrapping_add(1)));
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Usage {
    pub peak: usize,
    pub total: usize,
    pub count: usize,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    let t0 = TOTAL.with(|t| t.get());
    let c0 = COUNT.with(|t| t.get());
    let r = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - live0).max(0) as usize,
        total: TOTAL.with(|t| t.get()).wrapping_sub(t0),
        count: COUNT.with(|t| t.get()).wrapping_sub(c0),
    };
    (r, u)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe extern "C" {
    fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32;
}

/// CPU time of this thread in nanoseconds (independent of how busy the machine is).
pub fn cpu_ns() -> u64 {
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
