//! Global allocator that counts requests per thread and notes how deep the
//! stack is when it is called.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static WIDE: Cell<i64> = const { Cell::new(0) };
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub struct Counting;

/// Note the current stack depth.
#[inline(never)]
pub fn touch() {
    let x = 0u8;
    let a = std::hint::black_box(&x) as *const u8 as usize;
    let _ = LOW.try_with(|c| {
        if a < c.get() {
            c.set(a)
        }
    });
}

/// Alignment of blocks that are counted separately.
const WIDELY: usize = 128;

fn wide(l: Layout, n: i64) {
    if l.align() == WIDELY {
        let _ = WIDE.try_with(|c| c.set(c.get() + n));
    }
}

fn note(n: usize) {
    touch();
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        wide(l, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        wide(l, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        touch();
        wide(l, -1);
        let _ = FREES.try_with(|c| c.set(c.get() + 1));
        System.dealloc(p, l)
    }
}

/// Number of allocation requests made so far by this thread.
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
/// Number of blocks freed so far by this thread.
pub fn frees() -> u64 {
    FREES.with(|c| c.get())
}
/// Number of existing blocks with an alignment of 128, made and freed by this
/// thread.
pub fn wides() -> i64 {
    WIDE.with(|c| c.get())
}
/// Number of bytes requested so far by this thread.
pub fn bytes() -> u64 {
    BYTES.with(|c| c.get())
}

/// Run and return how many bytes of stack were used at the deepest noted point.
#[inline(never)]
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let here = 0u8;
    let base = std::hint::black_box(&here) as *const u8 as usize;
    let before = LOW.with(|c| c.replace(usize::MAX));
    let r = f();
    let low = LOW.with(|c| c.replace(before));
    (r, base.saturating_sub(low))
}

/// Processor time used by this thread, in seconds.
pub fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
