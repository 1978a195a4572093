//! What the code under test allocates: a counting allocator, per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Usage {
    /// Bytes that are still held at the end
    pub live: i64,
    /// Most bytes held at one time
    pub peak: i64,
    /// All bytes asked for
    pub total: u64,
}

thread_local! {
    static NOW: Cell<Usage> = const { Cell::new(Usage { live: 0, peak: 0, total: 0 }) };
}

fn note(freed: usize, taken: usize) {
    let _ = NOW.try_with(|n| {
        let mut u = n.get();
        u.live += taken as i64 - freed as i64;
        u.peak = u.peak.max(u.live);
        u.total += taken as u64;
        n.set(u);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(0, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(0, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(l.size(), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        note(l.size(), size);
        System.realloc(p, l, size)
    }
}

/// Runs `f`, counting what this thread allocates.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let before = NOW.with(|n| n.replace(Usage::default()));
    let v = f();
    let used = NOW.with(|n| n.get());
    NOW.with(|n| {
        n.set(Usage {
            live: before.live + used.live,
            peak: before.peak.max(before.live + used.peak),
            total: before.total + used.total,
        })
    });
    (v, used)
}

pub fn self_test() {
    let (v, u) = metered(|| {
        let a = std::hint::black_box(vec![1u8; 1000]);
        drop(a);
        std::hint::black_box(vec![0u8; 300])
    });
    assert_eq!((u.live, u.peak, u.total), (300, 1000, 1300), "allocations are not counted");
    let (_, u) = metered(|| drop(v));
    assert_eq!((u.live, u.total), (-300, 0));
}
