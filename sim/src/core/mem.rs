//! Counts the memory that the code under test holds: every block remembers
//! whether it was asked for by a server task outside of the simulated kernel.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

thread_local! {
    static SERVER: Cell<bool> = const { Cell::new(false) };
}
static HELD: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

pub struct Counting;

fn pad(l: Layout) -> usize {
    l.align().max(16)
}

fn add(n: usize) {
    let now = HELD.fetch_add(n as i64, Relaxed) + n as i64;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

unsafe fn mark(p: *mut u8, l: Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let mine = SERVER.with(Cell::get);
    let q = p.add(pad(l));
    q.sub(8).cast::<u64>().write(u64::from(mine));
    if mine {
        add(l.size());
    }
    q
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mark(System.alloc(Layout::from_size_align_unchecked(l.size() + pad(l), pad(l))), l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mark(System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + pad(l), pad(l))), l)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if q.sub(8).cast::<u64>().read() == 1 {
            HELD.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(q.sub(pad(l)), Layout::from_size_align_unchecked(l.size() + pad(l), pad(l)));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let p = System.realloc(q.sub(pad(l)), Layout::from_size_align_unchecked(l.size() + pad(l), pad(l)), n + pad(l));
        if p.is_null() {
            return p;
        }
        let q = p.add(pad(l));
        if q.sub(8).cast::<u64>().read() == 1 {
            HELD.fetch_sub(l.size() as i64, Relaxed);
            add(n);
        }
        q
    }
}

/// what is allocated from here on belongs to the server, or does not; returns what it was
pub fn serve(on: bool) -> bool {
    SERVER.with(|s| s.replace(on))
}

/// while it lives, what is allocated belongs to the simulator
pub struct Kernel(bool);

impl Drop for Kernel {
    fn drop(&mut self) {
        serve(self.0);
    }
}

pub fn kernel() -> Kernel {
    Kernel(serve(false))
}

pub fn held() -> i64 {
    HELD.load(Relaxed)
}

/// the most that was held since the last call
pub fn take_peak() -> i64 {
    PEAK.swap(HELD.load(Relaxed), Relaxed)
}
