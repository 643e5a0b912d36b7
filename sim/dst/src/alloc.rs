//! The global allocator: a scheduling point, and the source of the content
//! of freshly allocated memory, which Rust code must never depend on.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

/// What fresh memory holds: 0 leaves it as the system gave it.
pub static PATTERN: AtomicU64 = AtomicU64::new(0);
pub static JUNKED: AtomicU64 = AtomicU64::new(0);
const MAX_FILL: usize = 1 << 16;

thread_local! {
    /// Bytes this thread allocated and has not freed.
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn count(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + bytes));
    let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
}
/// Bytes and blocks held by this thread.
pub fn live() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}

unsafe fn junk(p: *mut u8, n: usize) {
    let pat = PATTERN.load(Relaxed);
    if pat == 0 || p.is_null() || !sched::in_sut() {
        return;
    }
    JUNKED.fetch_add(1, Relaxed);
    let n = n.min(MAX_FILL);
    match pat {
        1 => std::ptr::write_bytes(p, 0, n),
        2 => std::ptr::write_bytes(p, 0xFF, n),
        3 => std::ptr::write_bytes(p, 0xA5, n),
        4 => {
            // small integers, which look like plausible elements
            let mut i = 0;
            while i + 8 <= n {
                (p.add(i) as *mut u64).write_unaligned((i as u64 / 8) % 7);
                i += 8;
            }
        }
        _ => {
            let mut i = 0;
            while i + 8 <= n {
                (p.add(i) as *mut u64).write_unaligned(1.5f64.to_bits() + (i as u64 / 8));
                i += 8;
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64, 1);
        }
        junk(p, l.size());
        sched::mem_point();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sched::mem_point();
        if PATTERN.load(Relaxed) != 0 && sched::in_sut() {
            std::ptr::write_bytes(p, 0xDD, l.size().min(MAX_FILL));
        }
        count(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sched::mem_point();
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64, 1);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        sched::mem_point();
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            count(new as i64 - l.size() as i64, 0);
        }
        if !q.is_null() && new > l.size() {
            junk(q.add(l.size()), new - l.size());
        }
        q
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;
