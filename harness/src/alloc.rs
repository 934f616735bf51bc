//! A counting allocator: live bytes and blocks per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
}
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

pub fn set_limit(bytes: usize) {
    LIMIT.store(bytes, Ordering::SeqCst);
}

fn on_alloc(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + size as isize));
    let _ = BLOCKS.try_with(|l| l.set(l.get() + 1));
    if TOTAL.fetch_add(size, Ordering::Relaxed) + size > LIMIT.load(Ordering::Relaxed) {
        LIMIT.store(usize::MAX, Ordering::SeqCst);
        eprintln!("memory limit exceeded");
        std::process::exit(crate::watchdog::EXIT_MEMORY);
    }
}

fn on_free(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as isize));
    let _ = BLOCKS.try_with(|l| l.set(l.get() - 1));
    TOTAL.fetch_sub(size, Ordering::Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
}

/// (bytes, blocks) allocated and not freed by this thread.
pub fn live() -> (isize, isize) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}
