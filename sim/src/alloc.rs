//! Counting allocator: memory the parser asks for is a simulated resource.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Mem {
    /// Bytes currently held
    pub live: i64,
    /// Largest value of `live` since the last reset
    pub peak: i64,
    /// Bytes requested
    pub total: u64,
    /// Requests
    pub count: u64,
}

thread_local! {
    static MEM: Cell<Mem> = const { Cell::new(Mem { live: 0, peak: 0, total: 0, count: 0 }) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

fn add(n: usize) {
    let _ = MEM.try_with(|m| {
        let mut v = m.get();
        v.live += n as i64;
        v.total += n as u64;
        v.count += 1;
        v.peak = v.peak.max(v.live);
        m.set(v);
        if v.total > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            eprintln!("SIM-ABORT memory budget exhausted");
            std::process::exit(86);
        }
    });
    let h = HOOK.try_with(|h| h.take()).ok().flatten();
    if let Some(h) = h {
        h();
        let _ = HOOK.try_with(|c| c.set(Some(h)));
    }
}

fn sub(n: usize) {
    let _ = MEM.try_with(|m| {
        let mut v = m.get();
        v.live -= n as i64;
        m.set(v);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn get() -> Mem {
    MEM.with(|m| m.get())
}

/// Start measuring on this thread, with at most `limit` more bytes requested
pub fn start(limit: u64) -> Mem {
    MEM.with(|m| {
        let mut v = m.get();
        v.peak = v.live;
        m.set(v);
        LIMIT.with(|l| l.set(v.total.saturating_add(limit)));
        v
    })
}

pub fn unlimit() {
    LIMIT.with(|l| l.set(u64::MAX));
}

/// Called on every allocation of this thread, not reentrant
pub fn set_hook(h: Option<fn()>) {
    HOOK.with(|c| c.set(h));
}
