//! The allocator of runners: counts live bytes per thread and fails the allocation it is told to fail.
use crate::ctx::*;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

#[inline]
fn failing() -> bool {
    if ALLOC_AT.try_with(|c| c.get()).unwrap_or(u64::MAX) == u64::MAX { return false }
    if IN.with(|c| c.get()) > 0 { return false }
    let n = ALLOCS.with(|c| { let n = c.get() + 1; c.set(n); n });
    if n == ALLOC_AT.with(|c| c.get()) { ALLOC_AT.with(|c| c.set(u64::MAX - 1)); return true }
    false
}
// Texts of sources live at addresses that the simulator chooses: a source parsed after another one is found where that one was,
// which is what an allocator does when it pleases. (Whatever remembers texts by their address is caught by this, and in the same way each time.)
const BASE: usize = 0x6a00_0000_0000;
const SLOT: usize = 1 << 18;
const SLOTS: usize = 64;
thread_local! { static BUMP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

/// Maps the memory for the texts. To be called once, at the start.
pub fn map_texts() {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE
    let p = unsafe { mmap(BASE as *mut u8, SLOT * SLOTS, 3, 0x2 | 0x20 | 0x100000 | 0x4000, -1, 0) };
    assert_eq!(p as usize, BASE, "the memory for texts is not free");
}
/// Everything that `f` allocates is put at the start of the given place.
pub fn placed<T>(slot: usize, f: impl FnOnce() -> T) -> T {
    let _h = H::new();
    BUMP.with(|c| c.set(BASE + slot % SLOTS * SLOT));
    let r = f();
    BUMP.with(|c| c.set(0));
    r
}
fn bump(l: Layout) -> Option<*mut u8> {
    let b = BUMP.try_with(|c| c.get()).unwrap_or(0);
    if b == 0 { return None }
    let p = (b + l.align() - 1) & !(l.align() - 1);
    if (p - BASE) / SLOT != (p + l.size() - BASE) / SLOT { return None }
    BUMP.with(|c| c.set(p + l.size()));
    Some(p as *mut u8)
}
fn in_texts(p: *mut u8) -> bool { (p as usize).wrapping_sub(BASE) < SLOT * SLOTS }

fn add(n: i64) { let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + n)); }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if failing() { return std::ptr::null_mut() }
        add(l.size() as i64);
        if let Some(p) = bump(l) { return p }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); if !in_texts(p) { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if failing() { return std::ptr::null_mut() }
        if in_texts(p) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, n.min(l.size())); add(-(l.size() as i64)); }
            return q
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// To be called by the allocation error hook: unwinds for an injected failure.
pub fn alloc_failed() {
    if ALLOC_AT.with(|c| c.get()) == u64::MAX - 1 {
        ALLOC_AT.with(|c| c.set(u64::MAX));
        FRAMES.with(|f| if let Ok(mut f) = f.try_borrow_mut() { if let Some(fr) = f.last_mut() { fr.fired = true; } });
        std::panic::resume_unwind(Box::new(Cancel(FK::Alloc)))
    }
}
