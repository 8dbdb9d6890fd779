//! What a runner has in place of functions of the C library: locks that wait, and clocks.
use crate::ctx::*;
use crate::sched;

extern "C" { fn __errno_location() -> *mut i32; }

unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 { if (-4095..0).contains(&r) { *__errno_location() = -r as i32; -1 } else { r } }

const FUTEX: i64 = 202;
const CLOCK_GETTIME: i64 = 228;

/// A simulated thread that waits for a lock (std's locks wait through futexes) lets the scheduler run the others instead of waiting really.
pub unsafe fn syscall(n: i64, a: [i64; 6]) -> i64 {
    if n == FUTEX && matches!(a[1] & 127, 0 | 9) && sched::scheduled() {
        if *(a[0] as *const u32) != a[2] as u32 { return ret(-11) }
        let _h = H::new();
        sched::blocked();
        return 0
    }
    ret(raw(n, a))
}

/// While a parse runs it sees the simulated clock.
pub unsafe fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    let parse = IN.try_with(|c| c.get()).unwrap_or(1) == 0 && FRAMES.try_with(|f| f.try_borrow().map_or(false, |f| !f.is_empty())).unwrap_or(false);
    if parse {
        let t = sched::now() as i64;
        *ts = [1_700_000_000 + t / 1000, t % 1000 * 1_000_000];
        return 0
    }
    ret(raw(CLOCK_GETTIME, [id as i64, ts as i64, 0, 0, 0, 0])) as i32
}
