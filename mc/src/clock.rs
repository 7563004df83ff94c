//! The system's clock as seen by this program: while a time is set on a thread, that is what the
//! real time clock says there.
use std::cell::Cell;

thread_local! {
    static TIME: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}

/// seconds since the epoch and nanoseconds
pub fn set(t: Option<(i64, i64)>) {
    TIME.with(|c| c.set(t));
}

/// # Safety
/// As the C function of the same name.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n))) = TIME.try_with(|c| c.get()) {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    // no libc state: this is also called under the scheduler
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") libc::SYS_clock_gettime => r, in("rdi") id as i64, in("rsi") ts,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    0
}
