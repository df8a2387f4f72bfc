//! Virtual wall/monotonic clock. The binary defines `clock_gettime`, so every
//! `Instant::now()` / `SystemTime::now()` in the process (std, akasa, tokio)
//! goes through here. A thread that enabled virtual time sees a clock that
//! moves only when the explorer moves it.
use std::cell::Cell;

thread_local! {
    static VNOW: Cell<u64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
/// Seconds of the virtual epoch (2023-11-14), plus half a second so that
/// second boundaries do not coincide with the start of an execution.
const BASE: u64 = 1_700_000_000_500;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let on = ON.try_with(|o| o.get()).unwrap_or(false);
    if on {
        let ms = VNOW.with(|v| v.get());
        unsafe {
            (*ts).tv_sec = (ms / 1000) as libc::time_t;
            (*ts).tv_nsec = ((ms % 1000) * 1_000_000) as _;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

/// Start virtual time on this thread (reset to the base).
pub fn enable() {
    VNOW.with(|v| v.set(BASE));
    ON.with(|o| o.set(true));
}
pub fn disable() {
    ON.with(|o| o.set(false));
}
pub fn advance_ms(ms: u64) {
    VNOW.with(|v| v.set(v.get() + ms));
}
pub fn set_ms(ms: u64) {
    VNOW.with(|v| v.set(ms));
}
pub fn base_ms() -> u64 {
    BASE
}
pub fn now_ms() -> u64 {
    VNOW.with(|v| v.get()) - BASE
}

/// Runs `f` under virtual time.
pub fn with_virtual<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            disable();
        }
    }
    enable();
    let _off = Off;
    f()
}
