//! Virtual clock: `clock_gettime` of the process is replaced (the binary's symbol wins over
//! libc's), so that `Instant::now`, `SystemTime::now` and with them tokio's timers and the
//! node's `now()` follow a per-thread virtual time which only the harness advances.
use std::cell::Cell;

/// Virtual UNIX time at which every case starts.
pub const BASE: u64 = 1_700_000_000;

thread_local! {
    /// u64::MAX: real clock
    static VIRT_NS: Cell<u64> = const { Cell::new(u64::MAX) };
    static REAL_OFF: Cell<u64> = const { Cell::new(BASE * 1_000_000_000) };
}

fn raw(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int }
}

#[no_mangle]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let v = VIRT_NS.try_with(|v| v.get()).unwrap_or(u64::MAX);
    if v == u64::MAX {
        return raw(clk, ts);
    }
    let ns = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => v + REAL_OFF.with(|o| o.get()),
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => {
            v + 1_000_000_000_000
        }
        _ => return raw(clk, ts),
    };
    unsafe {
        (*ts).tv_sec = (ns / 1_000_000_000) as _;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    }
    0
}

/// Starts virtual time on this thread, at `BASE`.
pub fn start() {
    REAL_OFF.with(|o| o.set(BASE * 1_000_000_000));
    VIRT_NS.with(|v| v.set(0));
}
pub fn stop() {
    VIRT_NS.with(|v| v.set(u64::MAX));
}
/// Shifts the wall clock only (used to place a node in another epoch).
pub fn set_unix_base(sec: u64) {
    REAL_OFF.with(|o| o.set(sec * 1_000_000_000));
}
pub fn advance_ms(ms: u64) {
    VIRT_NS.with(|v| v.set(v.get() + ms * 1_000_000));
}
/// Virtual ms since the start of the case
pub fn ms() -> u64 {
    match VIRT_NS.with(|v| v.get()) {
        u64::MAX => real_ms(),
        v => v / 1_000_000,
    }
}
/// Virtual unix time in seconds
pub fn unix() -> u32 {
    match VIRT_NS.with(|v| v.get()) {
        u64::MAX => std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as u32,
        v => ((v + REAL_OFF.with(|o| o.get())) / 1_000_000_000) as u32,
    }
}
/// Real monotonic time
pub fn real_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
/// CPU time of the calling thread
pub fn thread_cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
