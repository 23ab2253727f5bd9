//! Stand-ins for what a process can learn about the world it runs in, so that a call can be repeated in another world: the clock, the
//! environment, randomness from the system, the number of processors, the process id and what fresh memory happens to hold. They act
//! on a thread that asked for it; everywhere else they pass the real thing on.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static STEP: Cell<u64> = const { Cell::new(0) };
    static NOW: Cell<u64> = const { Cell::new(0) };
}
/// questions answered with something made up: clock, environment, randomness, processors, process id, fresh memory
pub static ASKED: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
pub const ASKED_NAMES: [&'static str; 6] = ["made_up_clock", "made_up_environment", "made_up_randomness", "made_up_processors", "made_up_process_id", "filled_fresh_memory"];

pub const ACTIVE: bool = cfg!(all(target_arch = "x86_64", target_os = "linux", not(any(miri, sanitize_asan, sanitize_msan, sanitize_tsan))));

/// Runs `f` in the world drawn from `seed`, whose clock moves on by `step` nanoseconds whenever somebody looks at it.
pub fn within<T>(seed: u64, step: u64, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back { fn drop(&mut self) { SEED.with(|s| s.set(0)); perturb(0); } }
    NOW.with(|n| n.set(1_000_000_000 + (seed >> 8) % 4_000_000_000_000_000_000));
    STEP.with(|s| s.set(step));
    let _b = Back;
    perturb(1 + (seed >> 40) as i32 % 255);
    SEED.with(|s| s.set(seed | 1));
    f()
}
/// the same for memory that the native codecs ask for
fn perturb(byte: i32) {
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(any(miri, sanitize_asan, sanitize_msan, sanitize_tsan))))]
    unsafe { unsafe extern "C" { fn mallopt(param: i32, v: i32) -> i32; } mallopt(-6, byte); }
    let _ = byte;
}
#[inline]
fn seed() -> u64 { SEED.try_with(|s| s.get()).unwrap_or(0) }
/// what a fresh block of memory is filled with, if with anything in particular
#[inline]
pub fn fresh(p: *mut u8, n: usize) {
    let s = seed();
    if s != 0 && !p.is_null() { ASKED[5].fetch_add(1, Relaxed); unsafe { std::ptr::write_bytes(p, (s >> 16) as u8, n.min(1 << 16)) } }
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(any(miri, sanitize_asan, sanitize_msan, sanitize_tsan))))]
mod symbols {
    use super::*;
    use core::ffi::{c_char, c_int, c_long, c_void, CStr};
    unsafe extern "C" { fn syscall(n: c_long, ...) -> c_long; static environ: *const *const c_char; }
    const SYS_GETPID: c_long = 39;
    const SYS_AFFINITY: c_long = 204;
    const SYS_CLOCK: c_long = 228;
    const SYS_GETRANDOM: c_long = 318;
    #[repr(C)]
    pub struct Timespec { s: i64, n: i64 }

    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut Timespec) -> c_int {
        if seed() != 0 {
            ASKED[0].fetch_add(1, Relaxed);
            let v = NOW.with(|n| { n.set(n.get().wrapping_add(STEP.with(|s| s.get())) & (i64::MAX as u64)); n.get() });
            unsafe { *t = Timespec { s: (v / 1_000_000_000) as i64, n: (v % 1_000_000_000) as i64 } };
            return 0;
        }
        unsafe { syscall(SYS_CLOCK, id as c_long, t) as c_int }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, flags: u32) -> isize {
        let s = seed();
        if s != 0 {
            let k = ASKED[2].fetch_add(1, Relaxed);
            for i in 0..n { unsafe { *b.cast::<u8>().add(i) = crate::rng::mix(s ^ k.rotate_left(20) ^ i as u64) as u8 } }
            return n as isize;
        }
        unsafe { syscall(SYS_GETRANDOM, b, n, flags as c_long) as isize }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, m: *mut u8) -> c_int {
        let s = seed();
        if s != 0 {
            ASKED[3].fetch_add(1, Relaxed);
            let cpus = [1usize, 2, 3, 16, 64][(s >> 24) as usize % 5].min(n * 8);
            for i in 0..n { unsafe { *m.add(i) = ((i * 8)..(i * 8 + 8)).fold(0, |a, c| a | (((c < cpus) as u8) << (c % 8))) } }
            return 0;
        }
        let r = unsafe { syscall(SYS_AFFINITY, pid as c_long, n, m) };
        if r < 0 { return -1; }
        for i in r as usize..n { unsafe { *m.add(i) = 0 } }
        0
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn getpid() -> c_int {
        let s = seed();
        if s != 0 { ASKED[4].fetch_add(1, Relaxed); return 2 + (s >> 32) as c_int % 30_000; }
        unsafe { syscall(SYS_GETPID) as c_int }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let want = unsafe { CStr::from_ptr(name) }.to_bytes();
        let s = seed();
        if s != 0 && !want.starts_with(b"RUST_") {
            ASKED[1].fetch_add(1, Relaxed);
            const V: [&CStr; 7] = [c"0", c"1", c"true", c"off", c"99999", c"/nowhere", c""];
            let h = crate::rng::mix(s ^ crate::rng::hash_bytes(5, want));
            return if h % 3 == 0 { std::ptr::null() } else { V[(h >> 8) as usize % V.len()].as_ptr() };
        }
        let mut e = unsafe { environ };
        unsafe {
            while !e.is_null() && !(*e).is_null() {
                let v = CStr::from_ptr(*e).to_bytes();
                if v.len() > want.len() && v[want.len()] == b'=' && &v[..want.len()] == want { return (*e).add(want.len() + 1); }
                e = e.add(1);
            }
        }
        std::ptr::null()
    }
}
