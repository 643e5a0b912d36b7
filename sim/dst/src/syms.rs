//! Symbols the simulator takes over: the coverage callbacks the instrumented
//! code calls, and the system calls through which time, entropy and blocking
//! would reach it.
use crate::prng::mix2;
use crate::sched;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static mut COV: [u8; 1 << 17] = [0; 1 << 17];
pub static GUARDS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if sched::in_sut() {
        let i = *g as usize & ((1 << 17) - 1);
        *(&raw mut COV as *mut u8).add(i) = 1;
        sched::step_point();
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        *p = (GUARDS.fetch_add(1, Relaxed) + 1) as u32;
        p = p.add(1);
    }
}

macro_rules! mem_hooks {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(_a: *const u8) { sched::step_point() }
    )* };
}
mem_hooks!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
    __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
    __sanitizer_cov_store8 __sanitizer_cov_store16);

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_NANOSLEEP: i64 = 35;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_SCHED_YIELD: i64 = 24;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && (b & 0x7f == 0 || b & 0x7f == 9) {
        // FUTEX_WAIT of a simulated thread: let another one run, then let it
        // look again (a spurious wake-up).
        if sched::in_sut() {
            let word = a as *const u32;
            if word.read_volatile() != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            if sched::blocked_point() {
                return 0;
            }
        }
    }
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let k = sched::HASH_ASKED.fetch_add(1, Relaxed);
    let s = sched::HASH_SEED.load(Relaxed);
    let _ = k;
    for i in 0..len {
        *buf.add(i) = mix2(s, i as u64) as u8;
    }
    len as isize
}

/// Simulated nanoseconds, and how many pass between two looks at the clock.
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(1_000);
/// Processors the code under test is told of; 0 for the machine's own.
pub static CPUS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if sched::in_sut() {
        let d = CLOCK_STEP.load(Relaxed);
        let t = CLOCK.fetch_add(d, Relaxed) + d;
        *ts = [1_600_000_000 + (t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sched::in_sut() {
        CLOCK.fetch_add(((*req)[0] * 1_000_000_000 + (*req)[1]) as u64, Relaxed);
        sched::blocked_point();
        return 0;
    }
    ret(raw(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sched::in_sut() {
        if fl == 0 {
            CLOCK.fetch_add(((*req)[0] * 1_000_000_000 + (*req)[1]) as u64, Relaxed);
        }
        sched::blocked_point();
        return 0;
    }
    -(raw(SYS_CLOCK_NANOSLEEP, clk as i64, fl as i64, req as i64, rem as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    let k = CPUS.load(Relaxed);
    if sched::in_sut() && k > 0 {
        for i in 0..n {
            let left = k.saturating_sub(8 * i as u64).min(8);
            *set.add(i) = ((1u32 << left) - 1) as u8;
        }
        return 0;
    }
    let r = raw(204, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 {
        ret(r) as i32
    } else {
        for i in r as usize..n {
            *set.add(i) = 0;
        }
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::in_sut() {
        sched::blocked_point();
        return 0;
    }
    raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}

/// Makes sure the linker keeps (and prefers) the definitions above.
pub fn keep() -> usize {
    let v = [
        syscall as *const () as usize,
        getrandom as *const () as usize,
        clock_gettime as *const () as usize,
        nanosleep as *const () as usize,
        clock_nanosleep as *const () as usize,
        sched_yield as *const () as usize,
        sched_getaffinity as *const () as usize,
    ];
    v.iter().fold(0, |a, b| a ^ b)
}

pub fn cov_count() -> (u64, u64) {
    let mut hit = 0;
    for i in 0..1 << 17 {
        hit += unsafe { *(&raw const COV as *const u8).add(i) } as u64;
    }
    (hit, GUARDS.load(Relaxed))
}
