//! The seams: everything nondeterministic the code under test can touch ends up here.

use crate::sched;
use crate::shm::{self, sh};
use std::alloc::{GlobalAlloc, Layout, System};

// ---------------------------------------------------------------- steps and coverage
pub static mut STEP: u64 = 0;
/// Next step at which something happens (preemption or budget).
pub static mut NEXT: u64 = u64::MAX;
pub static mut BUDGET: u64 = u64::MAX;
pub static mut GUARDS: u64 = 0;
static mut DUMMY: [u8; shm::COV_MAX] = [0; shm::COV_MAX];
static mut COV: *mut u8 = std::ptr::addr_of_mut!(DUMMY) as *mut u8;

pub fn attach_cov() {
    unsafe { COV = std::ptr::addr_of_mut!((*shm::SH).cov) as *mut u8 }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        GUARDS += 1;
        *p = (GUARDS as usize).min(shm::COV_MAX - 1) as u32;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    *COV.add(*g as usize) = 1;
    STEP += 1;
    if STEP >= NEXT {
        slow(*g as u64);
    }
}

macro_rules! mem_cb {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_p: *const u8) {
            STEP += 1;
            if STEP >= NEXT {
                slow(0);
            }
        }
    )* };
}
mem_cb!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);

#[cold]
unsafe fn slow(site: u64) {
    if STEP >= BUDGET {
        shm::fail_now("no-progress:step-budget", "the operation exceeded its step budget (endless or superlinear work)");
    }
    sched::at_point(site);
}

/// What a single operation may take unless its check knows better.
const PER_OPERATION: u64 = 2_000_000_000;
/// A run that took more in all ends early: what it did was judged.
const PER_RUN: u64 = 2_000_000_000;
static mut OWN_BUDGET: bool = false;

/// Limits the steps of what follows, until `usual_budget`.
pub fn set_budget(steps: u64) {
    unsafe {
        OWN_BUDGET = true;
        BUDGET = STEP.saturating_add(steps);
        sched::arm();
    }
}

/// Every operation has a budget of its own.
pub fn usual_budget() {
    unsafe {
        OWN_BUDGET = false;
        BUDGET = STEP.saturating_add(PER_OPERATION);
        sched::arm();
    }
}

/// The next operation begins.
pub fn operation() {
    unsafe {
        if OWN_BUDGET {
            return;
        }
        if STEP > PER_RUN {
            shm::P::CutShort.hit();
            shm::end_now();
        }
        BUDGET = STEP + PER_OPERATION;
        sched::arm();
    }
}

pub fn steps() -> u64 {
    unsafe { STEP }
}

pub fn flush_counts() {
    unsafe {
        sh().steps = STEP;
    }
}

// ---------------------------------------------------------------- allocator
pub struct Meter;
pub static mut METER: bool = false;
pub static mut LIVE: i64 = 0;
pub static mut PEAK: i64 = 0;
/// Bytes requested in total: catches repeated copying that instrumentation cannot see.
pub static mut TOTAL: i64 = 0;
pub static mut TOTAL_LIMIT: i64 = i64::MAX;
pub static mut LIMIT: i64 = i64::MAX;
/// Guard for every run: nothing protofish does here needs more than this.
const HARD: usize = 3 << 30;

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if METER {
            LIVE -= l.size() as i64;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        let r = System.realloc(p, l, n);
        if METER {
            LIVE -= l.size() as i64;
        }
        r
    }
}

#[inline]
unsafe fn note(n: usize) {
    if n > HARD && !shm::SH.is_null() && sh().in_sut != 0 {
        shm::fail_now("memory:huge-request", "a single allocation of more than 3 GiB was requested");
    }
    if METER {
        LIVE += n as i64;
        TOTAL += n as i64;
        if TOTAL > TOTAL_LIMIT {
            METER = false;
            shm::fail_now("work:copying", "the operation copies more memory than the bound for its input");
        }
        if LIVE > PEAK {
            PEAK = LIVE;
            if LIVE > LIMIT {
                shm::fail_now("memory:budget", "the operation holds more memory than the bound for its input");
            }
        }
    }
}

#[global_allocator]
static ALLOC: Meter = Meter;

pub fn meter_start(limit: i64, total: i64) {
    unsafe {
        TOTAL = 0;
        TOTAL_LIMIT = total;
        LIVE = 0;
        PEAK = 0;
        LIMIT = limit;
        METER = true;
    }
}
/// Bytes allocated and not freed since the meter was started.
pub fn live() -> i64 {
    unsafe { LIVE }
}
pub fn meter_stop() -> (i64, i64) {
    unsafe {
        METER = false;
        (PEAK, TOTAL)
    }
}

// ---------------------------------------------------------------- kernel entry points
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = if n == libc::SYS_futex && sched::is_sim_thread() {
        sched::futex(a as usize, b as i32, c as u32, d)
    } else if n == libc::SYS_getrandom {
        getrandom(a as *mut u8, b as usize, 0) as i64
    } else {
        raw_syscall(n, a, b, c, d, e, f)
    };
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

static mut HASH_SEED: u64 = 0x5EED;
pub fn set_hash_seed(s: u64) {
    unsafe { HASH_SEED = s }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < n {
        let w = crate::tape::splitmix(&mut *std::ptr::addr_of_mut!(HASH_SEED)).to_le_bytes();
        for b in w {
            if i < n {
                *p.add(i) = b;
                i += 1;
            }
        }
    }
    n as isize
}

pub static mut SIM_CLOCK: bool = false;
pub static mut NOW_US: u64 = 0;

/// The time that passes at every so many readings of the clock: a slow or stalled node.
static mut CLOCK_STALL: u64 = 0;
static mut CLOCK_EVERY: u64 = 1;
static mut CLOCK_READS: u64 = 0;
pub fn clock_stall(us: u64, every: u64) {
    unsafe {
        CLOCK_STALL = us;
        CLOCK_EVERY = every;
        CLOCK_READS = 0;
    }
}

pub fn clock_add(us: u64) {
    unsafe { NOW_US = NOW_US.wrapping_add(us) }
}
pub fn clock_set(us: u64) {
    unsafe { NOW_US = us }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if SIM_CLOCK {
        (*ts).tv_sec = 1_600_000_000 + (NOW_US / 1_000_000) as i64;
        (*ts).tv_nsec = ((NOW_US % 1_000_000) * 1000) as i64;
        CLOCK_READS += 1;
        if CLOCK_READS % CLOCK_EVERY == 0 {
            NOW_US = NOW_US.wrapping_add(CLOCK_STALL);
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::is_sim_thread() {
        sched::force_switch();
        0
    } else {
        raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
    }
}

/// Sleeping costs simulated time only.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if SIM_CLOCK {
        NOW_US = NOW_US.wrapping_add((*req).tv_sec as u64 * 1_000_000 + (*req).tv_nsec as u64 / 1000);
        if sched::is_sim_thread() {
            sched::force_switch();
        }
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32)
}
