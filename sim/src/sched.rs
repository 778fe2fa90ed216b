//! Seeded scheduler for real threads: exactly one simulated thread runs at a time, and who
//! runs next is decided here, at the instrumented points of the code under test.

use crate::props::Carry;
use crate::seam::{self, raw_syscall};
use crate::shm::{self, ev, sh, F, P};
use crate::tape;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

const MAX: usize = 64;

thread_local! {
    static ID: Cell<i32> = const { Cell::new(-1) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Runnable,
    Blocked(usize),
    /// Lost interest for a while (stall fault): skipped this many scheduling decisions.
    Stalled(u32),
    Done,
}

static mut ACTIVE: bool = false;
static mut N: usize = 0;
static mut CUR: usize = 0;
static mut ST: [St; MAX] = [St::Done; MAX];
static mut WOKEN: [bool; MAX] = [false; MAX];
static mut NEXT_SWITCH: u64 = u64::MAX;
static mut MEAN_GAP: u64 = 100;
static mut STALLS: bool = false;
static BATON: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static EXIT: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
/// How many of the threads are the bodies given to `run`; the others were started by the code
/// under test.
static mut BODIES: usize = 0;
static mut HANDLE: [libc::pthread_t; MAX] = [0; MAX];
/// The run is over for this thread: it goes on without the simulator.
static mut RELEASED: [bool; MAX] = [false; MAX];
/// Once all bodies are done the others are simulated until this step at most.
static mut DRAIN: u64 = u64::MAX;
/// Threads that no simulator controls: started outside a run or left over from one.
static FOREIGN: AtomicU32 = AtomicU32::new(0);
static mut POLLS: u32 = 0;

pub fn is_sim_thread() -> bool {
    unsafe { ACTIVE && ID.with(|c| c.get()) >= 0 }
}

fn wait(a: &AtomicU32) {
    while a.swap(0, Ordering::SeqCst) == 0 {
        unsafe {
            raw_syscall(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0);
        }
    }
}
fn post(a: &AtomicU32) {
    a.store(1, Ordering::SeqCst);
    unsafe {
        raw_syscall(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}

/// Recomputes when the instrumentation must next call in.
pub unsafe fn arm() {
    seam::NEXT = NEXT_SWITCH.min(seam::BUDGET);
}

unsafe fn new_gap() {
    let g = 1 + tape::below(2 * MEAN_GAP);
    NEXT_SWITCH = seam::STEP + g;
    arm();
}

pub unsafe fn at_point(site: u64) {
    if !is_sim_thread() {
        arm();
        return;
    }
    F::Preempt.hit();
    ev(900, ID.with(|c| c.get()) as u64, site);
    if seam::STEP >= DRAIN {
        over(ID.with(|c| c.get()) as usize);
        return;
    }
    switch(true);
    new_gap();
}

pub fn force_switch() {
    unsafe {
        switch(true);
    }
}

unsafe fn pick_next(include_me: bool) -> Option<usize> {
    let me = CUR;
    // Stalled threads come back one by one as decisions pass, or when nobody else can run.
    let mut cand = [0usize; MAX];
    let mut n = 0;
    for i in 0..N {
        if let St::Stalled(k) = ST[i] {
            ST[i] = if k == 0 { St::Runnable } else { St::Stalled(k - 1) };
        }
    }
    // The current thread first, so that zero on the tape means "no switch".
    for k in 0..N {
        let i = (me + k) % N;
        if ST[i] == St::Runnable && (include_me || i != me) {
            cand[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        for i in 0..N {
            if let St::Stalled(_) = ST[i] {
                ST[i] = St::Runnable;
                if include_me || i != me {
                    return Some(i);
                }
            }
        }
        return wait_for_foreign();
    }
    Some(cand[tape::us(n)])
}

/// Nobody can go on, but a thread outside the simulation may be about to wake somebody. A futex
/// may wake without a reason, so everybody has a look.
unsafe fn wait_for_foreign() -> Option<usize> {
    POLLS += 1;
    if FOREIGN.load(Ordering::SeqCst) == 0 || POLLS > 10_000 {
        return None;
    }
    let ts = libc::timespec { tv_sec: 0, tv_nsec: 500_000 };
    raw_syscall(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
    let mut first = None;
    for i in 0..N {
        if let St::Blocked(a) = ST[i] {
            if !joining(a) {
                ST[i] = St::Runnable;
                WOKEN[i] = true;
                first = first.or(Some(i));
            }
        }
    }
    first
}

unsafe fn joining(addr: usize) -> bool {
    EXIT.iter().any(|e| e as *const _ as usize == addr)
}

/// Ends the run: whoever is left goes on without the simulator.
unsafe fn over(me: usize) {
    NEXT_SWITCH = u64::MAX;
    arm();
    ACTIVE = false;
    if ST[me] != St::Done {
        ID.with(|c| c.set(-1));
        RELEASED[me] = true;
        FOREIGN.fetch_add(1, Ordering::SeqCst);
    }
    for k in BODIES..N {
        if k != me && ST[k] != St::Done {
            RELEASED[k] = true;
            FOREIGN.fetch_add(1, Ordering::SeqCst);
            post(&BATON[k]);
        }
    }
    post(&ALL_DONE);
}

/// This thread has nothing more to do.
unsafe fn finish(me: usize) {
    ST[me] = St::Done;
    ID.with(|c| c.set(-1));
    let mark = &EXIT[me] as *const _ as usize;
    for k in 0..N {
        if ST[k] == St::Blocked(mark) {
            ST[k] = St::Runnable;
        }
    }
    if (0..BODIES).all(|k| ST[k] == St::Done) {
        if DRAIN == u64::MAX {
            DRAIN = seam::STEP + 1_000_000;
        }
        if seam::STEP >= DRAIN || !(BODIES..N).any(|k| matches!(ST[k], St::Runnable | St::Stalled(_))) {
            return over(me);
        }
    }
    match pick_next(false) {
        Some(t) => {
            ev(903, me as u64, t as u64);
            CUR = t;
            post(&BATON[t]);
        }
        None => shm::fail_now("no-progress:deadlock", "every remaining thread waits for a lock"),
    }
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<Create> = None;
static mut REAL_JOIN: Option<Join> = None;

/// Looks the real functions up, so that it does not happen inside a run.
pub fn init() {
    unsafe {
        REAL_CREATE = std::mem::transmute::<*mut libc::c_void, Option<Create>>(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
        REAL_JOIN = std::mem::transmute::<*mut libc::c_void, Option<Join>>(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
        assert!((*std::ptr::addr_of!(REAL_CREATE)).is_some() && (*std::ptr::addr_of!(REAL_JOIN)).is_some());
    }
}

static mut OWN: bool = false;

struct Begin {
    start: Start,
    arg: *mut libc::c_void,
    slot: usize,
}

extern "C" fn begin(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Begin);
        let (start, arg, slot) = (b.start, b.arg, b.slot);
        drop(b);
        if slot < MAX {
            wait(&BATON[slot]);
            if !RELEASED[slot] {
                ID.with(|c| c.set(slot as i32));
                CUR = slot;
            }
        }
        let r = start(arg);
        if is_sim_thread() {
            finish(slot);
            wait(&EXIT[slot]);
        } else {
            FOREIGN.fetch_sub(1, Ordering::SeqCst);
        }
        r
    }
}

/// A thread started by a simulated thread is simulated itself.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut libc::c_void) -> i32 {
    if (*std::ptr::addr_of!(REAL_CREATE)).is_none() {
        init();
    }
    let real = REAL_CREATE.unwrap();
    if OWN {
        return real(t, attr, start, arg);
    }
    // The place of a thread that was joined is free again.
    let free = (BODIES..N).find(|k| ST[*k] == St::Done && HANDLE[*k] == 0);
    if !is_sim_thread() || (N >= MAX && free.is_none()) {
        FOREIGN.fetch_add(1, Ordering::SeqCst);
        let b = Box::into_raw(Box::new(Begin { start, arg, slot: MAX }));
        let r = real(t, attr, begin, b as *mut _);
        if r != 0 {
            FOREIGN.fetch_sub(1, Ordering::SeqCst);
            drop(Box::from_raw(b));
        }
        return r;
    }
    let slot = free.unwrap_or(N);
    BATON[slot].store(0, Ordering::SeqCst);
    EXIT[slot].store(0, Ordering::SeqCst);
    RELEASED[slot] = false;
    let b = Box::into_raw(Box::new(Begin { start, arg, slot }));
    let r = real(t, attr, begin, b as *mut _);
    if r != 0 {
        drop(Box::from_raw(b));
        return r;
    }
    HANDLE[slot] = *t;
    ST[slot] = St::Runnable;
    N = N.max(slot + 1);
    P::ThreadStarted.hit();
    ev(904, ID.with(|c| c.get()) as u64, slot as u64);
    switch(true);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    if (*std::ptr::addr_of!(REAL_JOIN)).is_none() {
        init();
    }
    if is_sim_thread() {
        let me = ID.with(|c| c.get()) as usize;
        if let Some(k) = (BODIES..N).rev().find(|k| HANDLE[*k] == t) {
            while ST[k] != St::Done && is_sim_thread() {
                ST[me] = St::Blocked(&EXIT[k] as *const _ as usize);
                switch(false);
            }
            // It leaves, and what it does on its way out happens here and now.
            post(&EXIT[k]);
            let r = REAL_JOIN.unwrap()(t, ret);
            HANDLE[k] = 0;
            return r;
        }
    }
    REAL_JOIN.unwrap()(t, ret)
}

/// Hands the baton over; returns when this thread has it again.
unsafe fn switch(include_me: bool) {
    let me = ID.with(|c| c.get()) as usize;
    if STALLS && include_me && ST[me] == St::Runnable && tape::chance(1, 24) {
        ST[me] = St::Stalled(1 + tape::below(40) as u32);
        F::Stall.hit();
    }
    match pick_next(include_me) {
        Some(t) if t == me => {}
        Some(t) => {
            sh().switches += 1;
            P::ContextSwitch.hit();
            ev(901, me as u64, t as u64);
            CUR = t;
            post(&BATON[t]);
            wait(&BATON[me]);
            if RELEASED[me] {
                ID.with(|c| c.set(-1));
                return;
            }
            CUR = me;
        }
        None if (0..BODIES).all(|k| ST[k] == St::Done) => over(me),
        None => shm::fail_now("no-progress:deadlock", "every thread waits for a lock: no operation can continue"),
    }
}

/// futex(2) for simulated threads. Returns the kernel's value (negative errno on error).
pub unsafe fn futex(addr: usize, op: i32, val: u32, timeout: i64) -> i64 {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let me = ID.with(|c| c.get()) as usize;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as i64);
            }
            F::FutexWait.hit();
            P::BlockedThread.hit();
            ev(902, me as u64, 0);
            WOKEN[me] = false;
            if timeout == 0 {
                ST[me] = St::Blocked(addr);
            }
            switch(timeout != 0);
            if timeout != 0 && !WOKEN[me] {
                seam::clock_add(1000);
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut left = val;
            let mut woke = 0;
            let start = if N > 0 { tape::us(N) } else { 0 };
            for k in 0..N {
                let i = (start + k) % N;
                if left > 0 && ST[i] == St::Blocked(addr) {
                    ST[i] = St::Runnable;
                    WOKEN[i] = true;
                    left -= 1;
                    woke += 1;
                }
            }
            woke
        }
        _ => raw_syscall(libc::SYS_futex, addr as i64, op as i64, val as i64, timeout, 0, 0),
    }
}

/// Runs the bodies as simulated threads to completion. Bodies must not panic.
pub fn run<'a>(bodies: Vec<Box<dyn FnOnce() + 'a>>, mean_gap: u64, stalls: bool) {
    let n = bodies.len();
    assert!(n <= MAX && n > 0);
    unsafe {
        N = n;
        BODIES = n;
        DRAIN = u64::MAX;
        POLLS = 0;
        RELEASED = [false; MAX];
        HANDLE = [0; MAX];
        MEAN_GAP = mean_gap;
        STALLS = stalls;
        for i in 0..n {
            ST[i] = St::Runnable;
            BATON[i].store(0, Ordering::SeqCst);
            EXIT[i].store(0, Ordering::SeqCst);
        }
        ALL_DONE.store(0, Ordering::SeqCst);
    }
    static STARTED: AtomicU32 = AtomicU32::new(0);
    STARTED.store(0, Ordering::SeqCst);
    unsafe { OWN = true };
    std::thread::scope(|s| {
        for (i, b) in bodies.into_iter().enumerate() {
            let b = Carry(b);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    let b = b;
                    STARTED.fetch_add(1, Ordering::SeqCst);
                    wait(&BATON[i]);
                    ID.with(|c| c.set(i as i32));
                    unsafe { CUR = i };
                    b.take()();
                    unsafe { finish(i) };
                    // Leaving is not simulated: nobody leaves before everybody is done.
                    wait(&EXIT[i]);
                })
                .expect("spawn");
            // One thread starts at a time, so that start-up allocations come in one order.
            while STARTED.load(Ordering::SeqCst) < i as u32 + 1 {
                unsafe { raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
            }
        }
        unsafe {
            OWN = false;
            CUR = tape::us(n);
            new_gap();
            ACTIVE = true;
            post(&BATON[CUR]);
        }
        wait(&ALL_DONE);
        for e in EXIT.iter().take(unsafe { N }) {
            post(e);
        }
    });
}
