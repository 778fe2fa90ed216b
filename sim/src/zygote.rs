//! One process per run: a zygote forks a child for every run, so each run starts from the
//! same memory image and its death is observed from outside.

use crate::shm::{self, sh, Shared};
use crate::{props, seam, tape};

pub struct Zygote {
    pub shared: *mut Shared,
    to: i32,
    from: i32,
    pid: i32,
}
unsafe impl Send for Zygote {}
// Every zygote is used by one worker at a time.
unsafe impl Sync for Zygote {}

pub const CPU_SECONDS: i64 = 20;
pub const WALL_SECONDS: u32 = 180;

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    pub kind: String,
    pub msg: String,
    pub tape: Vec<u64>,
    pub trace_hash: u64,
    pub steps: u64,
}

impl Zygote {
    /// Must be called while this process has a single thread.
    pub fn start() -> Zygote {
        let shared = shm::map();
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                shm::SH = shared;
                zygote_main(a[0], b[1]);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Zygote { shared, to: a[1], from: b[0], pid }
        }
    }

    #[allow(clippy::mut_from_ref)]
    pub fn sh(&self) -> &mut Shared {
        unsafe { &mut *self.shared }
    }

    pub fn run(&self, prop: u32, seed: u64, tape_in: Option<&[u64]>, verbose: bool, tier: u32) -> Outcome {
        let s = self.sh();
        s.prop = prop;
        s.seed = seed;
        s.tier = tier;
        s.verbose = verbose as u32;
        s.replay = tape_in.is_some() as u32;
        if let Some(t) = tape_in {
            s.tape_in_len = t.len() as u64;
            s.tape_in[..t.len()].copy_from_slice(t);
        }
        s.status = shm::ST_NONE;
        s.in_sut = 0;
        s.tape_out_len = 0;
        s.kind_len = 0;
        s.msg_len = 0;
        s.panic_len = 0;
        s.faults = [0; shm::NFAULT];
        s.probes = [0; shm::NPROBE];
        s.sim_us = 0;
        s.steps = 0;
        s.sut_ops = 0;
        s.events = 0;
        s.switches = 0;
        s.trace_hash = 0;
        s.nontrivial = 0;
        s.ratio = [0; 3];
        s.trace_len = 0;
        s.max_depth = 0;
        let mut st = [0u8; 4];
        unsafe {
            let one = [1u8];
            assert!(libc::write(self.to, one.as_ptr() as *const _, 1) == 1, "zygote gone");
            let mut n = 0;
            while n < 4 {
                let r = libc::read(self.from, st[n..].as_mut_ptr() as *mut _, 4 - n);
                assert!(r > 0, "zygote gone");
                n += r as usize;
            }
        }
        let wst = i32::from_le_bytes(st);
        let mut status = s.status;
        let mut kind = shm::get(&s.kind, s.kind_len);
        let mut msg = shm::get(&s.msg, s.msg_len);
        if libc::WIFSIGNALED(wst) {
            let sig = libc::WTERMSIG(wst);
            let (k, m) = match sig {
                libc::SIGVTALRM => ("no-progress:cpu", "the operation did not return within its CPU limit"),
                libc::SIGALRM => ("no-progress:stuck", "the operation did not return"),
                libc::SIGSEGV => ("crash:stack-overflow-or-segv", "the process was killed by SIGSEGV"),
                libc::SIGABRT => ("crash:abort", "the process aborted (stack overflow, failed allocation or panic while panicking)"),
                libc::SIGKILL => ("harness:killed", "the run was killed from outside"),
                _ => ("crash:signal", "the process was killed by a signal"),
            };
            if sig != libc::SIGKILL && (s.in_sut != 0) {
                status = shm::ST_VIOLATION;
            } else {
                status = shm::ST_HARNESS;
            }
            kind = k.to_string();
            msg = format!("{} (signal {})", m, sig);
        } else if status == shm::ST_NONE {
            status = if s.in_sut != 0 { shm::ST_VIOLATION } else { shm::ST_HARNESS };
            kind = "crash:exit".into();
            msg = format!("the process exited by itself with wait status {}", wst);
        }
        Outcome {
            status,
            kind,
            msg,
            tape: s.tape_out[..s.tape_out_len as usize].to_vec(),
            trace_hash: s.trace_hash,
            steps: s.steps,
        }
    }
}

impl Drop for Zygote {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.to);
            libc::close(self.from);
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
            libc::munmap(self.shared as *mut _, std::mem::size_of::<Shared>());
        }
    }
}

unsafe fn zygote_main(rx: i32, tx: i32) -> ! {
    if std::env::var_os("SIM_DEBUG").is_none() {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        libc::close(null);
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", trim_path(l.file()), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let s = sh();
        shm::put(&mut s.panic, &mut s.panic_len, &format!("{} | {}", loc, m));
    }));
    loop {
        let mut c = [0u8; 1];
        let r = libc::read(rx, c.as_mut_ptr() as *mut _, 1);
        if r <= 0 {
            libc::_exit(0);
        }
        let pid = libc::fork();
        if pid == 0 {
            child();
        }
        let mut st = 0i32;
        if pid < 0 {
            st = 9; // looks like SIGKILL: a harness error
        } else {
            libc::waitpid(pid, &mut st, 0);
        }
        let b = st.to_le_bytes();
        if libc::write(tx, b.as_ptr() as *const _, 4) != 4 {
            libc::_exit(0);
        }
    }
}

fn trim_path(p: &str) -> &str {
    // Only the part that does not depend on where things are installed.
    for mark in ["/repo/", "/registry/src/", "/library/"] {
        if let Some(i) = p.find(mark) {
            return &p[i + 1..];
        }
    }
    p
}

/// A single operation may take so long, however many there are.
extern "C" fn tick(sig: i32) {
    static mut LAST: [u64; 2] = [0; 2];
    static mut SAME: [i64; 2] = [0; 2];
    unsafe {
        let (k, most) = if sig == libc::SIGVTALRM { (0, CPU_SECONDS) } else { (1, WALL_SECONDS as i64 / 10) };
        let now = sh().sut_ops;
        if LAST[k] != now {
            LAST[k] = now;
            SAME[k] = 0;
        }
        SAME[k] += 1;
        if SAME[k] > most {
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
        }
    }
}

unsafe fn child() -> ! {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    for (timer, sig, every) in [(libc::ITIMER_VIRTUAL, libc::SIGVTALRM, 1), (libc::ITIMER_REAL, libc::SIGALRM, 10)] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = tick as extern "C" fn(i32) as usize;
        sa.sa_flags = libc::SA_RESTART | libc::SA_ONSTACK;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
        let t = libc::timeval { tv_sec: every, tv_usec: 0 };
        libc::setitimer(timer, &libc::itimerval { it_interval: t, it_value: t }, std::ptr::null_mut());
    }
    tape::init();
    seam::attach_cov();
    seam::STEP = 0;
    seam::usual_budget();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            seam::set_hash_seed(sh().seed ^ 0xABCD);
            seam::NOW_US = 0;
            seam::SIM_CLOCK = true;
            std::panic::catch_unwind(|| props::run(sh().prop))
        })
        .expect("spawn");
    let r = h.join();
    seam::SIM_CLOCK = false;
    let s = sh();
    seam::flush_counts();
    match r {
        Ok(Ok(Ok(()))) => s.status = shm::ST_OK,
        Ok(Ok(Err(v))) => {
            shm::put(&mut s.kind, &mut s.kind_len, &v.kind);
            shm::put(&mut s.msg, &mut s.msg_len, &v.msg);
            s.status = shm::ST_VIOLATION;
        }
        _ => {
            let p = shm::get(&s.panic, s.panic_len);
            // The code under test may panic where the harness merely looks at its results.
            let its = p.starts_with("repo/");
            let kind = if its { format!("panic:looking:{}", p.split(" | ").next().unwrap_or("")) } else { "harness:panic".to_string() };
            shm::put(&mut s.kind, &mut s.kind_len, &kind);
            shm::put(&mut s.msg, &mut s.msg_len, &p);
            s.status = if its { shm::ST_VIOLATION } else { shm::ST_HARNESS };
        }
    }
    libc::_exit(0);
}
