//! Search, shrinking, replay files, evidence.

use crate::props::{Prop, PROPS};
use crate::shm::{self, FAULTS, NFAULT, NPROBE, PROBES};
use crate::tape::splitmix;
use crate::zygote::{Outcome, Zygote};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const WORKERS: usize = 8;

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("SIM_CHILD").is_none() {
        unsafe {
            // Same addresses in every process, so that replay does not depend on them.
            libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
        }
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new("/proc/self/exe");
        c.args(&args[1..]).env_clear().env("SIM_CHILD", "1").env("RUST_BACKTRACE", "0");
        for k in ["VERIF_SEED", "VERIF_TIER", "SIM_DEBUG", "SIM_SECONDS", "PATH", "SIM_OUT", "SIM_WORKERS"] {
            if let Some(v) = std::env::var_os(k) {
                c.env(k, v);
            }
        }
        let e = c.exec();
        eprintln!("cannot re-execute: {}", e);
        std::process::exit(2);
    }
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("replay") => replay(&args[2]),
        Some("one") => one(&args[2], args[3].parse().unwrap()),
        Some("determinism") => determinism(args.get(2).map_or(200, |s| s.parse().unwrap())),
        _ => {
            eprintln!("usage: sim check <property> | replay <file> | one <property> <run> | determinism [runs]");
            2
        }
    };
    std::process::exit(code);
}

fn prop_index(id: &str) -> u32 {
    match PROPS.iter().position(|p| p.id == id) {
        Some(i) => i as u32,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2);
        }
    }
}

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64)
}

fn run_seed(base: u64, prop: u32, run: u64) -> u64 {
    let mut x = base ^ 0x5EED_0000;
    splitmix(&mut x);
    x ^= (prop as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x);
    x ^= run.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

fn out_dir() -> String {
    std::env::var("SIM_OUT").unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial_runs: u64,
    faults: Vec<u64>,
    fault_runs: Vec<u64>,
    probes: Vec<u64>,
    sim_us: u64,
    steps: u64,
    ops: u64,
    events: u64,
    switches: u64,
    ratio: [u64; 3],
    hashes: HashSet<u64>,
    nontrivial_hashes: HashSet<u64>,
    draws: u64,
    overflow: u64,
    samples: Vec<(u64, u64, u64, u32, Vec<u64>)>, // run, hash, steps, status, tape
}

impl Stats {
    fn new() -> Self {
        Stats { faults: vec![0; NFAULT], fault_runs: vec![0; NFAULT], probes: vec![0; NPROBE], ..Default::default() }
    }
    fn add(&mut self, run: u64, z: &Zygote, o: &Outcome) {
        let s = z.sh();
        self.runs += 1;
        for i in 0..NFAULT {
            self.faults[i] += s.faults[i];
            self.fault_runs[i] += (s.faults[i] > 0) as u64;
        }
        for i in 0..NPROBE {
            self.probes[i] += s.probes[i];
        }
        self.sim_us += s.sim_us;
        self.steps += s.steps;
        self.ops += s.sut_ops;
        self.events += s.events;
        self.switches += s.switches;
        self.draws += o.tape.len() as u64;
        self.overflow += s.overflow as u64;
        for i in 0..3 {
            self.ratio[i] = self.ratio[i].max(s.ratio[i]);
        }
        self.hashes.insert(o.trace_hash);
        if s.nontrivial > 0 {
            self.nontrivial_runs += 1;
            self.nontrivial_hashes.insert(o.trace_hash);
        }
        if self.runs % 97 == 5 && self.samples.len() < 40 {
            self.samples.push((run, o.trace_hash, o.steps, o.status, o.tape.clone()));
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.nontrivial_runs += o.nontrivial_runs;
        for i in 0..NFAULT {
            self.faults[i] += o.faults[i];
            self.fault_runs[i] += o.fault_runs[i];
        }
        for i in 0..NPROBE {
            self.probes[i] += o.probes[i];
        }
        self.sim_us += o.sim_us;
        self.steps += o.steps;
        self.ops += o.ops;
        self.events += o.events;
        self.switches += o.switches;
        self.draws += o.draws;
        self.overflow += o.overflow;
        for i in 0..3 {
            self.ratio[i] = self.ratio[i].max(o.ratio[i]);
        }
        self.hashes.extend(o.hashes);
        self.nontrivial_hashes.extend(o.nontrivial_hashes);
        self.samples.extend(o.samples);
    }
}

/// Open entries of the known-findings file: (property, kind).
fn known_findings() -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("open: ") {
            let mut it = r.split_whitespace();
            let p = it.next().and_then(|s| s.strip_prefix("property=")).unwrap_or("");
            let k = it.next().and_then(|s| s.strip_prefix("kind=")).unwrap_or("");
            v.push((p.to_string(), k.to_string(), it.collect::<Vec<_>>().join(" ")));
        }
    }
    v
}

fn check(id: &str) -> i32 {
    let prop = prop_index(id);
    let p = &PROPS[prop as usize];
    let base = env_u64("VERIF_SEED").unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let secs = env_u64("SIM_SECONDS").unwrap_or(if thorough { 700 } else { 60 });
    let tier = thorough as u32;
    println!("{}: base seed {}, {} tier, {} s of search", id, base, if thorough { "thorough" } else { "quick" }, secs);
    let workers = env_u64("SIM_WORKERS").unwrap_or(WORKERS as u64) as usize;
    let zs: Vec<Zygote> = (0..workers).map(|_| Zygote::start()).collect();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(secs);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Outcome)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<(u64, Outcome)>> = Mutex::new(vec![]);
    let known = known_findings();
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let total = Mutex::new(Stats::new());
    std::thread::scope(|sc| {
        for z in &zs {
            let (next, stop, found, harness, known, known_hits, total) = (&next, &stop, &found, &harness, &known, &known_hits, &total);
            sc.spawn(move || {
                let mut st = Stats::new();
                while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                    let run = next.fetch_add(1, Ordering::Relaxed);
                    let o = z.run(prop, run_seed(base, prop, run), None, false, tier);
                    st.add(run, z, &o);
                    if o.status == shm::ST_VIOLATION {
                        if let Some(k) = known.iter().find(|k| k.0 == id && k.1 == o.kind) {
                            *known_hits.lock().unwrap().entry(k.2.clone()).or_default() += 1;
                            continue;
                        }
                        found.lock().unwrap().push((run, o));
                        stop.store(true, Ordering::Relaxed);
                    } else if o.status != shm::ST_OK {
                        harness.lock().unwrap().push((run, o));
                        if harness.lock().unwrap().len() > 20 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                total.lock().unwrap().merge(st);
            });
        }
    });
    let search = t0.elapsed().as_secs_f64();
    let total = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    let harness = harness.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    for k in &known {
        if k.0 == id {
            println!("KNOWN-FINDING: property={} {} (met {} times)", id, k.2, known_hits.lock().unwrap().get(&k.2).unwrap_or(&0));
        }
    }

    // Same seed, other process: the same execution?
    let (mut reruns, mut differ) = (0u64, 0u64);
    for (i, s) in total.samples.iter().enumerate().step_by((total.samples.len() / 60).max(1)) {
        let z = &zs[(i * 5 + 3) % zs.len()];
        let o = z.run(prop, run_seed(base, prop, s.0), None, false, tier);
        reruns += 1;
        differ += ((o.trace_hash, o.steps, o.status, &o.tape) != (s.1, s.2, s.3, &s.4)) as u64;
        let o = z.run(prop, 0, Some(&s.4), false, tier);
        reruns += 1;
        differ += ((o.trace_hash, o.steps, o.status, &o.tape) != (s.1, s.2, s.3, &s.4)) as u64;
    }

    let mut code = 0;
    if let Some((run, o)) = found.first() {
        let (tape, out) = shrink(&zs, prop, tier, o, Duration::from_secs(25));
        let path = format!("{}/replays/{}-{}.json", out_dir(), id, base);
        let _ = std::fs::create_dir_all(format!("{}/replays", out_dir()));
        let v = zs[0].run(prop, 0, Some(&tape), true, tier);
        let repro = v.status == shm::ST_VIOLATION && v.kind == out.kind;
        let trace = shm::get(&zs[0].sh().trace, zs[0].sh().trace_len);
        write_replay(&path, id, run_seed(base, prop, *run), *run, &out, &tape, o.tape.len(), &trace, tier);
        println!("run {} (seed {:#x}) violates {}: {}", run, run_seed(base, prop, *run), id, out.kind);
        println!("{}", out.msg);
        println!("minimised from {} to {} choices; replay {}", o.tape.len(), tape.len(), if repro { "reproduces it" } else { "does NOT reproduce it" });
        println!("VIOLATION property={} replay={}", id, path);
        code = 1;
    } else if !harness.is_empty() {
        for (run, o) in harness.iter().take(3) {
            eprintln!("harness error in run {}: {}: {}", run, o.kind, o.msg);
        }
        code = 2;
    }
    let samples = sample_traces(&zs[0], prop, base, &total, tier);
    evidence(p, base, tier, search, &total, &zs, reruns, differ, found.len() as u64, harness.len() as u64, &samples, t0.elapsed().as_secs_f64());
    println!("{}: {} runs in {:.1} s ({} non-trivial, {} distinct), {} operations of the real code, {:.0} simulated s, {} faults; determinism {}/{} reruns identical{}",
        id, total.runs, search, total.nontrivial_runs, total.hashes.len(), total.ops, total.sim_us as f64 / 1e6,
        total.faults.iter().sum::<u64>(), reruns - differ, reruns, if code == 0 { ": held" } else { "" });
    code
}

fn sample_traces(z: &Zygote, prop: u32, base: u64, st: &Stats, tier: u32) -> Vec<String> {
    let mut v = vec![];
    for s in st.samples.iter().take(3) {
        z.run(prop, run_seed(base, prop, s.0), None, true, tier);
        let mut t = shm::get(&z.sh().trace, z.sh().trace_len);
        crate::props::cut(&mut t, 2500);
        v.push(format!("run {} seed {:#x}:\n{}", s.0, run_seed(base, prop, s.0), t));
    }
    v
}

// ------------------------------------------------------------------ shrinking

fn trim(mut t: Vec<u64>) -> Vec<u64> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

fn better(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a.iter().map(|v| 64 - v.leading_zeros() as u64).sum::<u64>(), a) < (b.len(), b.iter().map(|v| 64 - v.leading_zeros() as u64).sum::<u64>(), b)
}

fn shrink(zs: &[Zygote], prop: u32, tier: u32, o: &Outcome, budget: Duration) -> (Vec<u64>, Outcome) {
    let end = Instant::now() + budget;
    let kind = o.kind.clone();
    let mut best = trim(o.tape.clone());
    let mut out = o.clone();
    if kind.starts_with("no-progress:cpu") || kind.starts_with("no-progress:stuck") {
        return (best, out);
    }
    // Evaluates candidates in parallel; returns the best success.
    let eval = |cands: &[Vec<u64>]| -> Option<(Vec<u64>, Outcome)> {
        let res: Mutex<Option<(Vec<u64>, Outcome)>> = Mutex::new(None);
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for z in zs {
                let (res, next, kind) = (&res, &next, &kind);
                sc.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= cands.len() || Instant::now() > end {
                        break;
                    }
                    let r = z.run(prop, 0, Some(&cands[i]), false, tier);
                    if r.status == shm::ST_VIOLATION && r.kind == *kind {
                        let t = trim(r.tape.clone());
                        let mut g = res.lock().unwrap();
                        if g.as_ref().map_or(true, |(b, _)| better(&t, b)) {
                            *g = Some((t, r));
                        }
                    }
                });
            }
        });
        res.into_inner().unwrap()
    };
    let mut improved = true;
    while improved && Instant::now() < end {
        improved = false;
        // Cut the tail.
        let n = best.len();
        let c: Vec<Vec<u64>> = (0..16).map(|k| best[..n * k / 16].to_vec()).collect();
        if let Some((t, r)) = eval(&c) {
            if better(&t, &best) {
                best = t;
                out = r;
                improved = true;
            }
        }
        // Delete or zero chunks.
        let mut size = (best.len() / 2).max(1);
        while Instant::now() < end {
            let mut at = 0;
            while at < best.len() && Instant::now() < end {
                let mut c = vec![];
                for k in 0..16 {
                    let a = at + k * size;
                    if a >= best.len() {
                        break;
                    }
                    let b = (a + size).min(best.len());
                    let mut d = best.clone();
                    d.drain(a..b);
                    c.push(d);
                    if best[a..b].iter().any(|v| *v != 0) {
                        let mut d = best.clone();
                        d[a..b].fill(0);
                        c.push(d);
                    }
                }
                match eval(&c) {
                    Some((t, r)) if better(&t, &best) => {
                        best = t;
                        out = r;
                        improved = true;
                    }
                    _ => at += 16 * size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            let v = best[i];
            let mut c = vec![];
            for x in [0, 1, 2, v / 2, v / 256, v.wrapping_sub(1), v >> 32, v & 0xff] {
                if x < v {
                    let mut d = best.clone();
                    d[i] = x;
                    c.push(d);
                }
            }
            match eval(&c) {
                Some((t, r)) if better(&t, &best) => {
                    best = t;
                    out = r;
                    improved = true;
                }
                _ => i += 1,
            }
        }
    }
    (best, out)
}

// ------------------------------------------------------------------ replay files

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_replay(path: &str, id: &str, seed: u64, run: u64, o: &Outcome, tape: &[u64], orig: usize, trace: &str, tier: u32) {
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {},", js(id));
    let _ = writeln!(s, " \"kind\": {},", js(&o.kind));
    let _ = writeln!(s, " \"violation\": {},", js(&o.msg));
    let _ = writeln!(s, " \"run\": {}, \"seed\": \"{:#x}\", \"tier\": {}, \"original_choices\": {},", run, seed, tier, orig);
    let _ = writeln!(s, " \"tape\": [{}],", tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, " \"trace\": [\n  {}\n ]", trace.lines().map(js).collect::<Vec<_>>().join(",\n  "));
    s.push_str("}\n");
    if std::fs::write(path, s).is_err() {
        eprintln!("cannot write {}", path);
    }
}

fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let i = s.find(a)? + a.len();
    let j = s[i..].find(b)? + i;
    Some(&s[i..j])
}

fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let id = between(&s, "\"property\": \"", "\"").unwrap_or("");
    let kind = between(&s, "\"kind\": \"", "\",\n").unwrap_or("").replace("\\\"", "\"").replace("\\\\", "\\");
    let tier: u32 = between(&s, "\"tier\": ", ",").and_then(|t| t.parse().ok()).unwrap_or(0);
    let tape: Vec<u64> = between(&s, "\"tape\": [", "]").unwrap_or("").split(',').filter_map(|v| v.trim().parse().ok()).collect();
    let z = Zygote::start();
    let o = z.run(prop_index(id), 0, Some(&tape), true, tier);
    print!("{}", shm::get(&z.sh().trace, z.sh().trace_len));
    if o.status == shm::ST_VIOLATION {
        println!("{}\n{}", o.kind, o.msg);
        println!("{}", if o.kind == kind { "reproduced" } else { "another violation than the recorded one" });
        println!("VIOLATION property={} replay={}", id, path);
        1
    } else if o.status == shm::ST_OK {
        println!("no violation");
        0
    } else {
        eprintln!("harness error: {} {}", o.kind, o.msg);
        2
    }
}

fn one(id: &str, run: u64) -> i32 {
    let prop = prop_index(id);
    let z = Zygote::start();
    let o = z.run(prop, run_seed(env_u64("VERIF_SEED").unwrap_or(1), prop, run), None, true, 0);
    println!("{}", shm::get(&z.sh().trace, z.sh().trace_len));
    println!("status {} kind {} msg {}\nhash {:#x} steps {} choices {}", o.status, o.kind, o.msg, o.trace_hash, o.steps, o.tape.len());
    0
}

/// Every property: many seeds, twice each, on different processes and worker counts.
fn determinism(n: u64) -> i32 {
    let zs: Vec<Zygote> = (0..WORKERS).map(|_| Zygote::start()).collect();
    let mut bad = 0;
    for (pi, p) in PROPS.iter().enumerate() {
        let mut d = 0;
        let a: Vec<Outcome> = pass(&zs, pi as u32, n);
        let b: Vec<Outcome> = pass(&zs[..3], pi as u32, n);
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            if (x.status, x.trace_hash, x.steps, &x.tape, &x.kind) != (y.status, y.trace_hash, y.steps, &y.tape, &y.kind) {
                d += 1;
                if d <= 3 {
                    println!("{} run {} differs: status {}/{} steps {}/{} hash {:x}/{:x} choices {}/{}", p.id, i, x.status, y.status,
                        x.steps, y.steps, x.trace_hash, y.trace_hash, x.tape.len(), y.tape.len());
                }
            }
        }
        println!("{}: {} of {} runs differ between two executions", p.id, d, n);
        bad += d;
    }
    (bad > 0) as i32
}

fn pass(zs: &[Zygote], prop: u32, n: u64) -> Vec<Outcome> {
    let next = AtomicU64::new(0);
    let res: Mutex<BTreeMap<u64, Outcome>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for z in zs {
            let (next, res) = (&next, &res);
            sc.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                let o = z.run(prop, run_seed(77, prop, i), None, false, 0);
                res.lock().unwrap().insert(i, o);
            });
        }
    });
    res.into_inner().unwrap().into_values().collect()
}

// ------------------------------------------------------------------ evidence

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, base: u64, tier: u32, search: f64, st: &Stats, zs: &[Zygote], reruns: u64, differ: u64, viol: u64, harness: u64, samples: &[String], wall: f64) {
    let mut cov = vec![0u8; shm::COV_MAX];
    for z in zs {
        for (a, b) in cov.iter_mut().zip(z.sh().cov.iter()) {
            *a |= *b;
        }
    }
    let edges = cov.iter().filter(|c| **c != 0).count();
    let mut faults = vec![];
    for (i, n) in FAULTS.iter().enumerate() {
        if st.faults[i] > 0 {
            faults.push(format!("{}: {{\"injected\": {}, \"runs\": {}}}", js(n), st.faults[i], st.fault_runs[i]));
        }
    }
    let mut probes = vec![];
    for (i, n) in PROBES.iter().enumerate() {
        if st.probes[i] > 0 {
            probes.push(format!("{}: {}", js(n), st.probes[i]));
        }
    }
    let per_h = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",", js(p.id), js(if tier > 0 { "thorough" } else { "quick" }), base as i64);
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", st.runs);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", st.nontrivial_hashes.len());
    let _ = writeln!(s, "  \"rule\": {},", js(&format!("one evaluation is one simulated run from its own seed; {}; runs are distinct by the hash of their event trace", p.rule)));
    let _ = writeln!(s, "  \"samples\": [{}],", samples.iter().map(|t| js(t)).collect::<Vec<_>>().join(",\n   "));
    let _ = writeln!(s, "  \"distinct_event_traces\": {},", st.hashes.len());
    let _ = writeln!(s, "  \"nontrivial_runs\": {},", st.nontrivial_runs);
    let _ = writeln!(s, "  \"runs_per_hour\": {}, \"seeds_per_hour\": {},", per_h(st.runs), per_h(st.runs));
    let _ = writeln!(s, "  \"simulated_seconds\": {:.3},", st.sim_us as f64 / 1e6);
    let _ = writeln!(s, "  \"events\": {}, \"choices_drawn\": {}, \"runs_out_of_choices\": {},", st.events, st.draws, st.overflow);
    let _ = writeln!(s, "  \"operations_of_real_code\": {}, \"instrumented_steps\": {}, \"thread_switches\": {},", st.ops, st.steps, st.switches);
    let _ = writeln!(s, "  \"code_edges_reached\": {}, \"code_edges_total\": {},", edges, unsafe { crate::seam::GUARDS });
    let _ = writeln!(s, "  \"cost_ratio_max\": {{\"steps_per_unit\": {:.2}, \"live_bytes_per_unit\": {:.2}, \"copied_bytes_per_unit\": {:.2}}},", st.ratio[0] as f64 / 100.0, st.ratio[1] as f64 / 100.0, st.ratio[2] as f64 / 100.0);
    let _ = writeln!(s, "  \"faults\": {{{}}},", faults.join(", "));
    let _ = writeln!(s, "  \"rare_conditions\": {{{}}},", probes.join(", "));
    let _ = writeln!(s, "  \"determinism\": {{\"reruns\": {}, \"differing\": {}}},", reruns, differ);
    let _ = writeln!(s, "  \"harness_errors\": {},", harness);
    let _ = writeln!(s, "  \"real_components\": {}, \"stub_components\": {}", js(p.real), js(p.stub));
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": [\"the reference models in /verif/sim/src are right\", \"sampling: what was not drawn was not checked\"],");
    let _ = writeln!(s, " \"wall_s\": {:.2}, \"violations\": {}\n}}", wall, viol);
    let dir = format!("{}/evidence", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, p.id), s).is_err() {
        eprintln!("cannot write evidence");
        std::process::exit(2);
    }
}
