//! Scenarios: one per property. Each draws a deployment, a workload and faults from the tape,
//! runs the real code in it and judges what it observes.

use crate::gen::{self, MG};
use crate::queue::Queue;
use crate::seam;
use crate::shm::{self, ev, sh, F, P};
use crate::tape::{self, below, chance, pick, range, us, weighted};
use crate::tr;
use crate::wire::{self, Bind, Span, World, M};
use protofish::context::Context;
use std::panic::{catch_unwind, AssertUnwindSafe};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}
pub type R = Result<(), Violation>;

pub fn fail<T>(kind: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { kind: kind.to_string(), msg })
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> R,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}

const DECODE_REAL: &str = "protofish decode.rs (decode, encode), context lookups, schema loading (pest parser + builder, or the modification API)";
const DECODE_STUB: &str = "peers' encoders (reference encoder, canonical or quirky), the links, the nodes' crash/restart, clock, hash seeds";

const LOAD_REAL: &str = "protofish parse.rs (with the pest grammar), builder.rs, context lookups, modify_api.rs";
const LOAD_STUB: &str = "file storage and its faults, delivery order, clock, hash seeds";

const ALL_REAL: &str = "protofish decode.rs, parse.rs (with the pest grammar), builder.rs, api.rs, modify_api.rs";
const ALL_STUB: &str = "process restarts, file storage and its faults, transport and its faults, hash seeds, heap layout, clock, thread scheduling";

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", run: c01::run, real: DECODE_REAL, stub: DECODE_STUB,
        rule: "a run is non-trivial if at least one damaged or hostile frame reached the decoder" },
    Prop { id: "C02", run: c02::run, real: DECODE_REAL, stub: DECODE_STUB,
        rule: "a run is non-trivial if some partial arrival ended inside a field" },
    Prop { id: "C03", run: c03::run, real: DECODE_REAL, stub: DECODE_STUB,
        rule: "a run is non-trivial if the content of at least one length-delimited field that has siblings was replaced" },
    Prop { id: "C04", run: c04::run, real: DECODE_REAL, stub: DECODE_STUB,
        rule: "a run is non-trivial if a damaged frame was decoded and re-encoded" },
    Prop { id: "C05", run: c05::run, real: DECODE_REAL, stub: "links between nodes, crash/restart, schema upgrades, clock, hash seeds",
        rule: "a run is non-trivial if a message crossed at least one relay whose schema differs from the sender's" },
    Prop { id: "C06", run: c06::run, real: "protofish decode.rs, api.rs, parse.rs, builder.rs, modify_api.rs, in real OS threads of which one runs at a time", stub: "the thread scheduler (seeded, at instrumented points), futex, yield and sleep, clock, hash seeds",
        rule: "a run is non-trivial if threads were interleaved inside operations" },
    Prop { id: "C07", run: c07::run, real: "protofish modify_api.rs, api.rs, parse.rs and builder.rs (the starting contexts)", stub: "histories of operations, operations with references of other contexts, restart from the log of accepted operations, hash seeds",
        rule: "a run is non-trivial if at least one operation was refused" },
    Prop { id: "C08", run: c08::run, real: LOAD_REAL, stub: LOAD_STUB,
        rule: "a run is non-trivial if a set of several files was loaded" },
    Prop { id: "C09", run: c09::run, real: LOAD_REAL, stub: LOAD_STUB,
        rule: "a run is non-trivial if a set with at least one damaged file was loaded" },
    Prop { id: "C10", run: c10::run, real: ALL_REAL, stub: ALL_STUB,
        rule: "a run is non-trivial if something seen in a fresh process was observed again after other operations" },
    Prop { id: "C11", run: c11::run, real: "protofish modify_api.rs, api.rs, decode.rs, parse.rs and builder.rs (the starting contexts)", stub: "histories of operations, operations with references of other contexts, the context's place in memory, hash seeds",
        rule: "a run is non-trivial if a payload was decoded again after the context had grown" },
    Prop { id: "C12", run: c12::run, real: DECODE_REAL, stub: DECODE_STUB,
        rule: "a run is non-trivial if at least one damaged frame was decoded and compared" },
    Prop { id: "C13", run: c13::run, real: ALL_REAL, stub: "file storage and its faults, transport and its faults, the allocator (metered), clock, hash seeds",
        rule: "a run is non-trivial if a script of operations was repeated" },
];

pub fn run(prop: u32) -> R {
    seam::set_hash_seed(tape::u64_());
    if chance(1, 3) {
        F::SlowNode.hit();
        let us = pick(&[1, 1000, 100_000, 10_000_000, 86_400_000_000]);
        let every = pick(&[1, 2, 7]);
        tr!("slow node: {}us pass at every {}. reading of the clock", us, every);
        seam::clock_stall(us, every);
    }
    (PROPS[prop as usize].run)()
}

// ------------------------------------------------------------------ calling the code under test

/// Calls the code under test. A panic is a violation; so is dying or not returning (seen from
/// outside the process).
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match sut_may_panic(f) {
        Ok(v) => Ok(v),
        Err(p) => fail(&format!("panic:{}:{}", what, p.split(" | ").next().unwrap_or("")), format!("{} panicked at {}", what, p)),
    }
}

pub fn sut_may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let s = sh();
    s.panic_len = 0;
    s.sut_ops += 1;
    seam::operation();
    s.in_sut = 1;
    let r = catch_unwind(AssertUnwindSafe(f));
    s.in_sut = 0;
    r.map_err(|_| shm::get(&s.panic, s.panic_len))
}

/// Carries anything to another thread. What may be carried is for C06 to judge; the harness has
/// to build either way.
pub struct Carry<T>(pub T);
unsafe impl<T> Send for Carry<T> {}

impl<T> Carry<T> {
    pub fn take(self) -> T {
        self.0
    }
}

pub fn on_stack<T>(size: usize, f: impl FnOnce() -> T) -> T {
    let f = Carry(f);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(size)
            .spawn_scoped(sc, move || {
                let f = f;
                Carry(f.take()())
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
            .take()
    })
}

/// A thread of some name: the stack and the hash keys are its own.
pub fn on_thread<T>(name: Option<&str>, size: usize, f: impl FnOnce() -> T) -> T {
    let f = Carry(f);
    std::thread::scope(|sc| {
        let mut b = std::thread::Builder::new().stack_size(size);
        if let Some(n) = name {
            b = b.name(n.to_string());
        }
        b.spawn_scoped(sc, move || {
            let f = f;
            Carry(f.take()())
        })
        .expect("spawn")
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
        .take()
    })
}

/// The caller is itself deep inside something: so many bytes of the stack are in use.
pub fn deep_in<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    #[inline(never)]
    fn down(left: usize, f: &mut dyn FnMut()) {
        let mut pad = [0u8; 4096];
        std::hint::black_box(&mut pad);
        if left <= pad.len() {
            f();
        } else {
            down(left - pad.len(), f);
        }
        std::hint::black_box(&mut pad);
    }
    let mut f = Some(f);
    let mut out = None;
    down(bytes, &mut || out = f.take().map(|f| f()));
    out.expect("called")
}

/// An error is there to be shown.
pub fn shown(e: &protofish::context::ParseError) -> usize {
    let mut n = format!("{}", e).len() + format!("{:?}", e).len();
    let mut s = std::error::Error::source(e);
    while let Some(e) = s {
        n += format!("{}", e).len() + format!("{:?}", e).len();
        s = e.source();
    }
    n
}

// ------------------------------------------------------------------ nodes

pub struct Node {
    pub w: World,
    pub hand: bool,
    pub text: String,
    pub ctx: Context,
    pub bind: Bind,
}

impl Node {
    pub fn start(w: World, hand: bool) -> Result<Node, Violation> {
        let text = gen::render(&w);
        let ctx = if hand {
            P::HandBuilt.hit();
            sut("schema-build", || gen::hand_build(&w))?
        } else {
            match sut("schema-load", || Context::parse(&[text.as_str()]))? {
                Ok(c) => c,
                Err(e) => return fail("schema-load", format!("valid schema rejected: {}\n{}", e, text)),
            }
        };
        let bind = match sut("lookup", || Bind::new(&w, &ctx))? {
            Some(b) => b,
            None => return fail("schema-load", format!("a type of the schema cannot be found by its name\n{}", text)),
        };
        Ok(Node { w, hand, text, ctx, bind })
    }

    /// Crash and restart: only the schema files survive.
    pub fn restart(&mut self) -> R {
        F::Restart.hit();
        ev(10, 0, 0);
        tr!("  t={}us node restarts", sh().sim_us);
        *self = Node::start(self.w.clone(), self.hand)?;
        Ok(())
    }

    /// Decodes as a receiver does: from a buffer that is reused at once.
    pub fn decode(&self, ty: usize, bytes: &[u8]) -> Result<protofish::decode::MessageValue, Violation> {
        let mut buf = bytes.to_vec();
        let v = sut("decode", || self.ctx.decode(self.bind.msgs[ty], &buf))?;
        buf.fill(0xA5);
        Ok(v)
    }
}

/// World and way of building it.
pub fn draw_world() -> (World, bool) {
    let hand = chance(1, 4);
    (gen::world(hand), hand)
}

// ------------------------------------------------------------------ one link, one receiver

pub struct Frame {
    pub ty: usize,
    pub sent: Vec<u8>,
    pub spans: Vec<Span>,
    pub recv: Vec<u8>,
    pub damaged: bool,
}

enum Ev {
    Send(usize),
    Deliver(usize, Vec<u8>, bool),
    Restart,
}

pub struct LinkCfg {
    /// Mean number of faults per frame; 0 = reliable content.
    pub faults: bool,
    pub hostile: bool,
    /// Now and then a field larger than any length of two or three bytes says.
    pub big: bool,
}

fn big_field(w: &World, ty: usize, base: &[u8]) -> Vec<u8> {
    P::HugeField.hit();
    let n = pick(&[70_000, 65_535, 65_536, 1 << 20, (1 << 20) + 17, 2_100_001]);
    let nums: Vec<u64> = w.msgs[ty].fields.iter().filter(|(_, f)| f.mult == wire::Mult::Packed || matches!(f.ty, wire::Ty::S(s) if s.wt() == 2)).map(|(n, _)| *n).collect();
    let num = if nums.is_empty() || chance(1, 4) { gen::number() } else { nums[us(nums.len())] };
    let at = w.msgs[ty].fields.get(&num);
    let byte = if at.map_or(false, |f| f.mult == wire::Mult::Packed) { pick(&[1u8, 0, 0x7f]) } else { pick(&[b'x', b' ']) };
    let mut v = if chance(1, 2) { base.to_vec() } else { vec![] };
    wire::put_varint(&mut v, (num << 3) | 2);
    wire::put_varint(&mut v, n as u64);
    v.resize(v.len() + n, byte);
    v.extend_from_slice(base);
    v
}

pub fn draw_message(w: &World) -> (usize, M, Vec<u8>) {
    let ty = us(w.msgs.len());
    let g = MG::draw();
    let m = gen::message(w, ty, g);
    let bytes = if chance(1, 4) { gen::encode_quirky(&m, pick(&[2, 4, 12])) } else { wire::encode(&m) };
    (ty, m, bytes)
}

/// Sends frames over a faulty link to one receiving node; `check` runs on each delivery.
pub fn session(cfg: LinkCfg, check: &mut dyn FnMut(&Node, &Frame) -> R) -> R {
    let (w, hand) = draw_world();
    let mut node = Node::start(w.clone(), hand)?;
    tr!("schema ({}):\n{}", if hand { "built through the API" } else { "parsed" }, node.text);
    let hostile = cfg.hostile && chance(1, 4);
    let n = pick(&[3, 1, 2, 5, 8]);
    let mask = if chance(1, 2) { tape::u64_() | 1 << us(gen::NKIND) } else { u64::MAX };
    let mut q = Queue::new();
    let mut frames = vec![];
    for i in 0..n {
        let (ty, _, mut sent) = draw_message(&w);
        if cfg.big && chance(1, 100) {
            sent = big_field(&w, ty, &sent);
        }
        let spans = wire::decode(&w, ty, &sent).1.spans;
        frames.push(Frame { ty, sent, spans, recv: vec![], damaged: false });
        q.push(below(20_000) + i as u64 * 1000, Ev::Send(i));
    }
    for _ in 0..weighted(&[5, 2, 1]) {
        q.push(below(60_000), Ev::Restart);
    }
    while let Some(e) = q.pop() {
        match e {
            Ev::Send(i) => {
                ev(1, i as u64, frames[i].sent.len() as u64);
                if chance(1, 25) {
                    F::Drop.hit();
                    tr!("  t={}us frame {} lost", q.now, i);
                    continue;
                }
                let mut copies = 1;
                if chance(1, 15) {
                    F::Dup.hit();
                    copies = 2;
                }
                for _ in 0..copies {
                    tr!("  t={}us frame {} of type {} sent: {}", q.now, i, w.msgs[frames[i].ty].full, wire::hex(&frames[i].sent));
                    let k = if cfg.faults {
                        match weighted(&[2, 6, 3, 2]) {
                            0 => 0,
                            1 => 1,
                            2 => 2,
                            _ => range(3, 7),
                        }
                    } else {
                        0
                    };
                    let other = frames[us(frames.len())].sent.clone();
                    let mut d = gen::damage(&frames[i].sent, &frames[i].spans, &other, k, mask);
                    if hostile && chance(1, 4) {
                        d = hostile_frame(&w, frames[i].ty, &d);
                    }
                    let delay = 1000 + below(10_000) + if chance(1, 6) { F::Delay.hit(); below(100_000) } else { 0 };
                    let damaged = d != frames[i].sent;
                    q.push(delay, Ev::Deliver(i, d, damaged));
                }
            }
            Ev::Deliver(i, d, damaged) => {
                ev(2, i as u64, d.len() as u64);
                tr!("  t={}us frame {} delivered: {}", q.now, i, wire::hex(&d));
                if d.len() > 16384 {
                    P::BigPayload.hit();
                }
                frames[i].recv = d;
                frames[i].damaged = damaged;
                check(&node, &frames[i])?;
            }
            Ev::Restart => node.restart()?,
        }
    }
    Ok(())
}

/// A frame built to hurt: nesting, floods of tiny fields, lying lengths.
pub fn hostile_frame(w: &World, ty: usize, base: &[u8]) -> Vec<u8> {
    F::Hostile.hit();
    let d = match us(6) {
        5 => {
            // Every level is damaged, or holds more than the next one.
            let path = gen::cycle(w, ty).unwrap_or_else(|| vec![1]);
            P::DamagedLevels.hit();
            let mut parts = [vec![], vec![]];
            for p in &mut parts {
                match us(6) {
                    0 => p.extend_from_slice(pick(&[&[0x80u8][..], &[0xff, 0xff, 0xff], &[0x88]])),
                    1 => *p = gen::hostile(),
                    2 => p.extend_from_slice(&base[..base.len().min(8)]),
                    3 => {
                        wire::put_varint(p, (path[0] << 3) | 2);
                        p.push(pick(&[0, 0, 1, 200]));
                    }
                    4 => {
                        wire::put_varint(p, (gen::number() << 3) | 2);
                        p.push(pick(&[0, 1, 5]));
                    }
                    _ => {}
                }
            }
            parts[0].truncate(12);
            parts[1].truncate(12);
            if us(3) > 0 {
                parts[0].clear();
            }
            gen::nest_around(&path, pick(&[30, 12, 60, 99, 100, 101, 130]), &base[..base.len().min(60)], &parts[0], &parts[1])
        }
        0 | 1 => {
            let path = gen::cycle(w, ty).unwrap_or_else(|| vec![1]);
            let depth = match us(5) {
                0 => range(2, 70),
                1 => range(70, 400),
                2 => range(400, 3000),
                3 => pick(&[99, 100, 101, 102]),
                _ => pick(&[500, 3000, 1000, 5000, 500, 500, 3000, 12000, 500, 40000]),
            };
            P::DeepNest.hit();
            gen::nest(&path, depth, &base[..base.len().min(200)], chance(1, 3))
        }
        2 => {
            // A flood of tiny fields.
            let mut unit = vec![];
            let nums: Vec<u64> = w.msgs[ty].fields.keys().cloned().collect();
            let num = if nums.is_empty() { gen::number() } else { nums[us(nums.len())] };
            match us(6) {
                0 => wire::put_varint(&mut unit, (pick(&[num, num, 1, 2, 15, 16]) << 3) | pick(&[3, 3, 4, 6, 7])),
                1 => {
                    wire::put_varint(&mut unit, (num << 3) | pick(&[1, 5, 2]));
                    unit.extend(vec![pick(&[0, 1, 3]); pick(&[4, 8, 1])]);
                }
                _ => {
                    wire::put_varint(&mut unit, (num << 3) | pick(&[0, 2]));
                    unit.push(0);
                }
            }
            let n = if chance(1, 40) { 70_000 } else { pick(&[300, 300, 300, 4000, 4000, 30000]) };
            unit.iter().cycle().take(unit.len() * n).cloned().collect()
        }
        3 => {
            let mut v = base.to_vec();
            v.extend(gen::hostile());
            v
        }
        _ => {
            // A large packed array or blob.
            let nums: Vec<u64> = w.msgs[ty].fields.keys().cloned().collect();
            let num = if nums.is_empty() { 1 } else { nums[us(nums.len())] };
            let body = match us(3) {
                0 => vec![pick(&[0u8, 1, 0x7f, 0x80, 0xff]); pick(&[1000, 1000, 20000, 100000])],
                1 => tape::fill(pick(&[1000, 1000, 20000, 100000])),
                _ => [0x80u8, 0x80, 0x80, 0x80, 0x01].iter().cycle().take(pick(&[500, 5000, 50000])).cloned().collect(),
            };
            let mut v = vec![];
            wire::put_varint(&mut v, (num << 3) | 2);
            wire::put_varint(&mut v, body.len() as u64 + us(2) as u64);
            v.extend(body);
            v.extend_from_slice(base);
            v
        }
    };
    tr!("    hostile frame of {} bytes", d.len());
    d
}

/// Notes which parts of the decoder's behaviour a decoded message shows.
pub fn note(m: &M) {
    if m.garbage.is_some() {
        P::Garbage.hit();
    }
    let mut bad = 0;
    for (_, v) in &m.f {
        match v {
            wire::V::Inc(..) => {
                bad += 1;
                P::Incomplete.hit()
            }
            wire::V::UInv(..) => P::Invalid.hit(),
            wire::V::UVar(_) => P::UnknownVarint.hit(),
            wire::V::U64(_) | wire::V::U32(_) => P::UnknownFixed.hit(),
            wire::V::ULen(_) => P::UnknownLen.hit(),
            wire::V::Packed(..) => P::Packed.hit(),
            wire::V::Msg(k) => {
                P::Nested.hit();
                note(k)
            }
            _ => {}
        }
    }
    if bad > 1 {
        P::BadPacked2.hit();
    }
}

pub fn diff(a: &M, b: &M, path: &str) -> String {
    if a.ty != b.ty {
        return format!("{}: message type {} vs {}", path, a.ty, b.ty);
    }
    for i in 0..a.f.len().max(b.f.len()) {
        match (a.f.get(i), b.f.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some((n, wire::V::Msg(p))), Some((k, wire::V::Msg(q)))) if n == k => {
                return diff(p, q, &format!("{}[{}]#{}", path, i, n));
            }
            (x, y) => {
                let mut s = format!("{}[{}]: {:?} vs {:?}", path, i, x, y);
                cut(&mut s, 700);
                return s;
            }
        }
    }
    format!("{}: garbage {:?} vs {:?}", path, a.garbage.as_deref().map(wire::hex), b.garbage.as_deref().map(wire::hex))
}

pub fn cut(s: &mut String, n: usize) {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
}
