//! One context used by several threads at once.
use super::*;
use crate::grow::Farm;
use crate::schema::{self, Cfg, FileD, Model};
use crate::sched;
use protofish::context::ParseError;
use protofish::decode::MessageValue;

/// A context all threads share.
struct Shared {
    model: Option<Model>,
    texts: Vec<String>,
    w: World,
    ctx: Context,
    bind: Bind,
    /// Values all threads share.
    vals: Vec<(usize, MessageValue, Vec<u8>)>,
}

enum Op {
    /// Decode, compare with the reference, encode, clone.
    Decode { c: usize, ty: usize, bytes: Vec<u8>, want: M, out: Vec<u8> },
    /// Decode and encode something nested deeply; compared with the same operation done alone.
    Deep { c: usize, ty: usize, bytes: Vec<u8> },
    /// Build a value and encode it.
    Build { c: usize, m: M, out: Vec<u8> },
    /// Encode or clone a shared value.
    Use { c: usize, v: usize },
    /// Every lookup there is.
    Lookup { c: usize },
    /// Load the files again.
    Load { c: usize, busy: bool },
    /// Load something damaged.
    Bad { texts: Vec<String> },
    /// A context of this thread's own: built, used, dropped.
    Own { w: World, ty: usize, bytes: Vec<u8>, want: M },
    /// A reference that means nothing here: documented to panic.
    Foreign { c: usize, what: usize, times: usize },
}

fn deploy() -> Result<Option<Shared>, Violation> {
    if chance(1, 3) {
        let w = gen::world(true);
        let ctx = sut("schema-build", || gen::hand_build(&w))?;
        let bind = match sut("lookup", || Bind::new(&w, &ctx))? {
            Some(b) => b,
            None => return fail("schema-build", "a type cannot be found by its name".into()),
        };
        return Ok(Some(Shared { model: None, texts: vec![gen::render(&w)], w, ctx, bind, vals: vec![] }));
    }
    let files = schema::files(Cfg::draw(false));
    let refs: Vec<&FileD> = files.iter().collect();
    let model = match schema::load(&refs) {
        Ok(m) => m,
        Err(_) => return Ok(None),
    };
    let w = schema::world(&model);
    if w.msgs.is_empty() {
        return Ok(None);
    }
    let texts: Vec<String> = files.iter().map(schema::render).collect();
    let ctx = match sut("schema-load", || Context::parse(&texts))? {
        Ok(c) => c,
        Err(e) => return fail("load-rejected", format!("a valid set is rejected: {}\n{}", e, texts.join("---\n"))),
    };
    let bind = match sut("lookup", || Bind::new(&w, &ctx))? {
        Some(b) => b,
        None => return fail("loaded-differs", format!("a type cannot be found by its name\n{}", texts.join("---\n"))),
    };
    Ok(Some(Shared { model: Some(model), texts, w, ctx, bind, vals: vec![] }))
}

/// What an operation leaves behind to be judged after the run.
enum Left {
    Nothing,
    Load(Result<Context, ParseError>),
    Deep(M, Vec<u8>),
}

/// Calls the code under test in a simulated thread.
fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| shm::get(&sh().panic, sh().panic_len))
}

fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    sh().sut_ops += 1;
    match call(f) {
        Ok(v) => Ok(v),
        Err(p) => fail(&format!("panic:{}:{}", what, p.split(" | ").next().unwrap_or("")), format!("{} panicked at {}", what, p)),
    }
}

fn draw_bytes(s: &Shared, hostile: bool) -> (usize, Vec<u8>) {
    let (ty, _, b) = draw_message(&s.w);
    if hostile {
        let path = gen::cycle(&s.w, ty).unwrap_or_else(|| vec![1]);
        return (ty, gen::nest(&path, pick(&[30, 99, 100, 101, 102, 400, 1500]), &b[..b.len().min(60)], chance(1, 2)));
    }
    if chance(1, 2) {
        let spans = wire::decode(&s.w, ty, &b).1.spans;
        return (ty, gen::damage(&b, &spans, &[], range(1, 3), u64::MAX));
    }
    (ty, b)
}

fn draw_op(ss: &[Shared]) -> Op {
    let c = us(ss.len());
    let s = &ss[c];
    match weighted(&[10, 3, 3, 3, 2, 2, 2, 1]) {
        0 => {
            let (ty, bytes) = draw_bytes(s, chance(1, 12));
            let (want, info) = wire::decode(&s.w, ty, &bytes);
            if info.depth >= 60 {
                return Op::Deep { c, ty, bytes };
            }
            let out = wire::encode(&want);
            Op::Decode { c, ty, bytes, want, out }
        }
        1 => {
            let (ty, b) = draw_bytes(s, false);
            let (m, info) = wire::decode(&s.w, ty, &b);
            if info.depth >= 60 {
                return Op::Lookup { c };
            }
            let out = wire::encode(&m);
            Op::Build { c, m, out }
        }
        2 if !s.vals.is_empty() => Op::Use { c, v: us(s.vals.len()) },
        3 | 2 => Op::Lookup { c },
        4 => Op::Load { c, busy: chance(1, 3) },
        5 => {
            let mut t: Vec<Vec<u8>> = s.texts.iter().map(|t| t.as_bytes().to_vec()).collect();
            let k = us(t.len());
            let other = t[us(t.len())].clone();
            super::c09::damage(&mut t[k], &other, u64::MAX);
            Op::Bad { texts: t.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect() }
        }
        6 => {
            let w = gen::world(true);
            let (ty, _, bytes) = draw_message(&w);
            let want = wire::decode(&w, ty, &bytes).0;
            Op::Own { w, ty, bytes, want }
        }
        _ => Op::Foreign { c, what: us(3), times: pick(&[1, 1, 1, 2, 6, 40]) },
    }
}

fn do_op(op: &Op, ss: &[Shared], farm: &Farm) -> R {
    match op {
        Op::Decode { c, ty, bytes, want, out } => {
            let s = &ss[*c];
            let v = must("decode", || s.ctx.decode(s.bind.msgs[*ty], bytes))?;
            let o = must("encode", || v.encode(&s.ctx))?;
            let got = wire::from_pf(&v, &s.bind);
            if got != *want {
                return fail("threads-change-decode", format!("{}\n bytes {} of {}", diff(&got, want, &s.w.msgs[*ty].full), wire::hex(bytes), s.w.msgs[*ty].full));
            }
            let v2 = must("clone", || v.clone())?;
            if wire::from_pf(&v2, &s.bind) != *want {
                return fail("threads-change-decode", format!("the clone of {} differs", wire::hex(bytes)));
            }
            if o[..] != out[..] {
                return fail("threads-change-encode", format!("{} of {} encodes as {} instead of {}", wire::hex(bytes), s.w.msgs[*ty].full, wire::hex(&o), wire::hex(out)));
            }
            Ok(())
        }
        Op::Build { c, m, out } => {
            let s = &ss[*c];
            let v = wire::to_pf(m, &s.bind);
            let o = must("encode", || v.encode(&s.ctx))?;
            if o[..] != out[..] {
                return fail("threads-change-encode", format!("a built value of {} encodes as {} instead of {}", s.w.msgs[m.ty].full, wire::hex(&o), wire::hex(out)));
            }
            Ok(())
        }
        Op::Use { c, v } => {
            let s = &ss[*c];
            let (ty, v, out) = &s.vals[*v];
            let o = must("encode", || v.encode(&s.ctx))?;
            if o[..] != out[..] {
                return fail("threads-change-encode", format!("a shared value of {} encodes as {} instead of {}", s.w.msgs[*ty].full, wire::hex(&o), wire::hex(out)));
            }
            let k = must("clone", || v.clone())?;
            let o = must("encode", || k.encode(&s.ctx))?;
            if o[..] != out[..] {
                return fail("threads-change-encode", format!("a copy of a shared value of {} encodes as {} instead of {}", s.w.msgs[*ty].full, wire::hex(&o), wire::hex(out)));
            }
            Ok(())
        }
        Op::Lookup { c } => {
            let s = &ss[*c];
            if let Some(m) = &s.model {
                if let Some(d) = must("lookup", || schema::disagree(m, &s.ctx))? {
                    return fail("threads-change-lookup", format!("{}\n{}", d, s.texts.join("---\n")));
                }
            }
            match must("lookup", || Bind::new(&s.w, &s.ctx))? {
                Some(b) if b.msgs == s.bind.msgs && b.enums == s.bind.enums => Ok(()),
                b => fail("threads-change-lookup", format!("names now give {:?} instead of {:?}", b, s.bind)),
            }
        }
        Op::Load { c, busy } => {
            let s = &ss[*c];
            // Where the files come from may use the library itself.
            let fetch = |k: usize| {
                if *busy {
                    let n = k % s.w.msgs.len();
                    let name = &s.w.msgs[n].full;
                    let found = s.ctx.get_message(name).map(|m| m.self_ref);
                    let v = s.ctx.decode(s.bind.msgs[n], b"\x08\x01").encode(&s.ctx);
                    let own = Context::parse(["syntax = \"proto3\"; message Fetch { Fetch f = 1; }"]);
                    if found != Some(s.bind.msgs[n]) || v[..] != b"\x08\x01"[..] || !own.map_or(false, |c| c.get_message("Fetch").is_some()) {
                        std::panic::panic_any("what fetches the files gets wrong results");
                    }
                }
                &s.texts[k]
            };
            let ctx = match must("schema-load", || Context::parse((0..s.texts.len()).map(fetch)))? {
                Ok(c) => c,
                Err(e) => return fail("threads-change-load", format!("a valid set is rejected: {}\n{}", e, s.texts.join("---\n"))),
            };
            if let Some(m) = &s.model {
                if let Some(d) = must("lookup", || schema::disagree(m, &ctx))? {
                    return fail("threads-change-load", format!("{}\n{}", d, s.texts.join("---\n")));
                }
                if !must("compare", || ctx == s.ctx)? {
                    return fail("threads-change-load", format!("the same files give a context that is not equal to the first\n{}", s.texts.join("---\n")));
                }
            }
            must("drop", || drop(ctx))
        }
        // Judged after the run, when it is done again alone.
        Op::Bad { .. } | Op::Deep { .. } => Ok(()),
        Op::Own { w, ty, bytes, want } => {
            let ctx = must("schema-build", || gen::hand_build(w))?;
            let bind = match must("lookup", || Bind::new(w, &ctx))? {
                Some(b) => b,
                None => return fail("threads-change-load", "a type just inserted cannot be found by its name".into()),
            };
            let v = must("decode", || ctx.decode(bind.msgs[*ty], bytes))?;
            let got = wire::from_pf(&v, &bind);
            if got != *want {
                return fail("threads-change-decode", format!("in a context of the thread's own: {}\n bytes {}\n{}", diff(&got, want, &w.msgs[*ty].full), wire::hex(bytes), gen::render(w)));
            }
            must("drop", || drop((v, ctx)))
        }
        Op::Foreign { c, what, times } => {
            let s = &ss[*c];
            let r = farm.msgs[crate::grow::FARM - 1];
            for _ in 0..*times {
                F::PanicOp.hit();
                sh().sut_ops += 1;
                let res = call(|| match what {
                    0 => s.ctx.decode(r, b"\x08\x01\x12\x00").fields.len(),
                    1 => s.ctx.resolve_message(r).name.len(),
                    _ => {
                        let m = MessageValue { msg_ref: r, fields: vec![], garbage: None };
                        m.encode(&s.ctx).len()
                    }
                });
                if res.is_err() {
                    P::OpPanic.hit();
                }
            }
            Ok(())
        }
    }
}

fn deep(s: &Shared, ty: usize, bytes: &[u8]) -> Result<(M, Vec<u8>), Violation> {
    let v = must("decode", || s.ctx.decode(s.bind.msgs[ty], bytes))?;
    let o = must("encode", || v.encode(&s.ctx))?;
    let m = wire::from_pf(&v, &s.bind);
    must("drop", || drop(v))?;
    Ok((m, o.to_vec()))
}

fn bad_load(texts: &[String]) -> Result<Result<Context, ParseError>, Violation> {
    must("schema-load", || Context::parse(texts))
}

/// What the schedules below assume: that the types let themselves be shared and sent at all. (The
/// schedules would run all the same: the harness carries anything anywhere.)
#[allow(dead_code)]
trait Unmarked {
    const SENDABLE: bool = false;
    const SHAREABLE: bool = false;
}

struct MarkSend<T: ?Sized>(std::marker::PhantomData<T>);
struct MarkSync<T: ?Sized>(std::marker::PhantomData<T>);

impl<T: ?Sized> Unmarked for MarkSend<T> {}
impl<T: ?Sized> Unmarked for MarkSync<T> {}

impl<T: ?Sized + Send> MarkSend<T> {
    const SENDABLE: bool = true;
}

impl<T: ?Sized + Sync> MarkSync<T> {
    const SHAREABLE: bool = true;
}

fn shareable() -> R {
    use protofish::context::*;
    use protofish::decode::*;
    macro_rules! check {
        ($($t:ty),*) => {$(
            if !MarkSend::<$t>::SENDABLE || !MarkSync::<$t>::SHAREABLE {
                return fail(concat!("not-shareable:", stringify!($t)), concat!(stringify!($t), " can no longer be shared by threads").into());
            }
        )*};
    }
    check!(Context, MessageInfo, EnumInfo, Service, MessageField, MessageRef, EnumRef, ServiceRef, PackageRef, MessageValue, FieldValue, Value, ParseError);
    Ok(())
}

pub fn run() -> R {
    shareable()?;
    let mut ss: Vec<Shared> = vec![];
    for _ in 0..pick(&[1, 1, 2]) {
        if let Some(s) = deploy()? {
            ss.push(s);
        }
    }
    if ss.is_empty() {
        return Ok(());
    }
    if ss[0].model.is_none() && chance(1, 2) {
        // A second version of the first schema: same names, other fields.
        let w = gen::derive(&ss[0].w);
        let ctx = sut("schema-build", || gen::hand_build(&w))?;
        if let Some(bind) = sut("lookup", || Bind::new(&w, &ctx))? {
            ss.push(Shared { model: None, texts: vec![gen::render(&w)], w, ctx, bind, vals: vec![] });
        }
    }
    for s in &mut ss {
        for _ in 0..us(3) {
            let (ty, b) = draw_bytes(s, false);
            let (want, info) = wire::decode(&s.w, ty, &b);
            if info.depth < 60 {
                s.vals.push((ty, wire::to_pf(&want, &s.bind), wire::encode(&want)));
            }
        }
    }
    for (i, s) in ss.iter().enumerate() {
        tr!("--- context {}\n{}", i, s.texts.join("---\n"));
    }
    let farm = sut("schema-build", Farm::new)?;
    let n = pick(&[2, 3, 2, 4, 6]);
    let mut work: Vec<Vec<Op>> = (0..n).map(|_| (0..range(1, 5)).map(|_| draw_op(&ss)).collect()).collect();
    if chance(1, 3) {
        // All threads begin with the same operation: the first use of anything lazy.
        let c = us(ss.len());
        let (ty, bytes) = draw_bytes(&ss[c], false);
        let (want, info) = wire::decode(&ss[c].w, ty, &bytes);
        if info.depth < 60 {
            let load = chance(1, 3);
            for w in &mut work {
                w.insert(0, if load { Op::Load { c, busy: false } } else {
                    Op::Decode { c, ty, bytes: bytes.clone(), out: wire::encode(&want), want: want.clone() }
                });
            }
        }
    } else if n >= 3 && chance(1, 4) {
        // All threads are deep inside something at once.
        let c = us(ss.len());
        for w in &mut work {
            let types = ss[c].w.msgs.len();
            let first = us(types);
            let found = (0..types).map(|k| (first + k) % types).find_map(|ty| Some((ty, gen::cycle(&ss[c].w, ty)?)));
            if let Some((ty, path)) = found {
                let bytes = gen::nest(&path, pick(&[98, 80, 100, 60, 120, 40]), &[], chance(1, 4));
                w.insert(0, Op::Deep { c, ty, bytes });
            }
        }
    }
    let mut cost = 0u64;
    for (t, w) in work.iter().enumerate() {
        for op in w {
            let (what, size) = match op {
                Op::Decode { bytes, .. } => ("decode", bytes.len() * 110),
                Op::Deep { bytes, .. } => ("deep decode", bytes.len() * 110),
                Op::Build { out, .. } => ("build", out.len() * 10),
                Op::Use { .. } => ("use", 200),
                Op::Lookup { .. } => ("lookup", 5000),
                Op::Load { c, .. } => ("load", ss[*c].texts.iter().map(|t| t.len()).sum::<usize>() * 10),
                Op::Bad { texts } => ("damaged load", texts.iter().map(|t| t.len()).sum::<usize>() * 10),
                Op::Own { bytes, .. } => ("own context", bytes.len() * 10 + 5000),
                Op::Foreign { times, .. } => ("foreign reference", 10 * times),
            };
            cost += size as u64;
            tr!("  thread {}: {}", t, what);
        }
    }
    let gap = pick(&[200, 40, 1000, 200, 8, 4000, 1000, 20000]);
    let stalls = chance(1, 3);
    tr!("  {} threads, mean gap {} steps, stalls {}", n, gap, stalls);
    let mut results: Vec<Vec<Result<Left, Violation>>> = (0..n).map(|_| vec![]).collect();
    // Far above what the operations need: only endless waiting gets there.
    seam::set_budget(20_000_000 + 2000 * cost);
    let s = sh();
    s.panic_len = 0;
    s.in_sut = 1;
    let before = s.switches;
    {
        let (ss, farm) = (&ss, &farm);
        let bodies: Vec<Box<dyn FnOnce()>> = work
            .iter()
            .zip(results.iter_mut())
            .map(|(ops, res)| -> Box<dyn FnOnce()> {
                Box::new(move || {
                    for op in ops {
                        let r = match op {
                            Op::Bad { texts } => bad_load(texts).map(Left::Load),
                            Op::Deep { c, ty, bytes } => deep(&ss[*c], *ty, bytes).map(|(m, o)| Left::Deep(m, o)),
                            op => do_op(op, ss, farm).map(|_| Left::Nothing),
                        };
                        let stop = r.is_err();
                        res.push(r);
                        if stop {
                            break;
                        }
                    }
                })
            })
            .collect();
        let t0 = seam::steps();
        sched::run(bodies, gap, stalls);
        // A step stands for a nanosecond here.
        sh().sim_us += (seam::steps() - t0) / 1000;
    }
    s.in_sut = 0;
    seam::usual_budget();
    if s.switches > before + n as u64 {
        s.nontrivial += 1;
    }
    for (t, (ops, rs)) in work.iter().zip(results).enumerate() {
        for (k, (op, r)) in ops.iter().zip(rs).enumerate() {
            let got = match r {
                Ok(g) => g,
                Err(v) => return fail(&v.kind, format!("thread {} of {}, operation {}: {}", t, n, k, v.msg)),
            };
            if let (Op::Deep { c, ty, bytes }, Left::Deep(m, o)) = (op, &got) {
                let alone = deep(&ss[*c], *ty, bytes)?;
                if *m != alone.0 || *o != alone.1 {
                    return fail("threads-change-decode", format!("thread {} of {}, operation {}: a deeply nested message ({} bytes) gives something else than it gives alone afterwards", t, n, k, bytes.len()));
                }
            }
            if let (Op::Bad { texts }, Left::Load(got)) = (op, got) {
                let alone = sut("schema-load", || Context::parse(texts))?;
                let same = match (&got, &alone) {
                    (Ok(a), Ok(b)) => sut("compare", || a == b || a != a || b != b)?,
                    (Err(ParseError::SyntaxError { source: a }), Err(ParseError::SyntaxError { source: b })) => a.to_string() == b.to_string(),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    let show = |r: &Result<Context, ParseError>| r.as_ref().map(|_| "a context").map_err(|e| e.to_string());
                    return fail("threads-change-load", format!("thread {}: a damaged set gives {:?} among others and {:?} alone\n{}", t, show(&got), show(&alone), texts.join("---\n")));
                }
            }
        }
    }
    // Afterwards everything is still as it was.
    for c in 0..ss.len() {
        do_op(&Op::Lookup { c }, &ss, &farm)?;
    }
    for w in &work {
        for op in w {
            if let Op::Decode { .. } = op {
                do_op(op, &ss, &farm)?;
            }
        }
    }
    Ok(())
}
