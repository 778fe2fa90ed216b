//! A node that repeats its work does not grow.
use super::*;
use crate::grow;
use crate::schema::{self, Cfg, FileD};
use protofish::context::*;
use protofish::decode::MessageValue;

/// One thing a node does. Everything it makes is dropped when the round is over.
#[derive(Debug, Clone)]
enum Op {
    Load(usize),
    /// Files that do not load (or load as something else).
    LoadBad(Vec<String>),
    /// The disk fails while files are being read.
    LoadThrow(usize, usize),
    /// Message of a set; keep the value until the end of the round.
    /// (The second bytes come last.)
    Decode(usize, usize, Vec<u8>, Vec<u8>, bool),
    Lookup(usize, Vec<String>),
    /// A reference that means nothing here.
    Foreign(usize, u8),
    /// A message is decoded and encoded with a context that has only so many types.
    Partial(usize, usize, Vec<u8>, usize),
    /// Packages and types are added to a context of a set, some of them twice.
    Grow(usize, Vec<(String, bool)>),
    DropContext(usize),
    /// In a thread of its own, which then ends.
    Thread(Box<Op>),
}

struct Set {
    texts: Vec<String>,
    w: World,
    names: Vec<String>,
    full: Vec<String>,
}

struct Live {
    ctxs: Vec<Option<Context>>,
    /// Values, and the set they belong to.
    values: Vec<(usize, MessageValue)>,
}

pub fn run() -> R {
    let mut sets = vec![];
    for _ in 0..range(1, 2) {
        let files = schema::files(Cfg { files: range(1, 3), size: range(1, 3), bad: false, tower: if chance(1, 12) { 8 } else { 0 }, swell: 0, crowd: 0 });
        let refs: Vec<&FileD> = files.iter().collect();
        let Ok(model) = schema::load(&refs) else { continue };
        let w = schema::world(&model);
        if w.msgs.is_empty() {
            continue;
        }
        let names = model.msgs.keys().chain(model.enums.keys()).chain(model.svcs.keys()).cloned().collect();
        let full = w.msgs.iter().map(|m| m.full.clone()).collect();
        sets.push(Set { texts: files.iter().map(schema::render).collect(), w, names, full });
    }
    if sets.is_empty() {
        return Ok(());
    }
    for (i, s) in sets.iter().enumerate() {
        for t in &s.texts {
            tr!("--- set {}\n{}", i, t);
        }
    }
    let mut script = vec![];
    for _ in 0..pick(&[5, 2, 10, 16]) {
        let op = draw(&sets);
        tr!("operation {:?}", op);
        script.push(op);
    }
    sh().nontrivial += 1;
    // What is loaded, decoded and looked up may differ a little from round to round.
    let vary = chance(1, 3);
    if vary {
        P::Varied.hit();
        tr!("every round with names and values of its own");
    }
    let foreign = sut("schema-build", grow::Farm::new)?;
    // The first rounds may set things up that stay.
    let mut at: Vec<i64> = vec![];
    seam::meter_start(i64::MAX, i64::MAX);
    let go = |n: usize, at: &mut Vec<i64>| -> R {
        while at.len() < n {
            let dt = 1_000_000;
            sh().sim_us += dt;
            seam::clock_add(dt);
            // (Of the same lengths.)
            let tag = if vary { 10_000 + at.len() } else { 10_000 };
            round(&sets, &script, &foreign, tag)?;
            at.push(seam::live());
        }
        Ok(())
    };
    const FEW: usize = 6;
    const MORE: usize = 12;
    const MANY: usize = 1536;
    at.reserve(MANY);
    let r = (|| {
        go(MORE, &mut at)?;
        ev(132, format!("{:?}", script).bytes().fold(0, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)), vary as u64);
        ev(130, (at[MORE - 1] - at[FEW - 1]) as u64, at[0] as u64);
        if at[MORE - 1] <= at[FEW - 1] {
            return Ok(());
        }
        P::Grew.hit();
        // Something grew. A store that fills up to a limit is fine; without end is not.
        go(MORE * 8, &mut at)?;
        if at[MORE * 8 - 1] <= at[MORE * 4 - 1] {
            return Ok(());
        }
        go(MANY, &mut at)?;
        let d = |a: usize, b: usize| at[b - 1] - at[a - 1];
        let (x, y) = (d(MANY / 4, MANY / 2), d(MANY / 2, MANY));
        // Twice as many rounds in the last part as in the part before.
        if x > 0 && y * 3 > x * 5 {
            return fail("memory-grows", format!(
                "memory held after everything was dropped keeps growing: {} bytes after 1 round, {} after {}, {} after {}, {} after {}\nsets:\n{}\neach round: {}",
                at[0], at[FEW - 1], FEW, at[MANY / 2 - 1], MANY / 2, at[MANY - 1], MANY,
                sets.iter().map(|s| s.texts.join("---\n")).collect::<Vec<_>>().join("=====\n"),
                script.iter().map(|o| { let mut s = format!("{:?}", o); cut(&mut s, 600); s }).collect::<Vec<_>>().join("\n")));
        }
        Ok(())
    })();
    seam::meter_stop();
    r
}

fn draw(sets: &[Set]) -> Op {
    let k = us(sets.len());
    let s = &sets[k];
    match weighted(&[3, 3, 1, 8, 2, 2, 3, 2, 2]) {
        0 => Op::Load(k),
        1 => {
            let mut t: Vec<Vec<u8>> = s.texts.iter().map(|t| t.as_bytes().to_vec()).collect();
            match us(4) {
                0 => {
                    F::DDouble.hit();
                    let d = t[us(t.len())].clone();
                    t.push(d);
                }
                1 if t.len() > 1 => {
                    F::DLost.hit();
                    t.remove(us(t.len()));
                }
                _ => {
                    let i = us(t.len());
                    let other = t[us(t.len())].clone();
                    for _ in 0..range(1, 2) {
                        super::c09::damage(&mut t[i], &other, u64::MAX);
                    }
                }
            }
            Op::LoadBad(t.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect())
        }
        2 => {
            F::DReadErr.hit();
            Op::LoadThrow(k, range(0, s.texts.len()))
        }
        3 => {
            let (ty, _, b) = draw_message(&s.w);
            let b = match us(4) {
                0 => b,
                3 if chance(1, 4) => hostile_frame(&s.w, ty, &b[..b.len().min(300)]),
                _ => {
                    let spans = wire::decode(&s.w, ty, &b).1.spans;
                    gen::damage(&b, &spans, &b, range(1, 3), u64::MAX)
                }
            };
            // Rounds are repeated often.
            let mut b = b[..b.len().min(2000)].to_vec();
            if chance(1, 8) {
                P::Bulky.hit();
                let n = pick(&[3000, 6000, 20_000, 70_000]);
                match us(3) {
                    0 => {
                        let mut v = vec![];
                        wire::put_varint(&mut v, (gen::number() << 3) | 2);
                        wire::put_varint(&mut v, n as u64);
                        v.resize(v.len() + n, 7);
                        v.extend(b);
                        b = v;
                    }
                    1 if !b.is_empty() => b = b.iter().cycle().take(n.min(6000)).cloned().collect(),
                    _ => b = gen::nest_around(&gen::cycle(&s.w, ty).unwrap_or_else(|| vec![1]), 40, &b[..b.len().min(200)], &[], &vec![pick(&[0x80u8, 0x08]); 50]),
                }
            }
            let mut tail = vec![];
            if chance(1, 4) {
                tail = match us(3) {
                    0 => vec![0x80; range(1, 3)],
                    1 => vec![0xff; 12],
                    _ => gen::hostile(),
                };
            }
            Op::Decode(k, ty, b, tail, chance(1, 2))
        }
        4 => Op::Lookup(k, (0..range(1, 4)).map(|_| if chance(1, 3) { format!("no.such.{}", pick(&["A", "b", "C.D"])) } else { s.names[us(s.names.len())].clone() }).collect()),
        5 => {
            F::PanicOp.hit();
            if chance(1, 2) {
                let (ty, _, mut b) = draw_message(&s.w);
                b.truncate(2000);
                return Op::Partial(k, ty, b, us(s.w.msgs.len() + 1));
            }
            Op::Foreign(k, us(8) as u8)
        }
        6 => {
            F::Conflict.hit();
            Op::Grow(k, (0..range(1, 6)).map(|_| (grow::type_name(), chance(1, 3))).collect())
        }
        7 => Op::DropContext(k),
        _ => Op::Thread(Box::new(draw(sets))),
    }
}

fn round(sets: &[Set], script: &[Op], farm: &grow::Farm, tag: usize) -> R {
    let mut l = Live { ctxs: sets.iter().map(|_| None).collect(), values: vec![] };
    for op in script {
        act(sets, op, farm, tag, &mut l)?;
    }
    // Whatever is left is used once more and goes.
    let Live { ctxs, values } = l;
    for (k, v) in &values {
        if let Some(c) = &ctxs[*k] {
            sut("encode", || v.encode(c).len())?;
        }
    }
    if script.len() % 2 == 0 {
        sut("drop", move || drop(ctxs))?;
        sut("drop", move || drop(values))
    } else {
        sut("drop", move || drop(values))?;
        sut("drop", move || drop(ctxs))
    }
}

fn act(sets: &[Set], op: &Op, farm: &grow::Farm, tag: usize, l: &mut Live) -> R {
    let ready = |l: &mut Live, k: usize| -> R {
        if l.ctxs[k].is_none() {
            let own = format!("syntax = \"proto3\"; package own.p{tag}; message Own{tag} {{ message In {{ }} In f{tag} = 1; }} enum E{tag} {{ V{tag} = 0; }} service Svc{tag} {{ rpc R{tag}(Own{tag}) returns (Own{tag}); }}");
            match sut("schema-load", || Context::parse(sets[k].texts.iter().chain(std::iter::once(&own))))? {
                Ok(c) => l.ctxs[k] = Some(c),
                Err(e) => return fail("load-rejected", format!("a valid set is rejected: {}\n{}", e, sets[k].texts.join("---\n"))),
            }
        }
        Ok(())
    };
    match op {
        Op::Load(k) => {
            l.ctxs[*k] = None;
            ready(l, *k)
        }
        Op::LoadBad(t) => {
            // Nothing of a load that fails is kept; what loads is dropped too.
            let own = format!("syntax = \"proto3\"; package bad.p{tag}; message Bad{tag} {{ }}");
            sut("schema-load", || Context::parse(t.iter().chain(std::iter::once(&own))).map_err(|e| shown(&e)).is_ok())?;
            Ok(())
        }
        Op::LoadThrow(k, at) => {
            let t = &sets[*k].texts;
            let mut i = 0;
            let it = std::iter::from_fn(|| {
                if i == *at {
                    std::panic::panic_any("simulated read error");
                }
                i += 1;
                Some(&t[i - 1])
            });
            let _ = sut_may_panic(|| Context::parse(it).is_ok());
            Ok(())
        }
        Op::Decode(k, ty, b, tail, keep) => {
            ready(l, *k)?;
            let Live { ctxs, values } = l;
            let c = ctxs[*k].as_ref().unwrap();
            let Some(m) = sut("lookup", || c.get_message(&sets[*k].full[*ty]))? else {
                return fail("loaded-differs", format!("{} is not found", sets[*k].full[*ty]));
            };
            let mut b = b.clone();
            wire::put_varint(&mut b, (tag as u64) << 3);
            wire::put_varint(&mut b, tag as u64);
            b.extend_from_slice(tail);
            let v = sut("decode", || m.decode(&b, c))?;
            let d = sut("clone", || v.clone())?;
            sut("encode", || v.encode(c).len())?;
            sut("drop", move || drop(v))?;
            if *keep {
                values.push((*k, d));
            }
            Ok(())
        }
        Op::Lookup(k, names) => {
            ready(l, *k)?;
            let c = l.ctxs[*k].as_ref().unwrap();
            for n in names {
                let n = if n.starts_with("no.such") { format!("{n}{tag}") } else { n.clone() };
                let n = &n[..];
                sut("lookup", || (c.get_type(n).is_some(), c.get_message(n).is_some(), c.get_service(n).is_some()))?;
            }
            // What is there by the name of this round.
            let (t, e, s) = (format!("own.p{tag}.Own{tag}"), format!("own.p{tag}.E{tag}"), format!("own.p{tag}.Svc{tag}"));
            let found = sut("lookup", || {
                (c.get_message(&t).map(|m| m.get_field_by_name(&format!("f{tag}")).is_some()), c.get_type(&e).is_some(), c.get_service(&s).map(|s| s.rpc_by_name(&format!("R{tag}")).is_some()))
            })?;
            if found != (Some(true), true, Some(true)) {
                return fail("loaded-differs", format!("{}, {} and {} are {:?}", t, e, s, found));
            }
            Ok(())
        }
        Op::Foreign(k, what) => {
            ready(l, *k)?;
            let c = l.ctxs[*k].as_mut().unwrap();
            let r = farm.msgs[grow::FARM - 1];
            let p = farm.pkgs[grow::FARM - 1];
            let _ = match what {
                0 => sut_may_panic(|| c.resolve_message(r).name.len()),
                1 => sut_may_panic(|| c.decode(r, b"\x08\x01\x12\x03abc").fields.len()),
                2 => sut_may_panic(|| {
                    let mut m = MessageInfo::new(format!("Foreign{tag}"), TypeParent::Message(r));
                    for i in 1..4 {
                        let _ = m.add_field(MessageField::new(format!("f{}", i), i, ValueType::Message(r)));
                    }
                    c.insert_message(m).is_ok() as usize
                }),
                3 => sut_may_panic(|| {
                    let mut e = EnumInfo::new(format!("Foreign{tag}"), TypeParent::Message(r));
                    let _ = e.add_field(EnumField::new("v".into(), 1));
                    c.insert_enum(e).is_ok() as usize
                }),
                4 => sut_may_panic(|| c.insert_enum(EnumInfo::new(format!("Foreign{tag}"), TypeParent::Package(p))).is_ok() as usize),
                5 => sut_may_panic(|| {
                    c.resolve_package(p);
                    0
                }),
                6 => sut_may_panic(|| {
                    let mut m = MessageInfo::new(format!("Foreign{tag}"), TypeParent::Package(p));
                    let mut f = MessageField::new("f".into(), 1, ValueType::Bool);
                    f.oneof = Some(farm.oneofs[3]);
                    m.add_field(f).is_ok() as usize
                }),
                _ => sut_may_panic(|| c.insert_message(MessageInfo::new("ForeignParent".into(), TypeParent::Package(p))).is_ok() as usize),
            };
            Ok(())
        }
        Op::Partial(k, ty, b, n) => {
            ready(l, *k)?;
            let c = l.ctxs[*k].as_ref().unwrap();
            let Some(m) = sut("lookup", || c.get_message(&sets[*k].full[*ty]))? else {
                return fail("loaded-differs", format!("{} is not found", sets[*k].full[*ty]));
            };
            let other = sut("grow", || {
                let mut x = Context::new();
                let p = x.insert_package(Package::new(None)).expect("package");
                for i in 0..*n {
                    let mut m = MessageInfo::new(format!("M{}", i), TypeParent::Package(p));
                    for f in 1..6 {
                        let _ = m.add_field(MessageField::new(format!("f{}", f), f, if f % 2 == 1 { ValueType::Int32 } else { ValueType::String }));
                    }
                    let _ = x.insert_message(m);
                }
                x
            })?;
            let v = sut("decode", || m.decode(b, c))?;
            let _ = sut_may_panic(|| v.encode(&other).len());
            let _ = sut_may_panic(|| m.decode(b, &other).fields.len());
            sut("drop", move || drop((v, other)))
        }
        Op::Grow(k, names) => {
            ready(l, *k)?;
            let c = l.ctxs[*k].as_mut().unwrap();
            let p = match sut("insert_package", || c.insert_package(Package::new(Some(format!("grown.p{tag}")))))? {
                Ok(p) | Err(p) => p,
            };
            for (n, en) in names {
                let n = format!("{n}{tag}");
                if *en {
                    let mut e = sut("new", || EnumInfo::new(n.clone(), TypeParent::Package(p)))?;
                    for _ in 0..2 {
                        sut("modify", || e.add_field(EnumField::new("v".into(), 1)).is_ok())?;
                    }
                    sut("insert_enum", || c.insert_enum(e).is_ok())?;
                } else {
                    let mut m = sut("new", || MessageInfo::new(n.clone(), TypeParent::Package(p)))?;
                    for i in [1, 2, 1] {
                        sut("modify", || m.add_field(MessageField::new(format!("f{}", i), i, ValueType::String)).is_ok())?;
                    }
                    for f in [1, 9, 1] {
                        let mut o = Oneof::new("o".into());
                        o.fields = vec![f];
                        sut("modify", || m.add_oneof(o).is_ok())?;
                    }
                    sut("insert_message", || c.insert_message(m).is_ok())?;
                }
            }
            Ok(())
        }
        Op::DropContext(k) => {
            l.ctxs[*k] = None;
            Ok(())
        }
        Op::Thread(op) => on_stack(4 << 20, || act(sets, op, farm, tag, l)),
    }
}
