//! Results depend only on files and bytes, not on process history.
use super::*;
use crate::schema::{self, Cfg, FileD, Model};
use crate::snap;

/// One schema set with messages for it, and what was first seen of them.
struct App {
    texts: Vec<String>,
    model: Model,
    w: World,
    msgs: Vec<(usize, Vec<u8>)>,
    first: Option<First>,
}

struct First {
    snap: String,
    bind: Bind,
    /// Decoded value and what it encodes to, per message.
    results: Vec<(M, Vec<u8>)>,
}

/// The process: contexts live in fixed places, one receive buffer is used for everything.
struct Proc {
    apps: Vec<App>,
    slots: Vec<Option<(usize, Context)>>,
    rx: Vec<u8>,
    ballast: Vec<Vec<u8>>,
    /// Values decoded earlier that somebody still holds: set, value, what it is, its encoding.
    held: Vec<(usize, protofish::decode::MessageValue, M, Vec<u8>)>,
}

fn new_app() -> Option<(App, Vec<FileD>)> {
    let files = schema::files(Cfg::draw(false));
    Some((app(&files)?, files))
}

/// The same definitions in another order: every name denotes the same, at another place.
fn shuffled(files: &[FileD]) -> Option<App> {
    let mut files = files.to_vec();
    mix(&mut files);
    for f in &mut files {
        mix(&mut f.items);
        for i in &mut f.items {
            if let schema::Item::M(m) = i {
                let mut inner: Vec<schema::Body> = vec![];
                m.body.retain(|b| match b {
                    schema::Body::M(_) | schema::Body::E(_) => {
                        inner.push(b.clone());
                        false
                    }
                    _ => true,
                });
                mix(&mut inner);
                m.body.extend(inner);
            }
        }
    }
    P::Shuffled.hit();
    app(&files)
}

fn mix<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = us(i + 1);
        v.swap(i, j);
    }
}

fn app(files: &[FileD]) -> Option<App> {
    let refs: Vec<&FileD> = files.iter().collect();
    let model = schema::load(&refs).ok()?;
    let w = schema::world(&model);
    if w.msgs.is_empty() {
        return None;
    }
    let mut msgs = vec![];
    for _ in 0..range(1, 3) {
        let (ty, _, b) = draw_message(&w);
        let spans = wire::decode(&w, ty, &b).1.spans;
        let b = if chance(1, 3) { gen::damage(&b, &spans, &[], range(1, 3), u64::MAX) } else { b };
        msgs.push((ty, b));
    }
    if chance(1, 4) {
        // Close to what is too deep to be taken apart: whatever becomes of it, it is the same
        // everywhere.
        let first = us(w.msgs.len());
        let n = w.msgs.len();
        if let Some((ty, path)) = (0..n).map(|k| (first + k) % n).find_map(|ty| Some((ty, gen::cycle(&w, ty)?))) {
            msgs.push((ty, gen::nest(&path, pick(&[99, 98, 100, 97, 101, 90, 200]), &[], chance(1, 4))));
        }
    }
    let app = App { texts: files.iter().map(schema::render).collect(), model, w, msgs, first: None };
    Some(app)
}

/// Runs an operation here or in a fresh thread (which has its own hash keys and stack).
fn somewhere<T>(f: impl FnOnce() -> T) -> T {
    if chance(1, 3) {
        F::HashSeed.hit();
        seam::set_hash_seed(tape::u64_());
        on_thread(pick(&[None, Some("worker"), Some("main"), Some("")]), pick(&[8 << 20, 4 << 20, 64 << 20]), f)
    } else if chance(1, 4) {
        F::StackShift.hit();
        deep_in(pick(&[100_000, 600_000, 1_500_000, 3_000_000]), f)
    } else {
        f()
    }
}

fn decode(rx: &mut Vec<u8>, ctx: &Context, r: protofish::context::MessageRef, b: &[u8]) -> Result<protofish::decode::MessageValue, Violation> {
    // The receive buffer always has the same address.
    if b.len() <= rx.capacity() {
        F::BufReuse.hit();
        rx.clear();
        rx.extend_from_slice(b);
        sut("decode", || ctx.decode(r, rx))
    } else {
        let mut own = b.to_vec();
        let v = sut("decode", || ctx.decode(r, &own))?;
        own.fill(0xAA);
        Ok(v)
    }
}

/// Decodes a message and keeps the value.
fn hold(p: &mut Proc, s: usize) -> R {
    let Proc { apps, slots, rx, held, .. } = p;
    let Some((a, c)) = &slots[s] else { return Ok(()) };
    let app = &apps[*a];
    let Some(first) = &app.first else { return Ok(()) };
    if app.msgs.is_empty() {
        return Ok(());
    }
    P::Held.hit();
    let k = us(app.msgs.len());
    let (ty, b) = &app.msgs[k];
    let v = decode(rx, c, first.bind.msgs[*ty], b)?;
    rx.fill(0x55);
    let (m, out) = first.results[k].clone();
    held.push((*a, v, m, out));
    still(p)
}

/// Values in hand are what they were, whatever became of the buffer and the context.
fn still(p: &Proc) -> R {
    for (a, v, m, out) in &p.held {
        let app = &p.apps[*a];
        let Some(first) = &app.first else { continue };
        let got = wire::from_pf(v, &first.bind);
        if got != *m {
            return fail("history-changes-value", format!("a value decoded earlier changed: {}\n{}", diff(&got, m, ""), app.texts.join("---\n")));
        }
        if let Some((_, c)) = p.slots.iter().flatten().find(|x| x.0 == *a) {
            let o = sut("encode", || v.encode(c))?;
            if o[..] != out[..] {
                return fail("history-changes-encode", format!("a value decoded earlier encodes as {} instead of {}", wire::hex(&o), wire::hex(out)));
            }
        }
    }
    Ok(())
}

impl App {
    fn load(&self) -> Result<Context, Violation> {
        match sut("schema-load", || Context::parse(&self.texts))? {
            Ok(c) => Ok(c),
            Err(e) => fail("load-rejected", format!("a valid set is rejected: {}\n{}", e, self.texts.join("---\n"))),
        }
    }

    /// Observes everything; the first time against the reference, later against the first time.
    fn verify(&mut self, ctx: &Context, rx: &mut Vec<u8>, when: &str) -> R {
        let all = || self.texts.join("---\n");
        let snap = sut("lookup", || snap::context(ctx, &self.model))?;
        if self.first.is_none() {
            if let Some(d) = sut("lookup", || schema::disagree(&self.model, ctx))? {
                return fail("loaded-differs", format!("{}: {}\n{}", when, d, all()));
            }
            let bind = match sut("lookup", || Bind::new(&self.w, ctx))? {
                Some(b) => b,
                None => return fail("loaded-differs", format!("{}: a type cannot be found by its name\n{}", when, all())),
            };
            let mut results = vec![];
            for (ty, b) in &self.msgs {
                let v = decode(rx, ctx, bind.msgs[*ty], b)?;
                let got = wire::from_pf(&v, &bind);
                let want = wire::decode(&self.w, *ty, b).0;
                if got != want {
                    return fail("history-changes-decode", format!("{}: {}\n bytes {}\n{}", when, diff(&got, &want, &self.w.msgs[*ty].full), wire::hex(b), all()));
                }
                let out = sut("encode", || v.encode(ctx))?.to_vec();
                if out != wire::encode(&want) {
                    return fail("history-changes-encode", format!("{}: encodes as {} instead of {}\n{}", when, wire::hex(&out), wire::hex(&wire::encode(&want)), all()));
                }
                results.push((got, out));
            }
            self.first = Some(First { snap, bind, results });
            return Ok(());
        }
        sh().nontrivial += 1;
        let first = self.first.as_ref().unwrap();
        if snap != first.snap {
            return fail("history-changes-load", format!("{}: the context shows {}\n{}", when, snap::differ(&first.snap, &snap), all()));
        }
        for ((ty, b), (m, out)) in self.msgs.iter().zip(&first.results) {
            let v = decode(rx, ctx, first.bind.msgs[*ty], b)?;
            let got = wire::from_pf(&v, &first.bind);
            if got != *m {
                return fail("history-changes-decode", format!("{}: {}\n bytes {}\n{}", when, diff(&got, m, &self.w.msgs[*ty].full), wire::hex(b), all()));
            }
            let o = sut("encode", || v.encode(ctx))?.to_vec();
            if o != *out {
                return fail("history-changes-encode", format!("{}: encodes as {} instead of {}\n{}", when, wire::hex(&o), wire::hex(out), all()));
            }
            // A value that was built, not decoded.
            let o = sut("encode", || wire::to_pf(m, &first.bind).encode(ctx))?.to_vec();
            if o != *out {
                return fail("history-changes-encode", format!("{}: a built value encodes as {} instead of {}\n{}", when, wire::hex(&o), wire::hex(out), all()));
            }
        }
        Ok(())
    }
}

pub fn run() -> R {
    let mut p = Proc { apps: vec![], slots: vec![None, None, None], rx: Vec::with_capacity(4096), ballast: vec![], held: vec![] };
    for _ in 0..range(1, 3) {
        if let Some((a, files)) = new_app() {
            p.apps.push(a);
            if chance(1, 3) {
                p.apps.extend(shuffled(&files));
            }
        }
    }
    if p.apps.is_empty() {
        return Ok(());
    }
    for (i, a) in p.apps.iter().enumerate() {
        for t in &a.texts {
            tr!("--- set {}\n{}", i, t);
        }
    }
    // What a process sees that has done nothing before.
    let ctx = p.apps[0].load()?;
    p.apps[0].verify(&ctx, &mut p.rx, "in a fresh process")?;
    p.slots[0] = Some((0, ctx));
    for _ in 0..pick(&[6, 3, 12, 20]) {
        let dt = 1 + below(1_000_000);
        sh().sim_us += dt;
        seam::clock_add(dt);
        step(&mut p)?;
    }
    // At last every context still in use, and a restart.
    for s in 0..p.slots.len() {
        check_slot(&mut p, s, "at the end")?;
    }
    reload(&mut p, 0, 0)?;
    still(&p)
}

fn check_slot(p: &mut Proc, s: usize, when: &str) -> R {
    let Proc { apps, slots, rx, .. } = p;
    if let Some((a, c)) = &slots[s] {
        let app = &mut apps[*a];
        return somewhere(|| app.verify(c, rx, when));
    }
    Ok(())
}

/// Restart of one user: the same files are loaded again, into the same place.
fn reload(p: &mut Proc, a: usize, s: usize) -> R {
    F::Restart.hit();
    // One name that is used right before and right after.
    let names: Vec<String> = p.apps[a].model.msgs.keys().chain(p.apps[a].model.enums.keys()).chain(p.apps[a].model.svcs.keys()).cloned().collect();
    let name = names[us(names.len())].clone();
    if chance(1, 2) {
        // The old context goes first, so that its memory can be used again.
        if let Some((b, c)) = &p.slots[s] {
            if chance(1, 2) {
                named(&p.apps[*b], c, &name, "before a restart")?;
            }
        }
        p.slots[s] = None;
    }
    let Proc { apps, slots, rx, .. } = p;
    let app = &mut apps[a];
    if chance(1, 2) {
        // Where it is loaded it is used at once.
        let ctx = app.load()?;
        named(app, &ctx, &name, "right after a restart")?;
        slots[s] = Some((a, ctx));
    } else {
        let ctx = somewhere(|| app.load())?;
        slots[s] = Some((a, ctx));
    }
    let others: Vec<usize> = (0..slots.len()).filter(|k| *k != s && slots[*k].as_ref().map_or(false, |x| x.0 == a)).collect();
    let c = &slots[s].as_ref().unwrap().1;
    for k in others {
        if slots[k].as_ref().unwrap().1 != *c {
            return fail("history-changes-load", format!("the files load into a context that is not equal to an earlier one\n{}", app.texts.join("---\n")));
        }
    }
    app.verify(c, rx, "after a restart")
}

/// One name denotes the definition of that name, whatever was asked before.
fn named(app: &App, c: &Context, name: &str, when: &str) -> R {
    use protofish::context::TypeInfo;
    let bad = |what: String| fail("history-changes-lookup", format!("{}: {}\n{}", when, what, app.texts.join("---\n")));
    for _ in 0..range(1, 2) {
        let m = sut("lookup", || c.get_message(name))?;
        let t = sut("lookup", || c.get_type(name))?;
        let v = sut("lookup", || c.get_service(name))?;
        let (is_m, is_e, is_s) = (app.model.msgs.contains_key(name), app.model.enums.contains_key(name), app.model.svcs.contains_key(name));
        if m.is_some() != is_m || t.is_some() != (is_m || is_e) || v.is_some() != is_s {
            return bad(format!("looking up {:?} gives message {:?}, type {:?}, service {:?}", name, m.map(|m| &m.full_name), t.map(|t| t.full_name()), v.map(|v| &v.full_name)));
        }
        if let Some(m) = m {
            if m.full_name != name || !std::ptr::eq(c.resolve_message(m.self_ref), m) {
                return bad(format!("looking up {:?} gives the message {:?}", name, m.full_name));
            }
        }
        if let Some(t) = t {
            let same = match t {
                TypeInfo::Message(x) => m.map_or(false, |m| std::ptr::eq(m, x)),
                TypeInfo::Enum(e) => std::ptr::eq(c.resolve_enum(e.self_ref), e),
            };
            if t.full_name() != name || !same {
                return bad(format!("looking up {:?} gives the type {:?}", name, t.full_name()));
            }
        }
        if let Some(v) = v {
            if v.full_name != name {
                return bad(format!("looking up {:?} gives the service {:?}", name, v.full_name));
            }
        }
    }
    Ok(())
}

/// The same damaged input again and again: what it leaves behind adds up.
fn burst(p: &mut Proc, s: usize) -> R {
    F::Burst.hit();
    if p.slots[s].is_none() {
        reload(p, us(p.apps.len()), s)?;
    }
    let n = pick(&[60, 300, 1200]);
    if chance(1, 4) {
        many_loads(&p.apps[us(p.apps.len())], n)?;
        if chance(1, 2) {
            reload(p, us(p.apps.len()), s)?;
        }
        return check_slot(p, s, "after many loads");
    }
    if chance(1, 20) {
        many_uses(p, s)?;
        return check_slot(p, s, "after many small messages");
    }
    if chance(1, 5) {
        // Loads that fail.
        let a = p.slots[s].as_ref().unwrap().0;
        let mut t: Vec<Vec<u8>> = p.apps[a].texts.iter().map(|t| t.as_bytes().to_vec()).collect();
        let k = us(t.len());
        let other = t[us(t.len())].clone();
        super::c09::damage(&mut t[k], &other, u64::MAX);
        let t: Vec<String> = t.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
        let size: usize = t.iter().map(|t| t.len()).sum();
        for _ in 0..n.min(200_000 / (size + 1)) {
            let _ = sut("schema-load", || Context::parse(&t))?;
        }
        return check_slot(p, s, "after many equal loads");
    }
    {
        let Proc { apps, slots, rx, .. } = p;
        let (a, c) = match &slots[s] {
            Some((a, c)) => (&apps[*a], c),
            None => return Ok(()),
        };
        let bind = match &a.first {
            Some(f) if !a.msgs.is_empty() => &f.bind,
            _ => return Ok(()),
        };
        let (ty, b) = &a.msgs[us(a.msgs.len())];
        let mut d = b.clone();
        match us(4) {
            0 => d.extend_from_slice(pick(&[&[0x80u8][..], &[0xff, 0xff], &[0x88]])),
            1 if !d.is_empty() => d.truncate(us(d.len())),
            2 => {
                let path = gen::cycle(&a.w, *ty).unwrap_or_else(|| vec![1]);
                d = gen::nest(&path, pick(&[20, 99, 101, 110]), &b[..b.len().min(40)], chance(1, 2));
            }
            _ => {
                let spans = wire::decode(&a.w, *ty, b).1.spans;
                d = gen::damage(b, &spans, b, range(1, 3), u64::MAX);
            }
        }
        let want = wire::decode(&a.w, *ty, &d).0;
        for k in 0..n.min(400_000 / (d.len() + 1)) {
            let v = decode(rx, c, bind.msgs[*ty], &d)?;
            if k % 16 == 0 {
                let got = wire::from_pf(&v, bind);
                if got != want {
                    return fail("history-changes-decode", format!("a damaged message, decoded {} times before: {}\n bytes {}\n{}", k, diff(&got, &want, &a.w.msgs[*ty].full), wire::hex(&d), a.texts.join("---\n")));
                }
            }
        }
    }
    if chance(1, 2) {
        let Proc { apps, slots, rx, .. } = p;
        let (a, c) = slots[s].as_ref().unwrap();
        return apps[*a].verify(c, rx, "after many equal messages");
    }
    check_slot(p, s, "after many equal messages")
}

/// More of the same than sixteen bits can count.
fn many_uses(p: &mut Proc, s: usize) -> R {
    let Proc { apps, slots, .. } = p;
    let Some((a, c)) = &slots[s] else { return Ok(()) };
    let app = &apps[*a];
    let Some(first) = &app.first else { return Ok(()) };
    if app.w.msgs.is_empty() {
        return Ok(());
    }
    P::ManyUses.hit();
    let ty = us(app.w.msgs.len());
    let full = &app.w.msgs[ty].full;
    let what = us(4);
    let b: &[u8] = pick(&[&[][..], &[0x80], &[0xf8, 0xff, 0x7f, 1], &[0xfa, 0xff, 0x7f, 0]]);
    let n = 66_000;
    sut("decode", || {
        match what {
            0 => {
                for _ in 0..n {
                    c.decode(first.bind.msgs[ty], b);
                }
            }
            1 => {
                let v = c.decode(first.bind.msgs[ty], b);
                for _ in 0..n {
                    v.encode(c);
                }
            }
            2 => {
                for _ in 0..n {
                    c.get_message(full);
                }
            }
            _ => {
                for _ in 0..n {
                    c.get_message("no.such");
                }
            }
        }
    })
}

/// Many small contexts with the same names at different places, some of them kept; now and then
/// the set itself.
fn many_loads(app: &App, n: usize) -> R {
    P::ManyLoads.hit();
    let size: usize = app.texts.iter().map(|t| t.len()).sum();
    let set = us(3) == 0 && size < 1500;
    let keep = pick(&[0, 1, 7]);
    let names: Vec<&String> = app.model.msgs.keys().chain(app.model.enums.keys()).collect();
    let mut kept: Vec<(Context, usize)> = vec![];
    let small = |c: &Context, k: usize| -> R {
        use protofish::context::TypeInfo;
        let at = sut("lookup", || (c.get_message("burst.A").map(|m| (m.full_name.clone(), m.get_field(k as u64 + 1).is_some())), matches!(c.get_type("burst.E"), Some(TypeInfo::Enum(e)) if e.full_name == "burst.E"), c.get_message("burst.None").is_some()))?;
        if at != (Some(("burst.A".to_string(), true)), true, false) {
            return fail("history-changes-lookup", format!("after {} loads of small files lookups in one of them give {:?}", k, at));
        }
        let m = sut("lookup", || c.get_message("burst.A"))?;
        if let Some(m) = m {
            let mut b = vec![];
            wire::put_varint(&mut b, (k as u64 + 1) << 3);
            b.push(1);
            let v = sut("decode", || m.decode(&b, c))?;
            if v.fields.len() != 1 || v.fields[0].value != protofish::decode::Value::Int32(1) || sut("encode", || v.encode(c))?[..] != b[..] {
                return fail("history-changes-decode", format!("after {} loads of small files {} decodes in one of them to {:?}", k, wire::hex(&b), v));
            }
        }
        Ok(())
    };
    for k in 0..n {
        if set && k % 4 == 0 && k * size < 300_000 {
            let c = app.load()?;
            named(app, &c, names[k % names.len()], "after many loads")?;
        }
        let before: String = (0..k % 3).map(|i| format!("message F{} {{ }}", i)).collect();
        let text = format!("syntax = \"proto3\"; package burst; {} message A {{ int32 f = {}; }} {} enum E {{ V = 0; }}", before, k + 1, if k % 2 == 0 { "message G { A a = 1; }" } else { "" });
        let c = match sut("schema-load", || Context::parse(&[text.as_str()]))? {
            Ok(c) => c,
            Err(e) => return fail("load-rejected", format!("after {} loads a valid file is rejected: {}\n{}", k, e, text)),
        };
        small(&c, k)?;
        if keep > 0 && k % keep == 0 && kept.len() < 400 {
            kept.push((c, k));
        }
    }
    for (c, k) in &kept {
        small(c, *k)?;
    }
    Ok(())
}

fn step(p: &mut Proc) -> R {
    let s = us(p.slots.len());
    let a = us(p.apps.len());
    if chance(1, 4) {
        still(p)?;
    }
    let op = weighted(&[4, 4, 3, 3, 2, 2, 2, 2, 1, 1, 1, 2]);
    ev(100, op as u64, (a * 8 + s) as u64);
    tr!("  t={}us operation {} (set {}, place {})", sh().sim_us, ["reload", "check", "failed load", "damaged decode", "foreign reference", "drop", "heap shift", "clock jump", "storm", "other contexts", "burst", "hold"][op], a, s);
    match op {
        0 => reload(p, a, s)?,
        1 => check_slot(p, s, "later")?,
        2 => failed_load(&p.apps[a])?,
        3 => damaged(p, s, 3)?,
        4 => foreign(p, s)?,
        5 => p.slots[s] = None,
        6 => {
            F::HeapShift.hit();
            if chance(1, 3) && !p.ballast.is_empty() {
                let k = us(p.ballast.len());
                p.ballast.swap_remove(k);
            } else {
                for _ in 0..range(1, 20) {
                    let n = pick(&[16, 48, 100, 500, 5000, 200_000]);
                    p.ballast.push(vec![0xEE; n]);
                }
            }
        }
        7 => {
            F::ClockJump.hit();
            match us(3) {
                0 => seam::clock_add(below(1 << 45)),
                1 => seam::clock_set(below(1000)),
                _ => seam::clock_add(1_000_000_000_000),
            }
        }
        8 => {
            let app = us(p.apps.len());
            for _ in 0..pick(&[20, 120]) {
                match us(6) {
                    0 => failed_load(&p.apps[app])?,
                    1 => foreign(p, s)?,
                    _ => damaged(p, s, 6)?,
                }
            }
        }
        10 => burst(p, s)?,
        11 => hold(p, s)?,
        _ => {
            let w = gen::world(true);
            let c = somewhere(|| sut("schema-build", || gen::hand_build(&w)))?;
            let (ty, _, b) = draw_message(&w);
            if let Some(bind) = sut("lookup", || Bind::new(&w, &c))? {
                let v = decode(&mut p.rx, &c, bind.msgs[ty], &b)?;
                let (got, want) = (wire::from_pf(&v, &bind), wire::decode(&w, ty, &b).0);
                if got != want {
                    return fail("history-changes-decode", format!("in a hand-built context: {}\n bytes {}\n{}", diff(&got, &want, &w.msgs[ty].full), wire::hex(&b), gen::render(&w)));
                }
            }
        }
    }
    Ok(())
}

fn failed_load(app: &App) -> R {
    let mut t: Vec<Vec<u8>> = app.texts.iter().map(|t| t.as_bytes().to_vec()).collect();
    let k = us(t.len());
    if chance(1, 4) {
        F::DDouble.hit();
        let d = t[k].clone();
        t.push(d);
    } else {
        let other = t[us(t.len())].clone();
        super::c09::damage(&mut t[k], &other, u64::MAX);
    }
    let t: Vec<String> = t.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
    let r = somewhere(|| sut("schema-load", || Context::parse(&t)))?;
    if let Err(e) = &r {
        sut("show", || shown(e))?;
        P::ParseErr.hit();
    }
    Ok(())
}

/// Damaged copies of the set's messages; what they mean is known too.
fn damaged(p: &mut Proc, s: usize, k: usize) -> R {
    let Proc { apps, slots, rx, .. } = p;
    let (a, c) = match &slots[s] {
        Some((a, c)) => (&apps[*a], c),
        None => return Ok(()),
    };
    let bind = match &a.first {
        Some(f) if !a.msgs.is_empty() => &f.bind,
        _ => return Ok(()),
    };
    let (ty, b) = &a.msgs[us(a.msgs.len())];
    let (ty, b) = (*ty, b);
    let d = if chance(1, 12) {
        F::Hostile.hit();
        let path = gen::cycle(&a.w, ty).unwrap_or_else(|| vec![1]);
        gen::nest(&path, pick(&[50, 99, 100, 101, 102, 300, 2000]), &b[..b.len().min(100)], chance(1, 2))
    } else if !b.is_empty() && chance(1, 2) {
        // Same length, other content.
        F::SetByte.hit();
        let mut d = b.clone();
        let at = us(d.len());
        d[at] = d[at].wrapping_add(1 + below(255) as u8);
        d
    } else {
        let spans = wire::decode(&a.w, ty, b).1.spans;
        gen::damage(b, &spans, b, range(1, k), u64::MAX)
    };
    let (want, info) = wire::decode(&a.w, ty, &d);
    let v = decode(rx, c, bind.msgs[ty], &d)?;
    let out = sut("encode", || v.encode(c))?;
    let got = wire::from_pf(&v, bind);
    if got != want {
        return fail("history-changes-decode", format!("a damaged message: {}\n bytes {}\n{}", diff(&got, &want, &a.w.msgs[ty].full), wire::hex(&d), a.texts.join("---\n")));
    }
    if !info.noncanonical && out[..] != d[..] {
        return fail("history-changes-encode", format!("a damaged message {} encodes as {}", wire::hex(&d), wire::hex(&out)));
    }
    Ok(())
}

/// Uses a reference of another context: documented to panic, or to denote something else.
fn foreign(p: &mut Proc, s: usize) -> R {
    F::PanicOp.hit();
    let Some((_, c)) = &p.slots[s] else { return Ok(()) };
    let f = match &p.apps[us(p.apps.len())].first {
        Some(f) if !f.bind.msgs.is_empty() => f,
        _ => return Ok(()),
    };
    let r = f.bind.msgs[us(f.bind.msgs.len())];
    let what = us(3);
    let e = f.bind.enums.get(us(f.bind.enums.len().max(1))).cloned();
    let res = sut_may_panic(|| match (what, e) {
        (0, _) => c.resolve_message(r).full_name.len(),
        (1, Some(e)) => c.resolve_enum(e).full_name.len(),
        _ => c.decode(r, b"\x08\x01\x12\x00").fields.len(),
    });
    if res.is_err() {
        P::OpPanic.hit();
    }
    Ok(())
}
