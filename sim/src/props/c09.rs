//! Damaged schema files never take the process down or half-load.
use super::*;
use crate::reader;
use crate::schema::{self, Cfg, FileD, Kind};
use protofish::context::{ParseError, TypeInfo, TypeParent, TypeRef};
use std::collections::BTreeSet;

/// Steps per byte of the set, far above what is measured.
const STEPS: u64 = 6_000;

/// A context in use, an equal one nobody touches, and messages with known meaning.
struct Live {
    w: World,
    ctx: Context,
    twin: Context,
    bind: Bind,
    msgs: Vec<(usize, Vec<u8>, M)>,
}

impl Live {
    fn start(refs: &[&FileD], texts: &[Vec<u8>]) -> Result<Option<Live>, Violation> {
        let model = match schema::load(refs) {
            Ok(m) => m,
            Err(_) => return Ok(None),
        };
        let list: Vec<String> = texts.iter().map(|t| disk_text(t)).collect();
        let load = || match sut("schema-load", || Context::parse(&list))? {
            Ok(c) => Ok(c),
            Err(e) => fail("load-rejected", format!("a valid set is rejected: {}\n{}", e, list.join("---\n"))),
        };
        let (ctx, twin) = (load()?, load()?);
        if ctx != twin {
            return fail("load-differs", "loading the same files twice gives different contexts".into());
        }
        let w = schema::world(&model);
        let bind = match sut("lookup", || Bind::new(&w, &ctx))? {
            Some(b) => b,
            None => return fail("loaded-differs", "a type of the files cannot be found by its name".into()),
        };
        let mut msgs = vec![];
        if !w.msgs.is_empty() {
            for _ in 0..range(1, 3) {
                let (ty, m, b) = draw_message(&w);
                drop(m);
                let want = wire::decode(&w, ty, &b).0;
                msgs.push((ty, b, want));
            }
        }
        Ok(Some(Live { w, ctx, twin, bind, msgs }))
    }

    fn same(&self, when: &str) -> R {
        if self.ctx != self.twin {
            return fail("context-in-use-changed", format!("{}: a context that was in use is no longer equal to its twin", when));
        }
        for (ty, b, want) in &self.msgs {
            let v = sut("decode", || self.ctx.decode(self.bind.msgs[*ty], b))?;
            let got = wire::from_pf(&v, &self.bind);
            if got != *want {
                return fail("context-in-use-changed", format!("{}: {}", when, diff(&got, want, &self.w.msgs[*ty].full)));
            }
        }
        Ok(())
    }
}

fn disk_text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn run() -> R {
    let mut cfg = Cfg::draw(false);
    cfg.files = cfg.files.min(4);
    let mut files = schema::files(cfg);
    if chance(1, 60) {
        bulk(&mut files);
    }
    let clean: Vec<Vec<u8>> = files.iter().map(|f| schema::render(f).into_bytes()).collect();
    for (i, t) in clean.iter().enumerate() {
        tr!("--- file {}\n{}", i, disk_text(t));
    }
    // The reader must agree with the writer.
    for (f, t) in files.iter().zip(&clean) {
        if let Some(p) = reader::parse(&disk_text(t)) {
            P::ReaderSure.hit();
            let (a, b) = (schema::load(&[&p]), schema::load(&[f]));
            assert!(format!("{:?}", a) == format!("{:?}", b), "reader and writer differ");
        }
        let l = reader::lex(&disk_text(t));
        assert!(reader::broken(&l).is_none(), "a clean file counts as broken");
        P::Reader.hit();
    }
    let refs: Vec<&FileD> = files.iter().collect();
    let live = Live::start(&refs, &clean)?;
    for _ in 0..pick(&[3, 1, 6]) {
        let when = sh().sim_us + 1 + below(1_000_000);
        sh().sim_us = when;
        seam::clock_set(when);
        round(&clean)?;
        if let Some(l) = &live {
            l.same("after a load of damaged files")?;
        }
        if chance(1, 3) {
            // The files are repaired and loaded again.
            P::ReloadAfterFail.hit();
            if let Some(l) = &live {
                let list: Vec<String> = clean.iter().map(|t| disk_text(t)).collect();
                match sut("schema-load", || Context::parse(&list))? {
                    Ok(c) if c == l.twin => {}
                    Ok(_) => return fail("reload-differs", format!("the repaired files load differently than before\n{}", list.join("---\n"))),
                    Err(e) => return fail("reload-differs", format!("the repaired files are rejected: {}\n{}", e, list.join("---\n"))),
                }
            }
        }
    }
    Ok(())
}

/// Makes a file large: enough to show work that grows faster than the input.
fn bulk(files: &mut [FileD]) {
    use schema::{Body, Fld, Item, Label, MsgD, FT};
    P::BigPayload.hit();
    let f = &mut files[0];
    let n = pick(&[300, 1000]);
    let fld = |k: usize, ty| Fld { name: format!("f{}", k), number: k as u64 + 1, label: Label::None, map: None, ty, opts: vec![] };
    if chance(1, 2) {
        for k in 0..n {
            f.items.push(Item::M(MsgD { name: format!("Bulk{}", k), body: vec![Body::F(fld(0, FT::Ref(format!("Bulk{}", n - 1 - k))))] }));
        }
    } else {
        let body = (0..n).map(|k| Body::F(fld(k, FT::S(pick(&wire::SCALARS))))).collect();
        f.items.push(Item::M(MsgD { name: "BulkFields".into(), body }));
    }
}

fn round(clean: &[Vec<u8>]) -> R {
    let mut set: Vec<Vec<u8>> = clean.to_vec();
    let mask = if chance(1, 2) { tape::u64_() | 1 << us(NKIND) } else { u64::MAX };
    for _ in 0..pick(&[1, 1, 2]) {
        let i = us(set.len());
        for _ in 0..pick(&[1, 1, 2, 4]) {
            let other = &clean[us(clean.len())];
            damage(&mut set[i], other, mask);
        }
    }
    if chance(1, 12) {
        if set.len() > 1 && chance(1, 2) {
            F::DLost.hit();
            set.remove(us(set.len()));
        } else {
            F::DDouble.hit();
            let t = set[us(set.len())].clone();
            set.push(t);
        }
    }
    let texts: Vec<String> = set.iter().map(|b| disk_text(b)).collect();
    for (i, t) in texts.iter().enumerate() {
        if !clean.contains(&set[i]) {
            tr!("  t={}us file {} as read:\n{}", sh().sim_us, i, t);
        }
    }
    sh().nontrivial += set.iter().any(|t| !clean.contains(t)) as u64;
    let size: usize = texts.iter().map(|t| t.len() + 64).sum();
    let mut show = texts.join("\n--- next file\n");
    cut(&mut show, 9000);
    let with = |v: Violation| Violation { kind: v.kind, msg: format!("{}\nfiles as read:\n{}", v.msg, show) };

    let t0 = seam::steps();
    seam::set_budget(2_000_000 + STEPS * size as u64);
    let r = on_stack(2 << 20, || sut("schema-load", || Context::parse(&texts)));
    let s = seam::steps() - t0;
    seam::usual_budget();
    if size > 600 {
        let rat = &mut sh().ratio;
        rat[0] = rat[0].max(s * 100 / size as u64);
    }
    let r = r.map_err(with)?;
    if let Err(e) = &r {
        sut("show", || shown(e)).map_err(with)?;
    }
    ev(90, size as u64, r.is_ok() as u64);
    tr!("    loading: {}", match &r { Ok(_) => "context".into(), Err(e) => format!("{}", e) });

    // Every file by itself.
    let mut bad_alone = None;
    for (i, t) in texts.iter().enumerate() {
        let a = on_stack(2 << 20, || sut("schema-load", || Context::parse(&[t.as_str()]))).map_err(with)?;
        if let Err(ParseError::SyntaxError { .. }) = a {
            bad_alone = Some(i);
        }
        if let Ok(c) = a {
            sound(&c, &texts[i..i + 1]).map_err(with)?;
        }
    }
    match (&r, bad_alone) {
        (Ok(_), Some(i)) => return fail("half-load", format!("file {} does not parse by itself but a set with it loads\nfiles as read:\n{}", i, show)),
        (Err(ParseError::SyntaxError { source }), None) => {
            return fail("half-load", format!("every file parses by itself but the set has a syntax error: {}\nfiles as read:\n{}", source, show))
        }
        _ => {}
    }
    if bad_alone.is_some() {
        P::SyntaxErr.hit();
    }
    if let Ok(ctx) = &r {
        P::DamagedOk.hit();
        for (i, t) in texts.iter().enumerate() {
            let l = reader::lex(t);
            if let Some(why) = reader::broken(&l) {
                return fail("half-load", format!("file {} is not complete ({}) but the set loads\nfiles as read:\n{}", i, why, show));
            }
            for (full, kind) in reader::must_define(&l) {
                let ok = sut("lookup", || match kind {
                    Kind::Svc => ctx.get_service(&full).is_some(),
                    Kind::Msg => ctx.get_message(&full).is_some(),
                    Kind::Enum => matches!(ctx.get_type(&full), Some(TypeInfo::Enum(_))),
                })?;
                if !ok {
                    return fail("half-load", format!("the set loads, but {:?} {} of file {} is not in the context\nfiles as read:\n{}", kind, full, i, show));
                }
            }
        }
        sound(ctx, &texts).map_err(with)?;
    }
    // Files whose meaning is beyond doubt.
    let parsed: Vec<Option<FileD>> = texts.iter().map(|t| reader::parse(t)).collect();
    if parsed.iter().all(|p| p.is_some()) {
        P::PlainDamage.hit();
        let fs: Vec<&FileD> = parsed.iter().flatten().collect();
        match (schema::load(&fs), &r) {
            (Ok(m), Ok(ctx)) => {
                if let Some(d) = sut("lookup", || schema::disagree(&m, ctx))? {
                    return fail("loaded-differs", format!("{}\nfiles as read:\n{}", d, show));
                }
            }
            (Ok(_), Err(e)) => return fail("load-rejected", format!("the files are valid but are rejected: {}\nfiles as read:\n{}", e, show)),
            (Err(bad), Ok(_)) => return fail("load-accepted-wrong", format!("the set loads though it is wrong: {:?}\nfiles as read:\n{}", bad, show)),
            (Err(bad), Err(e)) => {
                if !schema::error_fits(&bad, e) {
                    return fail("load-error-differs", format!("rejected with {:?} though what is wrong is {:?}\nfiles as read:\n{}", e, bad, show));
                }
            }
        }
    }
    if chance(1, 4) {
        read_error(&texts).map_err(with)?;
    }
    Ok(())
}

/// The listing fails part-way: the disk throws while files are being read.
fn read_error(texts: &[String]) -> R {
    F::DReadErr.hit();
    let at = range(0, texts.len());
    let mut k = 0;
    let mut asked = false;
    let it = std::iter::from_fn(|| {
        if k == at {
            asked = true;
            std::panic::panic_any("simulated read error");
        }
        k += 1;
        Some(&texts[k - 1])
    });
    let r = sut_may_panic(|| Context::parse(it));
    match r {
        Ok(Ok(_)) => fail("half-load", format!("the listing failed after {} files, but a context was loaded", at)),
        Ok(Err(_)) => Ok(()),
        Err(_) if asked => Ok(()),
        Err(p) => fail(&format!("panic:schema-load:{}", p.split(" | ").next().unwrap_or("")), format!("schema-load panicked at {}", p)),
    }
}

// ------------------------------------------------------------------ damage

const NKIND: usize = 12;
const STRAY: [&str; 40] = [
    ";", "}", "{", "\"", "/*", "*/", "//", "\\", "\0", "map<", "map<int32, A> m = 7;", "-", ".", "0", "08", "0x", "'", "(", ")", "[", "]", "=", ",",
    "option x = 1;", "package z;", "import \"q\";", "message M {}", "enum M {}", "service M {}", "oneof o { int32 q = 77; }", "reserved 1;",
    "repeated", "optional", "stream", "rpc R (A) returns (A);", "\u{feff}", " ", "é", "1.5", "syntax = \"proto3\";",
];
const LITERALS: [&str; 22] = [
    "0", "00", "-0", "08", "0x", "0xG", "0xFFFFFFFFFFFFFFFF", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
    "-9223372036854775809", "9223372036854775808", "99999999999999999999999999", "-1", "+1", "01777777777777777777777", "02000000000000000000000",
    "0x8000000000000000", "-0x8000000000000000", "1.5e400", ".5e-400", "- 5",
];

/// One storage fault on the bytes of one file.
pub fn damage(d: &mut Vec<u8>, other: &[u8], mask: u64) {
    let n = d.len();
    let kind = {
        // Faults that leave whole statements behind are the ones that can load.
        let mut k = if chance(1, 2) { pick(&[9, 10, 11, 11]) } else { us(NKIND) };
        while mask >> k & 1 == 0 {
            k = (k + 1) % NKIND;
        }
        k
    };
    let block = pick(&[16, 4, 64, 512]);
    let range_of = |n: usize, b: usize| {
        // The first block is hit more often: nothing after it may be read as if it were whole.
        let s = if chance(1, 5) { 0 } else { us(n.max(1)) / b * b };
        (s.min(n), (s + b).min(n))
    };
    // Block boundaries fall anywhere, and sometimes just between two statements.
    let between = |d: &[u8]| -> usize {
        let ls = lines(d);
        ls[us(ls.len())].1
    };
    ev(91, kind as u64, n as u64);
    if n == 0 {
        d.extend_from_slice(other);
        return;
    }
    match kind {
        0 => {
            F::DTrunc.hit();
            let at = match us(4) {
                0 => 0,
                1 => between(d),
                _ => us(n),
            };
            d.truncate(at);
        }
        1 => {
            // The new prefix got to the disk, the rest is what was there before.
            F::DTorn.hit();
            let k = us(n) / block * block;
            let tail = if k < other.len() { other[k..].to_vec() } else { vec![] };
            d.truncate(k);
            d.extend(tail);
        }
        2 => {
            F::DZero.hit();
            let (mut a, mut b) = range_of(n, block);
            let with = pick(&[0, 0xff, b' ']);
            match us(6) {
                // The tail never got to the disk.
                0 => (a, b) = (us(n), n),
                1 => (a, b) = (between(d), n),
                2 => {
                    a = between(d);
                    b = between(d).max(a);
                }
                // The file was extended, the new blocks were not written.
                3 => {
                    a = n;
                    b = n + pick(&[1, 3, 16, 512]);
                    d.resize(b, 0);
                }
                _ => {}
            }
            d[a..b].fill(with);
        }
        3 => {
            F::DFlip.hit();
            for _ in 0..pick(&[1, 2, 5]) {
                d[us(n)] ^= 1 << us(8);
            }
        }
        4 => {
            F::DSwap.hit();
            let (a, b) = range_of(n, block);
            let (c, e) = range_of(n, block);
            if b - a == e - c {
                for k in 0..b - a {
                    d.swap(a + k, c + k);
                }
            }
        }
        5 => {
            F::DStale.hit();
            let (a, b) = range_of(n, block);
            let (c, e) = range_of(other.len(), block);
            d.splice(a..b, other[c..e].iter().cloned());
        }
        6 => {
            F::DDup.hit();
            let (a, b) = range_of(n, block);
            let t = d[a..b].to_vec();
            let at = us(n + 1);
            d.splice(at..at, t);
        }
        7 => {
            F::DDelete.hit();
            let a = us(n);
            let b = (a + pick(&[1, 1, 2, 8, 64])).min(n);
            d.drain(a..b);
        }
        8 => {
            F::DInsert.hit();
            let at = match us(8) {
                0 => 0,
                1 => n,
                2 => between(d),
                _ => us(n + 1),
            };
            let s = if chance(1, 10) { tape::fill(range(1, 40)) } else { pick(&STRAY).as_bytes().to_vec() };
            let times = if chance(1, 30) { pick(&[20, 150]) } else { 1 };
            for _ in 0..times {
                d.splice(at..at, s.iter().cloned());
            }
        }
        9 => {
            // Digits become another literal.
            F::DLiteral.hit();
            let runs = words(d, |c| c.is_ascii_digit());
            if !runs.is_empty() {
                let (a, b) = runs[us(runs.len())];
                d.splice(a..b, pick(&LITERALS).bytes());
            }
        }
        10 => {
            F::DKeyword.hit();
            let mine = words(d, |c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.');
            let theirs = words(other, |c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.');
            if !mine.is_empty() && !theirs.is_empty() {
                let (a, b) = mine[us(mine.len())];
                let (c, e) = theirs[us(theirs.len())];
                d.splice(a..b, other[c..e].iter().cloned());
            }
        }
        _ => {
            // One whole line is lost, or comes twice, or two change places.
            let ls = lines(d);
            let (a, b) = ls[us(ls.len())];
            let t = d[a..b].to_vec();
            match us(3) {
                0 => {
                    F::DDelete.hit();
                    d.drain(a..b);
                }
                1 => {
                    F::DDup.hit();
                    let at = ls[us(ls.len())].0;
                    d.splice(at..at, t);
                }
                _ => {
                    F::DSwap.hit();
                    let at = ls[us(ls.len())].0;
                    d.drain(a..b);
                    let at = if at > a { at - t.len() } else { at };
                    d.splice(at..at, t);
                }
            }
        }
    }
}

fn words(d: &[u8], f: impl Fn(u8) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() {
        if f(d[i]) {
            let a = i;
            while i < d.len() && f(d[i]) {
                i += 1;
            }
            v.push((a, i));
        } else {
            i += 1;
        }
    }
    v
}

fn lines(d: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut a = 0;
    for (i, c) in d.iter().enumerate() {
        if *c == b'\n' {
            v.push((a, i + 1));
            a = i + 1;
        }
    }
    if a < d.len() || v.is_empty() {
        v.push((a, d.len()));
    }
    v
}

// ------------------------------------------------------------------ internal consistency

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !$c { return fail("inconsistent-context", format!($($a)*)); } };
}

/// Every reference resolves and every lookup agrees, for everything that can be found under
/// any name the texts could give.
pub fn sound(ctx: &Context, texts: &[String]) -> R {
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut scopes: BTreeSet<String> = BTreeSet::new();
    scopes.insert(String::new());
    for t in texts {
        let l = reader::lex(t);
        let mut i = 0;
        while i < l.toks.len() {
            if let reader::T::W(w) = &l.toks[i] {
                names.insert(w.clone());
                names.insert(schema::map_entry(w));
                // Dotted names are possible packages.
                let mut p = w.clone();
                let mut j = i + 1;
                while let (Some(reader::T::C('.')), Some(reader::T::W(x))) = (l.toks.get(j), l.toks.get(j + 1)) {
                    scopes.insert(p.clone());
                    p.push('.');
                    p.push_str(x);
                    j += 2;
                }
                scopes.insert(p);
            }
            i += 1;
        }
    }
    if names.len() * scopes.len() > 40_000 {
        // Too many: only what the statements themselves say.
        scopes = scopes.into_iter().take(1 + 40_000 / names.len()).collect();
    }
    let mut todo: Vec<String> = scopes.iter().cloned().collect();
    let mut seen: BTreeSet<String> = scopes;
    while let Some(s) = todo.pop() {
        for n in &names {
            let full = if s.is_empty() { n.clone() } else { format!("{}.{}", s, n) };
            let found = sut("lookup", || one(ctx, &full))??;
            if found && seen.len() < 2000 && seen.insert(full.clone()) {
                todo.push(full);
            }
        }
    }
    Ok(())
}

fn parent_of(t: &TypeInfo) -> TypeParent {
    t.parent()
}

/// Checks what is found under one name; true if that is a message.
fn one(ctx: &Context, full: &str) -> Result<bool, Violation> {
    if let Some(s) = ctx.get_service(full) {
        want!(s.full_name == full, "get_service({:?}) gives the service {:?}", full, s.full_name);
        let _ = ctx.resolve_package(s.parent);
        for r in &s.rpcs {
            want!(s.rpc_by_name(&r.name).map_or(false, |x| x.name == r.name), "rpc {} of {} is not found by its name", r.name, full);
            for a in [&r.input, &r.output] {
                let m = ctx.resolve_message(a.message);
                want!(m.self_ref == a.message, "an argument of rpc {} of {} denotes a message with another reference", r.name, full);
            }
        }
    }
    let m = ctx.get_message(full);
    let t = match ctx.get_type(full) {
        None => {
            want!(m.is_none(), "{:?} is found as a message but not as a type", full);
            return Ok(false);
        }
        Some(t) => t,
    };
    want!(t.full_name() == full, "get_type({:?}) gives {:?}", full, t.full_name());
    want!(full == t.name() || full.ends_with(&format!(".{}", t.name())), "{:?} has the name {:?}", full, t.name());
    let me = match t {
        TypeInfo::Message(x) => {
            want!(m.map_or(false, |m| std::ptr::eq(m, x)), "get_message({:?}) and get_type differ", full);
            want!(std::ptr::eq(ctx.resolve_message(x.self_ref), x), "the reference of {:?} denotes another type", full);
            TypeRef::Message(x.self_ref)
        }
        TypeInfo::Enum(e) => {
            want!(m.is_none(), "the enum {:?} is found as a message", full);
            want!(std::ptr::eq(ctx.resolve_enum(e.self_ref), e), "the reference of {:?} denotes another type", full);
            TypeRef::Enum(e.self_ref)
        }
    };
    match parent_of(t) {
        TypeParent::Package(p) => {
            let _ = ctx.resolve_package(p);
        }
        TypeParent::Message(p) => {
            let p = ctx.resolve_message(p);
            want!(format!("{}.{}", p.full_name, t.name()) == full, "{:?} has the parent {:?}", full, p.full_name);
            want!(p.inner_types.iter().filter(|x| **x == me).count() == 1, "{:?} does not list its inner type {:?} once", p.full_name, full);
        }
    }
    let x = match t {
        TypeInfo::Message(x) => x,
        _ => return Ok(false),
    };
    for i in &x.inner_types {
        let (n, p) = match i {
            TypeRef::Message(r) => (&ctx.resolve_message(*r).full_name, ctx.resolve_message(*r).parent),
            TypeRef::Enum(r) => (&ctx.resolve_enum(*r).full_name, ctx.resolve_enum(*r).parent),
        };
        want!(p == TypeParent::Message(x.self_ref), "{:?} lists the inner type {:?} which has another parent", full, n);
    }
    for f in x.iter_fields() {
        want!(x.get_field(f.number).map_or(false, |g| std::ptr::eq(f, g)), "field {} of {:?} is not found by its number", f.name, full);
        want!(x.get_field_by_name(&f.name).map_or(false, |g| g.name == f.name), "field {} of {:?} is not found by its name", f.name, full);
        match f.field_type {
            protofish::context::ValueType::Message(r) => {
                want!(ctx.resolve_message(r).self_ref == r, "the type of field {} of {:?} has another reference", f.name, full)
            }
            protofish::context::ValueType::Enum(r) => {
                want!(ctx.resolve_enum(r).self_ref == r, "the type of field {} of {:?} has another reference", f.name, full)
            }
            _ => {}
        }
        if let Some(o) = f.oneof {
            want!(x.get_oneof(o).map_or(false, |o| o.fields.contains(&f.number)), "field {} of {:?} is not listed by its oneof", f.name, full);
        }
    }
    for o in &x.oneofs {
        want!(x.get_oneof(o.self_ref).map_or(false, |p| std::ptr::eq(o, p)), "the reference of oneof {} of {:?} denotes another", o.name, full);
        for n in &o.fields {
            want!(x.get_field(*n).map_or(false, |f| f.oneof == Some(o.self_ref)), "oneof {} of {:?} lists field {} which is not part of it", o.name, full, n);
        }
    }
    Ok(true)
}
