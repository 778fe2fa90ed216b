//! Modifications apply exactly or leave no trace.
//!
//! Two contexts start equal. Every operation goes to the first; the second (`shadow`) and the
//! twins of the drafts are only ever given operations that were accepted.
use super::*;
use crate::grow::{self, Farm, No, Op};
use crate::schema::{self, Cfg, EnumI, FileD, Model, MsgI};
use crate::snap;
use protofish::context::*;

pub enum Start {
    Empty,
    Parsed(Vec<String>),
}

struct MsgDraft {
    model: MsgI,
    real: MessageInfo,
    twin: MessageInfo,
    own: Vec<OneofRef>,
    log: Vec<Op>,
    refused: bool,
}

struct EnumDraft {
    model: EnumI,
    real: EnumInfo,
    twin: EnumInfo,
    log: Vec<Op>,
}

enum Draft {
    M(MsgDraft),
    E(EnumDraft),
}

struct S {
    ctx: Context,
    shadow: Context,
    model: Model,
    /// Known package references, with the index of the package in the model.
    pkgs: Vec<(PackageRef, usize)>,
    start: Start,
    farm: Farm,
    drafts: Vec<(Draft, TypeParent)>,
    /// Accepted operations on the context, for a restart.
    log: Vec<Ins>,
}

enum Ins {
    Pkg(Option<String>),
    Msg(String, TypeParent, Vec<Op>),
    Enum(String, TypeParent, Vec<Op>),
}

pub fn start() -> Result<(Context, Context, Model, Start), Violation> {
    if chance(1, 2) {
        return Ok((Context::new(), Context::new(), Model::default(), Start::Empty));
    }
    let files = schema::files(Cfg::draw(false));
    let refs: Vec<&FileD> = files.iter().collect();
    let model = match schema::load(&refs) {
        Ok(m) => m,
        Err(_) => return Ok((Context::new(), Context::new(), Model::default(), Start::Empty)),
    };
    let texts: Vec<String> = files.iter().map(schema::render).collect();
    for t in &texts {
        tr!("---\n{}", t);
    }
    let load = || match sut("schema-load", || Context::parse(&texts))? {
        Ok(c) => Ok(c),
        Err(e) => fail("schema-load", format!("valid schema rejected: {}\n{}", e, texts.join("---\n"))),
    };
    let a = load()?;
    seam::set_hash_seed(tape::u64_());
    let b = load()?;
    Ok((a, b, model, Start::Parsed(texts)))
}

fn refit(ins: &Ins, ctx: &mut Context) -> Result<String, Violation> {
    sut("replay", || match ins {
        Ins::Pkg(n) => format!("{:?}", ctx.insert_package(Package::new(n.clone()))),
        Ins::Msg(n, p, ops) => {
            let mut m = MessageInfo::new(n.clone(), *p);
            for o in ops {
                let _ = grow::apply_msg(&mut m, o);
            }
            format!("{:?}", ctx.insert_message(m))
        }
        Ins::Enum(n, p, ops) => {
            let mut e = EnumInfo::new(n.clone(), *p);
            for o in ops {
                let _ = grow::apply_enum(&mut e, o);
            }
            format!("{:?}", ctx.insert_enum(e))
        }
    })
}

pub fn run() -> R {
    if chance(1, 6) {
        return listing();
    }
    let (ctx, shadow, model, start) = start()?;
    let pkgs = known_packages(&ctx, &model);
    let mut s = S { ctx, shadow, model, pkgs, start, farm: sut("schema-build", Farm::new)?, drafts: vec![], log: vec![] };
    if s.pkgs.is_empty() && chance(5, 6) {
        package(&mut s)?;
    }
    let steps = pick(&[30, 12, 60, 100]);
    let many = if chance(1, 40) { us(steps) } else { steps };
    for k in 0..steps {
        if k == many {
            multitude(&mut s)?;
        }
        step(&mut s)?;
    }
    if let Some(d) = sut("lookup", || schema::disagree(&s.model, &s.ctx))? {
        return fail("modification-effect", format!("at the end: {}", d));
    }
    restart(&mut s)
}

pub fn known_packages(ctx: &Context, model: &Model) -> Vec<(PackageRef, usize)> {
    let mut v: Vec<(PackageRef, usize)> = vec![];
    let tops = model.msgs.iter().filter(|(_, m)| m.parent.is_none()).map(|(f, m)| (f, m.file));
    let tops = tops.chain(model.enums.iter().filter(|(_, e)| e.parent.is_none()).map(|(f, e)| (f, e.file)));
    for (full, file) in tops {
        if let Some(TypeParent::Package(p)) = ctx.get_type(full).map(|t| t.parent()) {
            if !v.iter().any(|x| x.0 == p) {
                v.push((p, file));
            }
        }
    }
    v
}

/// The accepted operations alone, from the start, give the same context.
fn restart(s: &mut S) -> R {
    F::Restart.hit();
    seam::set_hash_seed(tape::u64_());
    let mut c = match &s.start {
        Start::Empty => Context::new(),
        Start::Parsed(t) => match sut("schema-load", || Context::parse(t))? {
            Ok(c) => c,
            Err(e) => return fail("schema-load", format!("valid schema rejected: {}", e)),
        },
    };
    for i in &s.log {
        refit(i, &mut c)?;
    }
    if c != s.ctx {
        return fail("refused-leaves-trace", "the accepted operations alone give another context than they and the refused ones together".into());
    }
    Ok(())
}

fn step(s: &mut S) -> R {
    let dt = 1 + below(1_000_000);
    sh().sim_us += dt;
    seam::clock_add(dt);
    match weighted(&[2, 4, 2, 10, 5, 1]) {
        0 => package(s),
        1 | 2 if s.drafts.len() < 5 => new_draft(s),
        3 => draft_op(s),
        4 => insert(s),
        5 => {
            // Reading in between changes nothing.
            let a = sut("lookup", || snap::context(&s.ctx, &s.model))?;
            let b = sut("lookup", || snap::context(&s.shadow, &s.model))?;
            if a != b {
                return fail("refused-leaves-trace", format!("lookups show {}", snap::differ(&b, &a)));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn untouched(s: &S, what: &str) -> R {
    if !sut("compare", || s.ctx == s.shadow)? {
        let a = sut("lookup", || snap::context(&s.ctx, &s.model))?;
        let b = sut("lookup", || snap::context(&s.shadow, &s.model))?;
        return fail("refused-leaves-trace", format!("after {} the context is not what it was: {}", what, snap::differ(&b, &a)));
    }
    Ok(())
}

fn package(s: &mut S) -> R {
    let name = grow::package_name();
    // Every file of a loaded set has a package.
    let taken = s.model.pkgs.contains(&name);
    ev(70, taken as u64, 0);
    tr!("insert_package({:?})", name);
    let r = sut("insert_package", || s.ctx.insert_package(Package::new(name.clone())))?;
    match r {
        Ok(p) => {
            P::OpOk.hit();
            if taken {
                return fail("conflict-accepted", format!("package {:?} was accepted twice", name));
            }
            if s.pkgs.iter().any(|x| x.0 == p) {
                return fail("modification-effect", format!("the new package {:?} has the reference {:?} of another", name, p));
            }
            if sut("compare", || s.ctx == s.shadow)? {
                return fail("modification-effect", format!("accepting package {:?} changed nothing", name));
            }
            let q = sut("insert_package", || s.shadow.insert_package(Package::new(name.clone())))?;
            if q != Ok(p) || !sut("compare", || s.ctx == s.shadow)? {
                return fail("refused-leaves-trace", format!("package {:?}: {:?} where refused operations came before, {:?} where not", name, p, q));
            }
            sut("resolve_package", || {
                let _ = s.ctx.resolve_package(p);
            })?;
            s.model.pkgs.push(name.clone());
            s.pkgs.push((p, s.model.pkgs.len() - 1));
            s.log.push(Ins::Pkg(name));
        }
        Err(p) => {
            P::OpRej.hit();
            F::Conflict.hit();
            if !taken {
                return fail("valid-refused", format!("package {:?} was refused though there is none", name));
            }
            if sut_may_panic(|| s.ctx.resolve_package(p) == s.ctx.resolve_package(p)) != Ok(true) {
                return fail("wrong-error", format!("the conflict about package {:?} names {:?}, which does not exist", name, p));
            }
            let mut known = None;
            for (q, k) in &s.pkgs {
                if s.model.pkgs[*k] == name {
                    known = Some(*q);
                } else if *q == p {
                    return fail("wrong-error", format!("the conflict about package {:?} names the package {:?}", name, s.model.pkgs[*k]));
                }
            }
            match known {
                Some(q) if q != p && matches!(s.start, Start::Empty) => return fail("wrong-error", format!("the conflict about package {:?} names {:?}, not {:?}", name, p, q)),
                None => {
                    let k = s.model.pkgs.iter().position(|x| *x == name).unwrap();
                    s.model.pkgs.push(s.model.pkgs[k].clone());
                    s.pkgs.push((p, s.model.pkgs.len() - 1));
                }
                _ => {}
            }
            untouched(s, "a refused package")?;
        }
    }
    Ok(())
}

fn draw_parent(s: &S) -> TypeParent {
    let msgs: Vec<MessageRef> = s.model.msgs.keys().filter_map(|k| s.ctx.get_message(k)).map(|m| m.self_ref).collect();
    match weighted(&[8, 5, 1, 1]) {
        0 if !s.pkgs.is_empty() => TypeParent::Package(s.pkgs[us(s.pkgs.len())].0),
        1 if !msgs.is_empty() => TypeParent::Message(msgs[us(msgs.len())]),
        2 => TypeParent::Package(s.farm.pkgs[(s.pkgs.len() + us(6)).min(grow::FARM - 1)]),
        _ => {
            // Often one that is not a message here but an enum, or just outside.
            let n = s.model.msgs.len() + s.model.enums.len();
            TypeParent::Message(s.farm.msgs[us((n + 3).min(grow::FARM))])
        }
    }
}

fn new_draft(s: &mut S) -> R {
    let parent = draw_parent(s);
    let name = grow::type_name();
    let d = if chance(2, 3) {
        let (real, twin) = sut("new", || (MessageInfo::new(name.clone(), parent), MessageInfo::new(name.clone(), parent)))?;
        Draft::M(MsgDraft { model: MsgI { name, ..Default::default() }, real, twin, own: vec![], log: vec![], refused: false })
    } else {
        let (real, twin) = sut("new", || (EnumInfo::new(name.clone(), parent), EnumInfo::new(name.clone(), parent)))?;
        Draft::E(EnumDraft { model: EnumI { name, ..Default::default() }, real, twin, log: vec![] })
    };
    s.drafts.push((d, parent));
    Ok(())
}

/// Hundreds of additions of one kind, all of them in order.
fn multitude(s: &mut S) -> R {
    P::Many.hit();
    let n = pick(&[300, 270, 90, 600]);
    let dt = n as u64 * 1000;
    sh().sim_us += dt;
    seam::clock_add(dt);
    tr!("{} additions", n);
    match us(5) {
        0 => {
            for i in 0..n {
                let name = Some(format!("many.p{}", i));
                if s.model.pkgs.contains(&name) {
                    continue;
                }
                let (a, b) = sut("insert_package", || (s.ctx.insert_package(Package::new(name.clone())), s.shadow.insert_package(Package::new(name.clone()))))?;
                match (a, b) {
                    (Ok(p), Ok(q)) if p == q && !s.pkgs.iter().any(|x| x.0 == p) => {
                        s.model.pkgs.push(name.clone());
                        s.pkgs.push((p, s.model.pkgs.len() - 1));
                        s.log.push(Ins::Pkg(name));
                    }
                    (a, b) => return fail("modification-effect", format!("inserting package {:?}, one of many, gives {:?} and {:?}", name, a, b)),
                }
            }
        }
        1 => {
            // Types, under a package or a message that is there.
            let top = s.model.msgs.keys().filter_map(|k| s.ctx.get_message(k).map(|m| (m.self_ref, k.clone()))).collect::<Vec<_>>();
            let (parent, pm, file, scope) = match (chance(1, 2), s.pkgs.is_empty(), top.is_empty()) {
                (true, _, false) | (_, true, false) => {
                    let (r, k) = top[us(top.len())].clone();
                    (TypeParent::Message(r), Some(k.clone()), s.model.msgs[&k].file, Some(k))
                }
                (_, false, _) => {
                    let (p, k) = s.pkgs[us(s.pkgs.len())];
                    (TypeParent::Package(p), None, k, s.model.pkgs[k].clone())
                }
                _ => return Ok(()),
            };
            for i in 0..n {
                let name = format!("Many{}", i);
                let full = scope.as_ref().map_or(name.clone(), |x| format!("{}.{}", x, name));
                if s.model.msgs.contains_key(&full) || s.model.enums.contains_key(&full) {
                    continue;
                }
                let is_msg = chance(2, 3);
                let ins = if is_msg { Ins::Msg(name.clone(), parent, vec![]) } else { Ins::Enum(name.clone(), parent, vec![]) };
                let (a, b) = (refit(&ins, &mut s.ctx)?, refit(&ins, &mut s.shadow)?);
                if a != b || !a.starts_with("Ok") {
                    return fail("modification-effect", format!("inserting {}, one of many, gives {} and {}", full, a, b));
                }
                if is_msg {
                    s.model.msgs.insert(full.clone(), MsgI { name, file, parent: pm.clone(), ..Default::default() });
                } else {
                    s.model.enums.insert(full.clone(), EnumI { name, file, parent: pm.clone(), ..Default::default() });
                }
                if let Some(p) = &pm {
                    s.model.msgs.get_mut(p).unwrap().inner.insert(full);
                }
                s.log.push(ins);
            }
        }
        k => {
            if s.drafts.is_empty() {
                new_draft(s)?;
            }
            let at = us(s.drafts.len());
            let S { drafts, ctx, model, .. } = s;
            let kind = k - 2 + 3 * us(2);
            match &mut drafts[at].0 {
                Draft::M(d) => {
                    for i in 0..n {
                        let name = format!("m{}", i);
                        // Fields, oneofs, or each oneof with a field in it.
                        let oneof = if kind % 3 == 2 { d.own.last().map(|r| (*r, Some(d.own.len() - 1))) } else { None };
                        let (ty, vt) = grow::field_type(model, ctx);
                        let f = Op::Field(grow::FieldOp { name: name.clone(), number: 5000 + i as u64, ty, vt, mult: crate::wire::Mult::Single, opts: vec![], oneof });
                        let o = Op::Oneof(name, vec![], vec![]);
                        for op in match kind % 3 { 0 => vec![f], 1 => vec![o], _ => vec![o, f] } {
                            raw_op(d, op)?;
                        }
                    }
                    draft_same(d)?;
                }
                Draft::E(d) => {
                    for i in 0..n {
                        let op = Op::Value(format!("m{}", i), if kind < 3 { 5000 + i as i64 } else { -5000 - i as i64 }, vec![]);
                        let no = grow::model_enum(&mut d.model, &op);
                        let (r, t) = sut("modify", || (grow::apply_enum(&mut d.real, &op), if no.is_empty() { grow::apply_enum(&mut d.twin, &op) } else { Ok(()) }))?;
                        judge(&op, &no, &r)?;
                        if t.is_err() {
                            return fail("refused-leaves-trace", format!("{:?} gives {:?} where refused operations came before, {:?} where not", op, r, t));
                        }
                        if no.is_empty() {
                            d.log.push(op);
                        }
                    }
                    if let Some(e) = sut("lookup", || grow::draft_enum_differs(&d.model, &d.real))? {
                        return fail("modification-effect", format!("after {} additions: {}", n, e));
                    }
                }
            }
        }
    }
    untouched(s, "many additions")?;
    if let Some(d) = sut("lookup", || schema::disagree(&s.model, &s.ctx))? {
        return fail("modification-effect", format!("after {} additions: {}", n, d));
    }
    Ok(())
}

fn draft_same(d: &MsgDraft) -> R {
    if !sut("compare", || d.real == d.twin)? {
        return fail("refused-leaves-trace", format!("after many additions the message differs from one that saw only accepted operations:\n{}\nand\n{}", snap::message(&d.real), snap::message(&d.twin)));
    }
    if let Some(e) = sut("lookup", || grow::draft_differs(&d.model, &d.real))? {
        return fail("modification-effect", format!("after many additions: {}", e));
    }
    Ok(())
}

fn draft_op(s: &mut S) -> R {
    if s.drafts.is_empty() {
        return Ok(());
    }
    let k = us(s.drafts.len());
    for _ in 0..range(1, 5) {
        let S { drafts, ctx, model, farm, .. } = s;
        match &mut drafts[k].0 {
            Draft::M(d) => {
                let op = grow::draw_op(&d.model, &d.real, &d.own, model, ctx, farm);
                msg_op(d, op)?
            }
            Draft::E(d) => {
                let op = grow::draw_value();
                enum_op(d, op)?
            }
        }
    }
    Ok(())
}

fn judge<T>(op: &Op, no: &[No], r: &Result<T, No>) -> R {
    ev(71, no.len() as u64, r.is_ok() as u64);
    match r {
        Ok(_) => {
            P::OpOk.hit();
            if !no.is_empty() {
                return fail("conflict-accepted", format!("{:?} was accepted in spite of {:?}", op, no));
            }
        }
        Err(e) => {
            P::OpRej.hit();
            F::Conflict.hit();
            sh().nontrivial += 1;
            if no.is_empty() {
                return fail("valid-refused", format!("{:?} was refused with {:?}", op, e));
            }
            if !no.contains(e) {
                return fail("wrong-error", format!("{:?} was refused with {:?} instead of {:?}", op, e, no));
            }
        }
    }
    Ok(())
}

/// Does it to the draft, its twin and its model; true if accepted.
fn raw_op(d: &mut MsgDraft, op: Op) -> Result<bool, Violation> {
    tr!("draft {}: {:?}", d.model.name, op);
    let no = grow::model_msg(&mut d.model, &op);
    let r = sut("modify", || grow::apply_msg(&mut d.real, &op))?;
    judge(&op, &no, &r)?;
    if let Ok(o) = &r {
        let t = sut("modify", || grow::apply_msg(&mut d.twin, &op))?;
        if t != r {
            return fail("refused-leaves-trace", format!("{:?} gives {:?} where refused operations came before, {:?} where not", op, r, t));
        }
        if let Some(o) = o {
            if d.own.contains(o) {
                return fail("modification-effect", format!("{:?} gives the reference {:?} of another oneof", op, o));
            }
            d.own.push(*o);
            match sut("lookup", || d.real.get_oneof(*o).map(|x| x.name.clone()))? {
                Some(n) if n == d.model.oneofs.last().unwrap().0 => {}
                n => return fail("modification-effect", format!("{:?}: the reference denotes {:?}", op, n)),
            }
        }
        d.log.push(op.clone());
    } else {
        d.refused = true;
    }
    Ok(r.is_ok())
}

fn msg_op(d: &mut MsgDraft, op: Op) -> R {
    let ok = raw_op(d, op.clone())?;
    if !sut("compare", || d.real == d.twin)? {
        return fail("refused-leaves-trace", format!("after {:?} ({}) the message differs from one that saw only accepted operations:\n{}\nand\n{}", op,
            if ok { "accepted" } else { "refused" }, snap::message(&d.real), snap::message(&d.twin)));
    }
    if let Some(e) = sut("lookup", || grow::draft_differs(&d.model, &d.real))? {
        return fail("modification-effect", format!("after {:?} ({}): {}", op, if ok { "accepted" } else { "refused" }, e));
    }
    Ok(())
}

fn enum_op(d: &mut EnumDraft, op: Op) -> R {
    tr!("draft enum {}: {:?}", d.model.name, op);
    let no = grow::model_enum(&mut d.model, &op);
    let r = sut("modify", || grow::apply_enum(&mut d.real, &op))?;
    judge(&op, &no, &r)?;
    if r.is_ok() {
        let t = sut("modify", || grow::apply_enum(&mut d.twin, &op))?;
        if t != r {
            return fail("refused-leaves-trace", format!("{:?} gives {:?} where refused operations came before, {:?} where not", op, r, t));
        }
        d.log.push(op.clone());
    }
    if !sut("compare", || d.real == d.twin)? {
        return fail("refused-leaves-trace", format!("after {:?} the enum differs from one that saw only accepted operations: {:?} and {:?}", op, d.real, d.twin));
    }
    if let Some(e) = sut("lookup", || grow::draft_enum_differs(&d.model, &d.real))? {
        return fail("modification-effect", format!("after {:?}: {}", op, e));
    }
    Ok(())
}

/// Inserts a draft; some are inserted again later under the same or another parent.
fn insert(s: &mut S) -> R {
    if s.drafts.is_empty() {
        return Ok(());
    }
    let k = us(s.drafts.len());
    let (mut d, mut parent) = s.drafts.swap_remove(k);
    if chance(1, 5) {
        // What is public is set by hand; what the insertion sets does not matter before.
        if chance(1, 2) {
            parent = draw_parent(s);
        }
        let name = if chance(1, 2) { Some(grow::type_name()) } else { None };
        let full = pick(&["", "junk", "a.A"]).to_string();
        tr!("  by hand: parent {:?}, name {:?}, full name {:?}", parent, name, full);
        let junk = s.farm.msgs[us(6)];
        match &mut d {
            Draft::M(d) => {
                if let Some(n) = name {
                    d.model.name = n.clone();
                    d.real.name = n;
                }
                d.real.parent = parent;
                d.real.full_name = full;
                d.real.self_ref = junk;
            }
            Draft::E(d) => {
                if let Some(n) = name {
                    d.model.name = n.clone();
                    d.real.name = n;
                }
                d.real.parent = parent;
                d.real.full_name = full;
            }
        }
    }
    // Where it belongs.
    let (name, is_msg) = match &d {
        Draft::M(d) => (d.model.name.clone(), true),
        Draft::E(d) => (d.model.name.clone(), false),
    };
    let mut pm: Option<String> = None;
    let mut file = 0;
    let scope = match parent {
        TypeParent::Package(p) => match s.pkgs.iter().find(|x| x.0 == p) {
            Some((_, f)) => {
                file = *f;
                Some(s.model.pkgs[*f].clone())
            }
            None if sut_may_panic(|| s.ctx.resolve_package(p) == s.ctx.resolve_package(p)).is_ok() => return Ok(()),
            None => None,
        },
        TypeParent::Message(m) => match sut_may_panic(|| s.ctx.resolve_message(m).full_name.clone()) {
            Ok(f) => {
                match s.model.msgs.get(&f) {
                    Some(i) => file = i.file,
                    None => return fail("modification-effect", format!("a reference denotes {}, which nobody inserted", f)),
                }
                pm = Some(f.clone());
                Some(Some(f))
            }
            Err(_) => None,
        },
    };
    let full = match &scope {
        None => None,
        Some(None) => Some(name.clone()),
        Some(Some(x)) => Some(format!("{}.{}", x, name)),
    };
    if let Some(f) = &full {
        if s.model.svcs.contains_key(f) {
            return Ok(());
        }
    }
    let original = full.as_ref().and_then(|f| s.ctx.get_type(f)).map(|t| match t {
        TypeInfo::Message(m) => TypeRef::Message(m.self_ref),
        TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref),
    });
    let taken = full.as_ref().map_or(false, |f| s.model.msgs.contains_key(f) || s.model.enums.contains_key(f));
    tr!("insert {} {:?} under {:?} -> {:?}{}", if is_msg { "message" } else { "enum" }, name, parent, full, if taken { " (taken)" } else { "" });
    ev(72, taken as u64, full.is_some() as u64);
    let (log, dm, de, r) = match d {
        Draft::M(d) => {
            let (ctx, real) = (&mut s.ctx, d.real);
            (d.log, Some(d.model), None, sut_may_panic(move || ctx.insert_message(real).map(TypeRef::Message)))
        }
        Draft::E(d) => {
            let (ctx, real) = (&mut s.ctx, d.real);
            (d.log, None, Some(d.model), sut_may_panic(move || ctx.insert_enum(real).map(TypeRef::Enum)))
        }
    };
    let full = match full {
        Some(f) => f,
        None => {
            F::PanicOp.hit();
            sh().nontrivial += 1;
            return match r {
                Ok(Ok(_)) => fail("conflict-accepted", format!("{:?} was inserted under {:?}, which does not exist here", name, parent)),
                Ok(Err(_)) => untouched(s, "a refused insertion under a parent that does not exist"),
                Err(_) => {
                    P::OpPanic.hit();
                    untouched(s, "an insertion that panicked")
                }
            };
        }
    };
    match r {
        Err(p) => fail("panic:insert", format!("inserting {} panicked at {}", full, p)),
        Ok(Err(e)) => {
            P::OpRej.hit();
            F::Conflict.hit();
            sh().nontrivial += 1;
            if !taken {
                return fail("valid-refused", format!("inserting {} was refused: {:?}", full, e));
            }
            match e {
                InsertError::TypeExists { original: o } if Some(o) == original => {}
                e => return fail("wrong-error", format!("inserting {} was refused with {:?} instead of naming {:?}", full, e, original)),
            }
            untouched(s, &format!("the refused insertion of {}", full))
        }
        Ok(Ok(new)) => {
            P::OpOk.hit();
            if taken {
                return fail("conflict-accepted", format!("{} was accepted twice", full));
            }
            accepted(s, &full, parent, pm.as_deref(), new, is_msg)?;
            // The model, and the same operation where nothing was ever refused.
            if let Some(p) = &pm {
                s.model.msgs.get_mut(p).unwrap().inner.insert(full.clone());
            }
            if let Some(mut m) = dm {
                m.parent = pm.clone();
                m.file = file;
                s.model.msgs.insert(full.clone(), m);
            }
            if let Some(mut e) = de {
                e.parent = pm;
                e.file = file;
                s.model.enums.insert(full.clone(), e);
            }
            let ins = if is_msg { Ins::Msg(name, parent, log) } else { Ins::Enum(name, parent, log) };
            refit(&ins, &mut s.shadow)?;
            s.log.push(ins);
            if !sut("compare", || s.ctx == s.shadow)? {
                return fail("refused-leaves-trace", format!("inserting {} gives another context where refused operations came before", full));
            }
            if let Some(d) = sut("lookup", || schema::disagree(&s.model, &s.ctx))? {
                return fail("modification-effect", format!("after inserting {}: {}", full, d));
            }
            Ok(())
        }
    }
}

/// Right after an accepted insertion, while the shadow has not had it: only the new type and its
/// parent's listing are new.
fn accepted(s: &S, full: &str, parent: TypeParent, pm: Option<&str>, new: TypeRef, is_msg: bool) -> R {
    let bad = |what: String| fail("modification-effect", format!("inserting {}: {}", full, what));
    match (sut("lookup", || s.ctx.get_type(full))?, new) {
        (Some(TypeInfo::Message(m)), TypeRef::Message(r)) if is_msg && m.self_ref == r && m.full_name == full && m.parent == parent => {}
        (Some(TypeInfo::Enum(e)), TypeRef::Enum(r)) if !is_msg && e.self_ref == r && e.full_name == full && e.parent == parent => {}
        (o, _) => return bad(format!("{:?} was returned and the name gives {:?}", new, o)),
    }
    sut("resolve", || match new {
        TypeRef::Message(r) => s.ctx.resolve_message(r).full_name == full,
        TypeRef::Enum(r) => s.ctx.resolve_enum(r).full_name == full,
    })
    .and_then(|ok| if ok { Ok(()) } else { bad(format!("{:?} denotes another type", new)) })?;
    for (f, _) in &s.model.msgs {
        let (a, b) = match (s.ctx.get_message(f), s.shadow.get_message(f)) {
            (Some(a), Some(b)) => (a, b),
            _ => return bad(format!("{} is gone", f)),
        };
        if pm == Some(f.as_str()) {
            let n = b.inner_types.len();
            if a.inner_types.len() != n + 1 || a.inner_types[..n] != b.inner_types[..] || a.inner_types[n] != new {
                return bad(format!("{} now contains {:?} instead of {:?} and {:?}", f, a.inner_types, b.inner_types, new));
            }
            let (x, y) = (snap::message(a), snap::message(b));
            if x != y {
                return bad(format!("{} changed: {}", f, snap::differ(&y, &x)));
            }
        } else if a != b {
            return bad(format!("{} changed too", f));
        }
    }
    for (f, _) in &s.model.enums {
        if s.ctx.get_type(f) != s.shadow.get_type(f) {
            return bad(format!("{} changed too", f));
        }
    }
    for (f, _) in &s.model.svcs {
        if s.ctx.get_service(f) != s.shadow.get_service(f) {
            return bad(format!("{} changed too", f));
        }
    }
    for (p, k) in &s.pkgs {
        let same = sut("resolve_package", || s.ctx.resolve_package(*p) == s.shadow.resolve_package(*p))?;
        let its = matches!(parent, TypeParent::Package(q) if q == *p);
        if its && same {
            return bad(format!("the package {:?} does not list it", s.model.pkgs[*k]));
        }
        if !its && !same {
            return bad(format!("the package {:?} changed too", s.model.pkgs[*k]));
        }
    }
    Ok(())
}

/// What a package lists: the same as when the same types are loaded from a file.
fn listing() -> R {
    let mut w = gen::world(false);
    for m in &mut w.msgs {
        m.parent = None;
        m.full = scoped(&w.pkg, &m.full);
    }
    for i in 0..w.enums.len() {
        w.enum_parent[i] = None;
        w.enums[i] = scoped(&w.pkg, &w.enums[i]);
    }
    let text = gen::render(&w);
    tr!("{}", text);
    let a = sut("schema-build", || gen::hand_build(&w))?;
    let b = match sut("schema-load", || Context::parse(&[text.as_str()]))? {
        Ok(c) => c,
        Err(e) => return fail("schema-load", format!("valid schema rejected: {}\n{}", e, text)),
    };
    let refs = |c: &Context| -> Option<(Bind, PackageRef)> {
        let b = Bind::new(&w, c)?;
        match c.resolve_message(b.msgs[0]).parent {
            TypeParent::Package(p) => Some((b, p)),
            _ => None,
        }
    };
    match (sut("lookup", || refs(&a))?, sut("lookup", || refs(&b))?) {
        (Some((x, p)), Some((y, q))) => {
            // Comparable only if both number the types alike.
            if x.msgs == y.msgs && x.enums == y.enums && p == q {
                P::HandBuilt.hit();
                if !sut("compare", || a.resolve_package(p) == b.resolve_package(q))? {
                    return fail("modification-effect", format!("the package lists {:?} when built and {:?} when loaded\n{}", a.resolve_package(p), b.resolve_package(q), text));
                }
            }
            Ok(())
        }
        _ => fail("modification-effect", format!("a type cannot be found by its name, or has no package\n{}", text)),
    }
}

fn scoped(pkg: &Option<String>, full: &str) -> String {
    let short = full.rsplit('.').next().unwrap();
    match pkg {
        Some(p) => format!("{}.{}", p, short),
        None => short.to_string(),
    }
}
