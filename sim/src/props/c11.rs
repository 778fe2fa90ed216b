//! References and decoding stay valid while a context grows.
use super::*;
use crate::grow::{self, Farm, No, Op};
use crate::schema::{self, EnumI, Model, MsgI};
use crate::snap;
use protofish::context::*;
use protofish::decode::MessageValue;
use std::collections::BTreeMap;

/// A type the user has a reference to, as it looked when it was first seen.
struct Seen {
    r: TypeRef,
    snap: String,
    inner: Vec<TypeRef>,
    vals: Vec<i64>,
}

/// A payload that was decoded before.
struct Pay {
    full: String,
    r: MessageRef,
    bytes: Vec<u8>,
    value: MessageValue,
    out: Vec<u8>,
    age: u64,
}

struct S {
    ctx: Box<Context>,
    model: Model,
    w: World,
    bind: Bind,
    /// Package references, with their index in the model.
    pkgs: Vec<(PackageRef, usize)>,
    seen: BTreeMap<String, Seen>,
    pays: Vec<Pay>,
    farm: Farm,
    now: u64,
    junk: Vec<Box<Context>>,
}

pub fn run() -> R {
    let (ctx, _, model, _) = super::c07::start()?;
    let mut s = S {
        ctx: Box::new(ctx),
        w: World::default(),
        bind: Bind::default(),
        pkgs: vec![],
        seen: BTreeMap::new(),
        pays: vec![],
        farm: sut("schema-build", Farm::new)?,
        now: 0,
        junk: vec![],
        model,
    };
    s.pkgs = super::c07::known_packages(&s.ctx, &s.model);
    rebind(&mut s)?;
    look(&mut s)?;
    if s.pkgs.is_empty() {
        package(&mut s)?;
    }
    for _ in 0..pick(&[25, 10, 50]) {
        step(&mut s)?;
    }
    for i in 0..s.pays.len() {
        again(&s, i)?;
    }
    look(&mut s)?;
    match sut("lookup", || schema::disagree(&s.model, &s.ctx))? {
        Some(d) => fail("growth-changes-types", d),
        None => Ok(()),
    }
}

/// The reference world of the grown context, and its references.
fn rebind(s: &mut S) -> R {
    s.w = schema::world(&s.model);
    match sut("lookup", || Bind::new(&s.w, &s.ctx))? {
        Some(b) => s.bind = b,
        None => return fail("growth-changes-types", "a type cannot be found by its full name".into()),
    }
    Ok(())
}

/// Every reference ever seen still denotes what it did; new types are noted.
fn look(s: &mut S) -> R {
    for (full, x) in &s.seen {
        let snap = match x.r {
            TypeRef::Message(r) => {
                let m = match sut_may_panic(|| s.ctx.resolve_message(r)) {
                    Ok(m) => m,
                    Err(e) => return fail("growth-changes-types", format!("the reference of {} does not resolve any more: {}", full, e)),
                };
                if m.inner_types.len() < x.inner.len() || m.inner_types[..x.inner.len()] != x.inner[..] {
                    return fail("growth-changes-types", format!("the inner types of {} were {:?} and are {:?}", full, x.inner, m.inner_types));
                }
                sut("lookup", || snap::message(m))?
            }
            TypeRef::Enum(r) => match sut_may_panic(|| snap::en(s.ctx.resolve_enum(r), &x.vals)) {
                Ok(e) => e,
                Err(e) => return fail("growth-changes-types", format!("the reference of {} does not resolve any more: {}", full, e)),
            },
        };
        if snap != x.snap {
            return fail("growth-changes-types", format!("{}: {}", full, snap::differ(&x.snap, &snap)));
        }
    }
    for full in s.model.msgs.keys() {
        if !s.seen.contains_key(full) {
            match sut("lookup", || s.ctx.get_message(full))? {
                Some(m) => {
                    s.seen.insert(full.clone(), Seen { r: TypeRef::Message(m.self_ref), snap: snap::message(m), inner: m.inner_types.clone(), vals: vec![] });
                }
                None => return fail("growth-changes-types", format!("{} is not found", full)),
            }
        }
    }
    for (full, i) in &s.model.enums {
        if !s.seen.contains_key(full) {
            let mut vals: Vec<i64> = i.vals.keys().cloned().collect();
            vals.extend_from_slice(&[17, -17]);
            match sut("lookup", || s.ctx.get_type(full))? {
                Some(TypeInfo::Enum(e)) => {
                    s.seen.insert(full.clone(), Seen { r: TypeRef::Enum(e.self_ref), snap: snap::en(e, &vals), inner: vec![], vals });
                }
                _ => return fail("growth-changes-types", format!("{} is not found", full)),
            }
        }
    }
    Ok(())
}

fn step(s: &mut S) -> R {
    let dt = 1 + below(1_000_000);
    sh().sim_us += dt;
    seam::clock_add(dt);
    s.now += 1;
    let op = weighted(&[2, 8, 3, 3, 2, 6, 4, 2, 1, 1]);
    ev(110, op as u64, s.seen.len() as u64);
    match op {
        0 => package(s),
        1 => message(s, false),
        2 => enumeration(s, false),
        3 => match us(2) {
            0 => message(s, true),
            _ => enumeration(s, true),
        },
        4 => foreign(s),
        5 => first(s),
        6 => {
            if !s.pays.is_empty() {
                let i = us(s.pays.len());
                again(s, i)?;
            }
            Ok(())
        }
        7 => look(s),
        8 => {
            // The context itself moves.
            F::HeapShift.hit();
            let c = std::mem::take(&mut *s.ctx);
            let old = std::mem::replace(&mut s.ctx, Box::new(c));
            if chance(1, 2) {
                s.junk.push(old);
            }
            Ok(())
        }
        _ => {
            // Many at once.
            if chance(1, 3) && s.seen.len() < 400 {
                return many(s);
            }
            for _ in 0..pick(&[20, 60]) {
                if chance(1, 4) { enumeration(s, false)? } else { message(s, false)? }
            }
            look(s)
        }
    }
}

fn package(s: &mut S) -> R {
    let name = grow::package_name();
    let known = s.pkgs.iter().find(|x| s.model.pkgs[x.1] == name).map(|x| x.0);
    let r = sut("insert_package", || s.ctx.insert_package(Package::new(name.clone())))?;
    tr!("insert_package({:?}) = {:?}", name, r);
    match r {
        Ok(p) if known.is_none() => {
            s.model.pkgs.push(name);
            s.pkgs.push((p, s.model.pkgs.len() - 1));
            Ok(())
        }
        Ok(p) => fail("growth-changes-types", format!("package {:?} is gone: it could be inserted again, as {:?}", name, p)),
        Err(p) => {
            F::Conflict.hit();
            match known {
                Some(q) if q == p || s.pkgs.iter().any(|x| x.0 == p && s.model.pkgs[x.1] == name) => Ok(()),
                Some(q) if !s.pkgs.iter().any(|x| x.0 == p) => {
                    // Two packages of one name, from two files.
                    s.model.pkgs.push(name);
                    s.pkgs.push((p, s.model.pkgs.len() - 1));
                    let _ = q;
                    Ok(())
                }
                None if !s.pkgs.iter().any(|x| x.0 == p) => {
                    s.model.pkgs.push(name);
                    s.pkgs.push((p, s.model.pkgs.len() - 1));
                    Ok(())
                }
                _ => fail("growth-changes-types", format!("the reference of package {:?} is {:?} and was {:?}", name, p, known)),
            }
        }
    }
}

/// A parent in the context, with its full name.
fn parent(s: &S) -> Option<(TypeParent, Option<String>, Option<String>, usize)> {
    if chance(1, 3) && !s.model.msgs.is_empty() {
        let k = us(s.model.msgs.len());
        let (full, i) = s.model.msgs.iter().nth(k).unwrap();
        if let Some(TypeRef::Message(r)) = s.seen.get(full).map(|x| x.r) {
            return Some((TypeParent::Message(r), Some(full.clone()), Some(full.clone()), i.file));
        }
    }
    if s.pkgs.is_empty() {
        return None;
    }
    let (p, k) = s.pkgs[us(s.pkgs.len())];
    Some((TypeParent::Package(p), None, s.model.pkgs[k].clone(), k))
}

fn place(s: &S, conflict: bool) -> Option<(TypeParent, Option<String>, String, String, usize)> {
    let (p, pm, scope, file) = parent(s)?;
    let name = if conflict || chance(1, 2) { grow::type_name() } else { format!("N{}", s.seen.len()) };
    let full = match &scope {
        Some(x) => format!("{}.{}", x, name),
        None => name.clone(),
    };
    if s.model.svcs.contains_key(&full) {
        return None;
    }
    Some((p, pm, name, full, file))
}

/// What has not been inserted yet is not there.
fn unknown(s: &S, full: &str) -> R {
    P::EarlyLookup.hit();
    let t = sut("lookup", || s.ctx.get_type(full).is_some())?;
    let m = sut("lookup", || s.ctx.get_message(full).is_some())?;
    if t != s.seen.contains_key(full) || m != s.model.msgs.contains_key(full) {
        return fail("growth-changes-types", format!("before inserting {} it is {}found", full, if t { "" } else { "not " }));
    }
    Ok(())
}

/// Growth beyond any small number: many tiny types.
fn many(s: &mut S) -> R {
    // Below a package or, one after another, below one message.
    let Some((parent, pm, scope, k)) = parent(s) else { return Ok(()) };
    P::ManyTypes.hit();
    let base = s.seen.len();
    let n = pick(&[100, 300]);
    let kinds = us(3);
    for i in 0..n {
        let name = format!("Many{}_{}", base, i);
        let full = match &scope {
            Some(x) => format!("{}.{}", x, name),
            None => name.clone(),
        };
        if s.model.svcs.contains_key(&full) || s.seen.contains_key(&full) {
            continue;
        }
        if kinds == 0 || kinds == 1 && i % 2 == 0 {
            one_enum(s, parent_copy(&parent), pm.clone(), k, name, full)?;
        } else {
            one_message(s, parent_copy(&parent), pm.clone(), k, name, full, base + i)?;
        }
    }
    rebind(s)?;
    look(s)?;
    for _ in 0..3 {
        first(s)?;
    }
    Ok(())
}

fn parent_copy(p: &TypeParent) -> TypeParent {
    match p {
        TypeParent::Package(p) => TypeParent::Package(*p),
        TypeParent::Message(m) => TypeParent::Message(*m),
    }
}

fn one_enum(s: &mut S, parent: TypeParent, pm: Option<String>, file: usize, name: String, full: String) -> R {
    let mut model = EnumI { name: name.clone(), file, parent: pm.clone(), ..Default::default() };
    let mut real = sut("new", || EnumInfo::new(name.clone(), parent))?;
    let op = Op::Value("Z".into(), s.seen.len() as i64, vec![]);
    grow::model_enum(&mut model, &op);
    let _ = sut("modify", || grow::apply_enum(&mut real, &op))?;
    let ctx = &mut s.ctx;
    let r = match sut("insert_enum", move || ctx.insert_enum(real))? {
        Ok(r) => r,
        Err(e) => return fail("growth-changes-types", format!("inserting {} gives {:?}", full, e)),
    };
    grown(s, full.clone(), pm)?;
    let e = sut("resolve_enum", || s.ctx.resolve_enum(r))?;
    if e.full_name != full || e.self_ref != r {
        return fail("growth-not-usable", format!("after inserting {} its reference denotes {}", full, e.full_name));
    }
    let mut vals: Vec<i64> = model.vals.keys().cloned().collect();
    vals.extend_from_slice(&[17, -17]);
    s.seen.insert(full.clone(), Seen { r: TypeRef::Enum(r), snap: snap::en(e, &vals), inner: vec![], vals });
    s.model.enums.insert(full, model);
    Ok(())
}

fn one_message(s: &mut S, parent: TypeParent, pm: Option<String>, file: usize, name: String, full: String, number: usize) -> R {
    let mut model = MsgI { name: name.clone(), file, parent: pm.clone(), ..Default::default() };
    let mut real = sut("new", || MessageInfo::new(name.clone(), parent))?;
    let op = Op::Field(grow::FieldOp {
        name: "f".into(),
        number: 1 + number as u64,
        ty: schema::TyI::S(wire::Sc::UInt64),
        vt: ValueType::UInt64,
        mult: wire::Mult::Single,
        opts: vec![],
        oneof: None,
    });
    grow::model_msg(&mut model, &op);
    let _ = sut("modify", || grow::apply_msg(&mut real, &op))?;
    let ctx = &mut s.ctx;
    let r = match sut("insert_message", move || ctx.insert_message(real))? {
        Ok(r) => r,
        Err(e) => return fail("growth-changes-types", format!("inserting {} gives {:?}", full, e)),
    };
    grown(s, full.clone(), pm)?;
    let m = sut("resolve_message", || s.ctx.resolve_message(r))?;
    if m.full_name != full || m.self_ref != r || !sut("lookup", || s.ctx.get_message(&full).map_or(false, |x| std::ptr::eq(x, m)))? {
        return fail("growth-not-usable", format!("after inserting {} its reference denotes {} and its name {:?}", full, m.full_name, s.ctx.get_message(&full).map(|x| &x.full_name)));
    }
    s.seen.insert(full.clone(), Seen { r: TypeRef::Message(r), snap: snap::message(m), inner: vec![], vals: vec![] });
    s.model.msgs.insert(full, model);
    Ok(())
}

fn message(s: &mut S, conflict: bool) -> R {
    let Some((parent, pm, name, full, file)) = place(s, conflict) else { return Ok(()) };
    let mut model = MsgI { name: name.clone(), file, parent: pm.clone(), ..Default::default() };
    let mut real = sut("new", || MessageInfo::new(name.clone(), parent))?;
    let mut own: Vec<OneofRef> = vec![];
    for _ in 0..crate::tape::count(6, 20) {
        let op = grow::draw_op(&model, &real, &own, &s.model, &s.ctx, &s.farm);
        if matches!(&op, Op::Field(f) if f.number > gen::MAX_NUMBER) {
            continue;
        }
        let no = grow::model_msg(&mut model, &op);
        let r: Result<Option<OneofRef>, No> = sut("modify", || grow::apply_msg(&mut real, &op))?;
        if no.is_empty() != r.is_ok() {
            return fail("growth-changes-types", format!("{:?} gives {:?}, expected {:?}", op, r, no));
        }
        if let Ok(Some(o)) = r {
            own.push(o);
        }
    }
    let taken = s.seen.get(&full).map(|x| x.r);
    if chance(1, 2) {
        unknown(s, &full)?;
    }
    let (ctx, m) = (&mut s.ctx, real);
    let r = sut("insert_message", move || ctx.insert_message(m))?;
    tr!("insert_message {} = {:?}", full, r);
    match (r, taken) {
        (Ok(r), None) => {
            P::OpOk.hit();
            grown(s, full.clone(), pm)?;
            s.model.msgs.insert(full.clone(), model);
            rebind(s)?;
            // Usable at once.
            let m = sut("resolve_message", || s.ctx.resolve_message(r))?;
            if m.full_name != full || m.self_ref != r || !sut("lookup", || s.ctx.get_message(&full).map_or(false, |x| std::ptr::eq(x, m)))? {
                return fail("growth-not-usable", format!("after inserting {} its reference denotes {} and its name {:?}", full, m.full_name, s.ctx.get_message(&full).map(|x| &x.full_name)));
            }
            if let Some(d) = sut("lookup", || grow::draft_differs(&s.model.msgs[&full], m))? {
                return fail("growth-not-usable", format!("after inserting {}: {}", full, d));
            }
            s.seen.insert(full.clone(), Seen { r: TypeRef::Message(r), snap: snap::message(m), inner: vec![], vals: vec![] });
            let ty = s.w.msgs.iter().position(|m| m.full == full).unwrap();
            payload(s, ty)
        }
        (Err(InsertError::TypeExists { original }), Some(t)) if original == t => {
            F::Conflict.hit();
            P::OpRej.hit();
            Ok(())
        }
        (r, t) => fail("growth-changes-types", format!("inserting {} gives {:?}; {:?} has that name", full, r, t)),
    }
}

fn enumeration(s: &mut S, conflict: bool) -> R {
    let Some((parent, pm, name, full, file)) = place(s, conflict) else { return Ok(()) };
    let mut model = EnumI { name: name.clone(), file, parent: pm.clone(), ..Default::default() };
    let mut real = sut("new", || EnumInfo::new(name.clone(), parent))?;
    for _ in 0..range(1, 4) {
        let op = grow::draw_value();
        grow::model_enum(&mut model, &op);
        let _ = sut("modify", || grow::apply_enum(&mut real, &op))?;
    }
    let taken = s.seen.get(&full).map(|x| x.r);
    if chance(1, 2) {
        unknown(s, &full)?;
    }
    let (ctx, e) = (&mut s.ctx, real);
    let r = sut("insert_enum", move || ctx.insert_enum(e))?;
    tr!("insert_enum {} = {:?}", full, r);
    match (r, taken) {
        (Ok(r), None) => {
            P::OpOk.hit();
            grown(s, full.clone(), pm)?;
            s.model.enums.insert(full.clone(), model);
            rebind(s)?;
            let e = sut("resolve_enum", || s.ctx.resolve_enum(r))?;
            let same = sut("lookup", || matches!(s.ctx.get_type(&full), Some(TypeInfo::Enum(x)) if std::ptr::eq(x, e)))?;
            if e.full_name != full || e.self_ref != r || !same {
                return fail("growth-not-usable", format!("after inserting {} its reference denotes {} and its name {:?}", full, e.full_name, s.ctx.get_type(&full)));
            }
            if let Some(d) = sut("lookup", || grow::draft_enum_differs(&s.model.enums[&full], e))? {
                return fail("growth-not-usable", format!("after inserting {}: {}", full, d));
            }
            let mut vals: Vec<i64> = s.model.enums[&full].vals.keys().cloned().collect();
            vals.extend_from_slice(&[17, -17]);
            s.seen.insert(full, Seen { r: TypeRef::Enum(r), snap: snap::en(e, &vals), inner: vec![], vals });
            Ok(())
        }
        (Err(InsertError::TypeExists { original }), Some(t)) if original == t => {
            F::Conflict.hit();
            P::OpRej.hit();
            Ok(())
        }
        (r, t) => fail("growth-changes-types", format!("inserting {} gives {:?}; {:?} has that name", full, r, t)),
    }
}

fn grown(s: &mut S, full: String, pm: Option<String>) -> R {
    if let Some(p) = pm {
        let r = match s.seen.get(&p).map(|x| x.r) {
            Some(TypeRef::Message(r)) => r,
            _ => return Ok(()),
        };
        s.model.msgs.get_mut(&p).unwrap().inner.insert(full);
        s.seen.get_mut(&p).unwrap().inner = s.ctx.resolve_message(r).inner_types.clone();
    }
    Ok(())
}

/// Operations with references that mean nothing here.
fn foreign(s: &mut S) -> R {
    F::PanicOp.hit();
    let n = s.model.msgs.len() + s.model.enums.len();
    let far = n + 4 < grow::FARM;
    let r = match us(4) {
        // Inserting below an enum, or below nothing.
        0 => {
            let m = s.farm.msgs[us((n + 4).min(grow::FARM))];
            if sut_may_panic(|| s.ctx.resolve_message(m).name.len()).is_ok() {
                return Ok(());
            }
            let ctx = &mut s.ctx;
            sut_may_panic(move || ctx.insert_message(MessageInfo::new("Foreign".into(), TypeParent::Message(m))).is_ok())
        }
        1 => {
            let p = s.farm.pkgs[grow::FARM - 1];
            let ctx = &mut s.ctx;
            sut_may_panic(move || ctx.insert_enum(EnumInfo::new("Foreign".into(), TypeParent::Package(p))).is_ok())
        }
        2 if far => sut_may_panic(|| s.ctx.resolve_message(s.farm.msgs[grow::FARM - 1]).name.is_empty()),
        3 if far => sut_may_panic(|| s.ctx.decode(s.farm.msgs[grow::FARM - 1], b"\x08\x01").fields.is_empty()),
        _ => return Ok(()),
    };
    match r {
        Ok(true) => fail("growth-changes-types", "an operation with a reference that means nothing here was accepted".into()),
        Ok(false) => Ok(()),
        Err(_) => {
            P::OpPanic.hit();
            Ok(())
        }
    }
}

/// Decodes something new, judged by the reference decoder.
fn first(s: &mut S) -> R {
    if s.w.msgs.is_empty() {
        return Ok(());
    }
    let ty = us(s.w.msgs.len());
    payload(s, ty)
}

fn payload(s: &mut S, ty: usize) -> R {
    let m = gen::message(&s.w, ty, MG::draw());
    let mut bytes = wire::encode(&m);
    if chance(1, 4) {
        let spans = wire::decode(&s.w, ty, &bytes).1.spans;
        bytes = gen::damage(&bytes, &spans, &[], range(1, 3), u64::MAX);
    }
    if chance(1, 12) {
        if let Some(path) = gen::cycle(&s.w, ty) {
            bytes = gen::nest(&path, pick(&[99, 98, 100, 101, 130]), &bytes[..bytes.len().min(50)], chance(1, 3));
        }
    }
    let want = wire::decode(&s.w, ty, &bytes).0;
    let r = s.bind.msgs[ty];
    let full = s.w.msgs[ty].full.clone();
    let value = sut("decode", || s.ctx.decode(r, &bytes))?;
    let got = wire::from_pf(&value, &s.bind);
    if got != want {
        return fail("growth-changes-decode", format!("{}\n bytes {} of {}", diff(&got, &want, &full), wire::hex(&bytes), full));
    }
    let out = sut("encode", || value.encode(&s.ctx))?.to_vec();
    if out != wire::encode(&want) {
        return fail("growth-changes-encode", format!("{} of {} encodes as {} instead of {}", wire::hex(&bytes), full, wire::hex(&out), wire::hex(&wire::encode(&want))));
    }
    s.pays.push(Pay { full, r, bytes, value, out, age: s.seen.len() as u64 });
    Ok(())
}

/// Earlier payloads through earlier references, and values decoded earlier.
fn again(s: &S, i: usize) -> R {
    let p = &s.pays[i];
    if s.seen.len() as u64 > p.age {
        P::GrowDecode.hit();
        sh().nontrivial += 1;
    }
    let v = sut("decode", || s.ctx.decode(p.r, &p.bytes))?;
    let (a, b) = (wire::from_pf(&v, &s.bind), wire::from_pf(&p.value, &s.bind));
    if a != b {
        return fail("growth-changes-decode", format!("{} of {} now gives another result: {}", wire::hex(&p.bytes), p.full, diff(&a, &b, &p.full)));
    }
    let out = sut("encode", || p.value.encode(&s.ctx))?;
    if out[..] != p.out[..] {
        return fail("growth-changes-encode", format!("a value of {} decoded earlier encodes as {} instead of {}", p.full, wire::hex(&out), wire::hex(&p.out)));
    }
    let out = sut("encode", || v.encode(&s.ctx))?;
    if out[..] != p.out[..] {
        return fail("growth-changes-encode", format!("a value of {} decoded again encodes as {} instead of {}", p.full, wire::hex(&out), wire::hex(&p.out)));
    }
    // Through the name too.
    match sut("lookup", || s.ctx.get_message(&p.full))? {
        Some(m) if m.self_ref == p.r => {
            let v = sut("decode", || m.decode(&p.bytes, &s.ctx))?;
            if wire::from_pf(&v, &s.bind) != b {
                return fail("growth-changes-decode", format!("{} of {} gives another result when the type is looked up by name", wire::hex(&p.bytes), p.full));
            }
            Ok(())
        }
        o => fail("growth-changes-types", format!("{} is now {:?}", p.full, o.map(|m| m.self_ref))),
    }
}
