//! Generators: schemas, messages, peers with odd encoders, transport faults.

use crate::shm::{F, P};
use crate::tape::{self, below, chance, count, pick, range, u64_, us, weighted};
use crate::tr;
use crate::wire::*;
use protofish::context::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

// ------------------------------------------------------------------ schemas

pub const MAX_NUMBER: u64 = (1 << 61) - 1;

pub fn number() -> u64 {
    match weighted(&[10, 4, 3, 1]) {
        0 => 1 + below(15),
        1 => 1 + below(2100),
        2 => pick(&[1, 15, 16, 127, 128, 2047, 2048, 16384, 262143, 262144, 33554432, 536870911]),
        _ => pick(&[0, 536870912, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 60, MAX_NUMBER]),
    }
}

fn full(pkg: &Option<String>, w: &World, parent: Option<usize>, name: &str) -> String {
    match (parent, pkg) {
        (Some(p), _) => format!("{}.{}", w.msgs[p].full, name),
        (None, Some(p)) => format!("{}.{}", p, name),
        (None, None) => name.to_string(),
    }
}

/// `odd`: also multiplicities only a schema built by hand can have.
pub fn world(odd: bool) -> World {
    let pkg = pick(&[None, Some("p"), Some("a.b")]).map(|s: &str| s.to_string());
    let nm = range(1, 5);
    let ne = range(0, 2);
    let mut w = World { pkg: pkg.clone(), ..Default::default() };
    // Names that differ behind any limit.
    let long = if chance(1, 30) { "Long_".repeat(pick(&[13, 26, 52, 110])) } else { String::new() };
    for i in 0..nm {
        let parent = if i > 0 && chance(1, 4) { Some(us(i)) } else { None };
        let f = full(&pkg, &w, parent, &format!("{}M{}", long, i));
        w.msgs.push(Msg { full: f, parent, ..Default::default() });
    }
    for i in 0..ne {
        let parent = if chance(1, 3) { Some(us(nm)) } else { None };
        let f = full(&pkg, &w, parent, &format!("{}E{}", long, i));
        w.enums.push(f);
        w.enum_parent.push(parent);
    }
    for i in 0..nm {
        let n = if i == 0 { 1 + count(7, 30) } else { count(6, 20) };
        let oneofs = if chance(1, 4) { range(1, 2) } else { 0 };
        let mut fields = BTreeMap::new();
        for k in 0..n {
            let mut num = number();
            while fields.contains_key(&num) {
                num = num % MAX_NUMBER + 1;
            }
            let f = field(&w, num, format!("{}f{}", long, k), oneofs, odd);
            fields.insert(num, f);
        }
        w.msgs[i].fields = fields;
        w.msgs[i].oneofs = oneofs;
    }
    for k in 0..weighted(&[4, 2, 1]) {
        map_field(&mut w, us(nm), k);
    }
    w
}

/// A map: a repeated field of an entry type of its own.
fn map_field(w: &mut World, owner: usize, k: usize) {
    let name = pick(&["m", "by_name", "x_map"]).to_string() + &k.to_string();
    let mut num = number();
    while w.msgs[owner].fields.contains_key(&num) {
        num = num % MAX_NUMBER + 1;
    }
    let keys: Vec<Sc> = SCALARS.iter().cloned().filter(|s| !matches!(s, Sc::Float | Sc::Double | Sc::Bytes)).collect();
    let f = |number, name: &str, ty, mult| Field { number, name: name.into(), ty, mult, oneof: None };
    let key = Ty::S(pick(&keys));
    let value = match weighted(&[3, 2, !w.enums.is_empty() as u64]) {
        0 => Ty::S(pick(&SCALARS)),
        1 => Ty::Msg(owner),
        _ => Ty::Enum(us(w.enums.len())),
    };
    let entry = w.msgs.len();
    let full = format!("{}.{}", w.msgs[owner].full, crate::schema::map_entry(&name));
    let mut m = Msg { full, parent: Some(owner), ..Default::default() };
    m.fields.insert(1, f(1, "key", key, Mult::Single));
    m.fields.insert(2, f(2, "value", value, Mult::Single));
    w.msgs.push(m);
    w.msgs[owner].fields.insert(num, f(num, &name, Ty::Msg(entry), Mult::Repeated));
}

/// The field this type is the entry of, if the two can be written as a map.
fn map_of(w: &World, i: usize) -> Option<&Field> {
    let m = &w.msgs[i];
    let own = &w.msgs[m.parent?];
    let mut users = own.fields.values().filter(|f| f.ty == Ty::Msg(i));
    let f = users.next()?;
    if users.next().is_some() || f.mult != Mult::Repeated || f.oneof.is_some() || f.number % 3 == 0 || crate::schema::map_entry(&f.name) != short(&m.full) {
        return None;
    }
    let plain = |n: u64, name: &str| m.fields.get(&n).map_or(false, |f| f.name == name && f.mult == Mult::Single && f.oneof.is_none());
    let key = matches!(m.fields.get(&1)?.ty, Ty::S(s) if !matches!(s, Sc::Float | Sc::Double | Sc::Bytes));
    let childless = !w.msgs.iter().any(|c| c.parent == Some(i)) && !w.enum_parent.contains(&Some(i));
    if m.fields.len() == 2 && m.oneofs == 0 && key && plain(1, "key") && plain(2, "value") && childless {
        Some(f)
    } else {
        None
    }
}

pub fn field(w: &World, number: u64, name: String, oneofs: usize, odd: bool) -> Field {
    let ty = match weighted(&[10, 6, if w.enums.is_empty() { 0 } else { 2 }]) {
        0 => Ty::S(pick(&SCALARS)),
        1 => Ty::Msg(us(w.msgs.len())),
        _ => Ty::Enum(us(w.enums.len())),
    };
    let packable = matches!(ty, Ty::S(s) if s.wt() != 2);
    let mult = match weighted(&[4, 2, if packable { 4 } else { odd as u64 }, 1]) {
        0 => Mult::Single,
        1 => Mult::Repeated,
        2 => Mult::Packed,
        _ => Mult::Optional,
    };
    let oneof = if mult == Mult::Single && oneofs > 0 && chance(1, 2) { Some(us(oneofs)) } else { None };
    Field { number, name, ty, mult, oneof }
}

fn short(full: &str) -> &str {
    full.rsplit('.').next().unwrap()
}

pub fn render(w: &World) -> String {
    let mut s = String::from("syntax = \"proto3\";\n");
    if let Some(p) = &w.pkg {
        let _ = writeln!(s, "package {};", p);
    }
    for (i, m) in w.msgs.iter().enumerate() {
        if m.parent.is_none() {
            render_msg(w, i, &mut s, 0);
        }
    }
    for (i, e) in w.enums.iter().enumerate() {
        if w.enum_parent[i].is_none() {
            render_enum(e, &mut s, 0);
        }
    }
    s
}

fn render_enum(e: &str, s: &mut String, ind: usize) {
    let _ = writeln!(s, "{:ind$}enum {} {{ {}_A = 0; {}_B = 1; {}_C = -5; }}", "", short(e), short(e), short(e), short(e));
}

fn ty_name(w: &World, t: Ty) -> String {
    match t {
        Ty::S(s) => s.name().to_string(),
        Ty::Msg(i) => format!(".{}", w.msgs[i].full),
        Ty::Enum(i) => format!(".{}", w.enums[i]),
    }
}

fn render_field(w: &World, f: &Field) -> String {
    let packable = matches!(f.ty, Ty::S(x) if x.wt() != 2);
    let (pre, post) = match f.mult {
        Mult::Single => ("", ""),
        Mult::Optional => ("optional ", ""),
        Mult::Packed => ("repeated ", if f.number % 2 == 0 { " [packed = true]" } else { "" }),
        Mult::Repeated => ("repeated ", if packable { " [packed = false]" } else { "" }),
    };
    if let Ty::Msg(i) = f.ty {
        if map_of(w, i).map_or(false, |g| std::ptr::eq(f, g)) {
            P::MapField.hit();
            let e = &w.msgs[i].fields;
            return format!("map<{}, {}> {} = {};", ty_name(w, e[&1].ty), ty_name(w, e[&2].ty), f.name, f.number);
        }
    }
    format!("{}{} {} = {}{};", pre, ty_name(w, f.ty), f.name, f.number, post)
}

fn render_msg(w: &World, i: usize, s: &mut String, ind: usize) {
    let m = &w.msgs[i];
    let _ = writeln!(s, "{:ind$}message {} {{", "", short(&m.full));
    for f in m.fields.values().filter(|f| f.oneof.is_none()) {
        let _ = writeln!(s, "{:ind$}  {}", "", render_field(w, f));
    }
    for o in 0..m.oneofs {
        let _ = writeln!(s, "{:ind$}  oneof o{} {{", "", o);
        for f in m.fields.values().filter(|f| f.oneof == Some(o)) {
            let _ = writeln!(s, "{:ind$}    {}", "", render_field(w, f));
        }
        let _ = writeln!(s, "{:ind$}  }}", "");
    }
    for (k, c) in w.msgs.iter().enumerate() {
        if c.parent == Some(i) && map_of(w, k).is_none() {
            render_msg(w, k, s, ind + 2);
        }
    }
    for (k, e) in w.enums.iter().enumerate() {
        if w.enum_parent[k] == Some(i) {
            render_enum(e, s, ind + 2);
        }
    }
    let _ = writeln!(s, "{:ind$}}}", "");
}

/// Builds the context through the modification API.
pub fn hand_build(w: &World) -> Context {
    // References only come out of insertions, so a first context with the same order of
    // insertions provides them.
    let mut scratch = Context::new();
    let b = insert_all(w, &mut scratch, None);
    let mut ctx = Context::new();
    insert_all(w, &mut ctx, Some(&b));
    ctx
}

fn insert_all(w: &World, ctx: &mut Context, refs: Option<&Bind>) -> Bind {
    let p = ctx.insert_package(Package::new(w.pkg.clone())).expect("package");
    let mut b = Bind::default();
    for m in &w.msgs {
        let parent = match m.parent {
            None => TypeParent::Package(p),
            Some(q) => TypeParent::Message(b.msgs[q]),
        };
        let mut mi = MessageInfo::new(short(&m.full).to_string(), parent);
        if let Some(r) = refs {
            let mut os = vec![];
            for o in 0..m.oneofs {
                os.push(mi.add_oneof(Oneof::new(format!("o{}", o))).expect("oneof"));
            }
            for f in m.fields.values() {
                let mut mf = MessageField::new(f.name.clone(), f.number, value_type(f.ty, r));
                mf.multiplicity = mult(f.mult);
                mf.oneof = f.oneof.map(|o| os[o]);
                mi.add_field(mf).expect("field");
            }
        }
        b.msgs.push(ctx.insert_message(mi).expect("message"));
    }
    for (i, e) in w.enums.iter().enumerate() {
        let parent = match w.enum_parent[i] {
            None => TypeParent::Package(p),
            Some(q) => TypeParent::Message(b.msgs[q]),
        };
        let mut ei = EnumInfo::new(short(e).to_string(), parent);
        for (n, v) in [("A", 0), ("B", 1), ("C", -5)] {
            ei.add_field(EnumField::new(format!("{}_{}", short(e), n), v)).expect("enum field");
        }
        b.enums.push(ctx.insert_enum(ei).expect("enum"));
    }
    b
}

pub fn mult(m: Mult) -> Multiplicity {
    match m {
        Mult::Single => Multiplicity::Single,
        Mult::Repeated => Multiplicity::Repeated,
        Mult::Packed => Multiplicity::RepeatedPacked,
        Mult::Optional => Multiplicity::Optional,
    }
}

pub fn value_type(t: Ty, b: &Bind) -> ValueType {
    match t {
        Ty::Msg(i) => ValueType::Message(b.msgs[i]),
        Ty::Enum(i) => ValueType::Enum(b.enums[i]),
        Ty::S(s) => match s {
            Sc::Double => ValueType::Double,
            Sc::Float => ValueType::Float,
            Sc::Int32 => ValueType::Int32,
            Sc::Int64 => ValueType::Int64,
            Sc::UInt32 => ValueType::UInt32,
            Sc::UInt64 => ValueType::UInt64,
            Sc::SInt32 => ValueType::SInt32,
            Sc::SInt64 => ValueType::SInt64,
            Sc::Fixed32 => ValueType::Fixed32,
            Sc::Fixed64 => ValueType::Fixed64,
            Sc::SFixed32 => ValueType::SFixed32,
            Sc::SFixed64 => ValueType::SFixed64,
            Sc::Bool => ValueType::Bool,
            Sc::String => ValueType::String,
            Sc::Bytes => ValueType::Bytes,
        },
    }
}

// ------------------------------------------------------------------ values

pub fn bits64() -> u64 {
    match weighted(&[6, 4, 4, 3, 2]) {
        0 => below(5),
        1 => pick(&[
            u64::MAX, i64::MAX as u64, i64::MIN as u64, (i64::MIN + 1) as u64, u32::MAX as u64, i32::MAX as u64,
            i32::MIN as i64 as u64, 1 << 31, 1 << 32, 1 << 30, (1 << 30) - 1, (-(1i64 << 30)) as u64, (-1i64) as u64,
            (-2i64) as u64, 127, 128, 16383, 16384, 1 << 62, (1 << 62) - 1, (-(1i64 << 62)) as u64,
        ]),
        2 => {
            let k = us(64);
            (1u64 << k).wrapping_add(below(3)).wrapping_sub(1)
        }
        3 => u64_(),
        _ => (below(1000) as i64).wrapping_neg() as u64,
    }
}

pub fn scalar(s: Sc) -> u64 {
    let b = bits64();
    match s {
        Sc::Bool => b & 1,
        Sc::Int32 | Sc::UInt32 | Sc::SInt32 | Sc::Fixed32 | Sc::SFixed32 => {
            if chance(1, 5) {
                P::Extreme.hit();
                pick(&[0x8000_0000u64, 0x7fff_ffff, 0xffff_ffff, 0x4000_0000, 0xc000_0000, 0xbfff_ffff, 0x8000_0001])
            } else {
                b as u32 as u64
            }
        }
        Sc::Float => match weighted(&[3, 3, 1]) {
            0 => (below(100) as f32 * 0.5).to_bits() as u64,
            1 => pick(&[
                0x8000_0000u32, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fa0_0001, 0xffc1_2345, 1, 0x007f_ffff,
                0x7f7f_ffff, 0x0080_0000,
            ]) as u64,
            _ => b as u32 as u64,
        },
        Sc::Double => match weighted(&[3, 3, 1]) {
            0 => (below(100) as f64 * 0.25).to_bits(),
            1 => pick(&[
                0x8000_0000_0000_0000u64, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000,
                0x7ff4_0000_0000_0001, 0xfff8_dead_beef_0001, 1, 0x000f_ffff_ffff_ffff, 0x7fef_ffff_ffff_ffff,
            ]),
            _ => b,
        },
        _ => b,
    }
}

pub fn len(big: bool) -> usize {
    match weighted(&[30, 6, 3, if big { 1 } else { 0 }]) {
        0 => us(14),
        1 => range(14, 140),
        2 => pick(&[127, 128, 129, 255, 256, 300]),
        _ => pick(&[16383, 16384, 20000, 70000]),
    }
}

pub fn text(n: usize) -> String {
    let kind = us(4);
    let raw = tape::fill(n);
    let mut s = String::new();
    for b in raw {
        s.push(match kind {
            0 => (b'a' + b % 26) as char,
            1 => (b % 128) as char,
            2 => pick_char(b),
            _ => {
                if b % 8 == 0 { pick_char(b) } else { (b' ' + b % 90) as char }
            }
        });
    }
    s
}
fn pick_char(b: u8) -> char {
    const C: [char; 8] = ['é', '\u{0}', '漢', '🦀', '\u{fffd}', '\u{7f}', '\u{80}', 'ß'];
    C[(b / 8) as usize % 8]
}

#[derive(Clone, Copy)]
pub struct MG {
    pub max_depth: usize,
    pub unknown: bool,
    pub big: bool,
    pub wide: usize,
    /// Prefer message fields (to nest deeply).
    pub deep: bool,
}

impl MG {
    pub fn draw() -> MG {
        let deep = chance(1, 10);
        MG {
            max_depth: if deep { range(8, 50) } else { range(1, 5) },
            unknown: !chance(1, 5),
            big: chance(1, 30),
            wide: pick(&[4, 8, 2, 20]),
            deep,
        }
    }
}

pub fn message(w: &World, ty: usize, g: MG) -> M {
    let mut left = 60 + if chance(1, 20) { 400 } else { 0 };
    let mut m = msg(w, ty, 1, g, &mut left);
    // An empty message tests little.
    if m.f.is_empty() && !w.msgs[ty].fields.is_empty() {
        m = msg(w, ty, 1, g, &mut left);
    }
    m
}

fn msg(w: &World, ty: usize, depth: usize, g: MG, left: &mut usize) -> M {
    let mut m = M { ty, f: vec![], garbage: None };
    let n = if g.deep && depth > 1 { range(1, 2) } else { count(g.wide, g.wide * 3) };
    let fields: Vec<&Field> = w.msgs[ty].fields.values().collect();
    let subs: Vec<&&Field> = fields.iter().filter(|f| matches!(f.ty, Ty::Msg(_)) && f.mult != Mult::Packed).collect();
    for _ in 0..n {
        if *left == 0 {
            break;
        }
        *left -= 1;
        let mode = weighted(&[12, 2 * g.unknown as u64, g.unknown as u64]);
        if mode == 0 && !fields.is_empty() {
            let f: &Field = if g.deep && !subs.is_empty() && !chance(1, 3) { subs[us(subs.len())] } else { fields[us(fields.len())] };
            if matches!(f.ty, Ty::Msg(_)) && f.mult != Mult::Packed && depth >= g.max_depth {
                continue;
            }
            let v = known_value(w, f, depth, g, left);
            if f.mult != Mult::Packed && *left > 20 && depth < 4 && chance(1, 40) {
                repeats(w, f, depth, g, left, &v, &mut m);
            }
            m.f.push((f.number, v));
        } else if mode == 2 && !fields.is_empty() {
            // The sender declared this field with another wire type.
            let f = fields[us(fields.len())];
            let expect = if f.mult == Mult::Packed && matches!(f.ty, Ty::S(_)) { 2 } else { f.ty.wt() };
            let v = unknown_value(w, ty, g);
            if v.wt() != expect {
                m.f.push((f.number, v));
            }
        } else {
            let num = number();
            if g.unknown && !w.msgs[ty].fields.contains_key(&num) {
                m.f.push((num, unknown_value(w, ty, g)));
            }
        }
    }
    m
}

/// Many values of one field, some of them the same, or entries of a map with the same key.
fn repeats(w: &World, f: &Field, depth: usize, g: MG, left: &mut usize, v: &V, m: &mut M) {
    let n = pick(&[2, 18, 3, 40, 130]);
    // Not of what is large already.
    let size = encode(&M { ty: 0, f: vec![(f.number, v.clone())], garbage: None }).len();
    if size > 15_000 {
        return;
    }
    P::ManySiblings.hit();
    let n = n.min(60_000 / (size + 1));
    for _ in 0..n {
        let mut budget = 3.min(*left);
        let x = match (us(3), v) {
            (0, v) => v.clone(),
            (1, V::Msg(k)) => {
                let mut k = k.clone();
                if k.f.len() > 1 {
                    let (n, last) = k.f.pop().unwrap();
                    let other = match last {
                        V::Num(s, _) => V::Num(s, scalar(s)),
                        V::Str(_) => V::Str(text(us(5))),
                        V::Byt(_) => V::Byt(tape::fill(us(5))),
                        v => v,
                    };
                    k.f.push((n, other));
                }
                V::Msg(k)
            }
            _ => known_value(w, f, depth.max(g.max_depth.saturating_sub(1)), MG { wide: 2, deep: false, big: false, ..g }, &mut budget),
        };
        m.f.push((f.number, x));
    }
    *left = left.saturating_sub(n.min(30));
}

pub fn unknown_value(w: &World, ty: usize, g: MG) -> V {
    match us(4) {
        0 => V::UVar(bits64() as u128),
        1 => V::U64(bits64()),
        2 => V::U32(bits64() as u32),
        _ => V::ULen(if chance(1, 3) {
            let mut left = 6;
            encode(&msg(w, ty, 1, MG { max_depth: 1, ..g }, &mut left))
        } else {
            tape::fill(len(g.big))
        }),
    }
}

fn known_value(w: &World, f: &Field, depth: usize, g: MG, left: &mut usize) -> V {
    match (f.ty, f.mult) {
        (Ty::S(s), Mult::Packed) if s.wt() != 2 => {
            let n = if g.big && chance(1, 4) { range(0, 3000) } else { count(6, 60) };
            if n > 80 {
                let mut x = u64_();
                V::Packed(s, (0..n).map(|_| clip(s, tape::splitmix(&mut x) >> (x % 61))).collect())
            } else {
                V::Packed(s, (0..n).map(|_| scalar(s)).collect())
            }
        }
        // Only a schema built by hand can say this; such a field is not decodable.
        (t, Mult::Packed) => match t.wt() {
            2 => V::ULen(tape::fill(us(12))),
            _ => V::UVar(bits64() as u128),
        },
        (Ty::S(Sc::String), _) => V::Str(text(len(g.big))),
        (Ty::S(Sc::Bytes), _) => V::Byt(tape::fill(len(g.big))),
        (Ty::S(s), _) => V::Num(s, scalar(s)),
        (Ty::Enum(e), _) => V::Enum(e, if chance(1, 3) { bits64() as i64 } else { pick(&[0, 1, -5, 2]) }),
        (Ty::Msg(t), _) => V::Msg(Box::new(msg(w, t, depth + 1, g, left))),
    }
}

/// Any 64 bits as the bits of a value of this type.
pub fn clip(s: Sc, b: u64) -> u64 {
    match s {
        Sc::Bool => b & 1,
        Sc::Int32 | Sc::UInt32 | Sc::SInt32 | Sc::Fixed32 | Sc::SFixed32 | Sc::Float => b as u32 as u64,
        _ => b,
    }
}

// ------------------------------------------------------------------ a peer with an odd encoder

/// Encodes correctly but not canonically, with probability 1/`rate` per varint.
pub fn encode_quirky(m: &M, rate: u64) -> Vec<u8> {
    let mut out = vec![];
    for (n, v) in &m.f {
        quirk(&mut out, (n << 3) | v.wt() as u64, rate);
        match v {
            V::Num(s, x) if s.wt() == 0 => quirk_scalar(&mut out, *s, *x, rate),
            V::Enum(_, x) => quirk(&mut out, *x as u64, rate),
            V::UVar(x) => quirk(&mut out, *x as u64, rate),
            V::Str(s) => quirk_len(&mut out, s.as_bytes(), rate),
            V::Byt(b) | V::ULen(b) => quirk_len(&mut out, b, rate),
            V::Msg(k) => {
                let b = encode_quirky(k, rate);
                quirk_len(&mut out, &b, rate)
            }
            V::Packed(s, xs) => {
                let mut t = vec![];
                for x in xs {
                    if s.wt() == 0 {
                        quirk_scalar(&mut t, *s, *x, rate)
                    } else {
                        put_scalar(&mut t, *s, *x)
                    }
                }
                quirk_len(&mut out, &t, rate)
            }
            _ => encode_value(&mut out, v),
        }
    }
    out
}

fn quirk(out: &mut Vec<u8>, v: u64, rate: u64) {
    if chance(1, rate) {
        F::Overlong.hit();
        let n = range(2, 10);
        put_varint_padded(out, v, n);
    } else {
        put_varint(out, v);
    }
}
fn quirk_len(out: &mut Vec<u8>, b: &[u8], rate: u64) {
    quirk(out, b.len() as u64, rate);
    out.extend_from_slice(b);
}
fn quirk_scalar(out: &mut Vec<u8>, s: Sc, x: u64, rate: u64) {
    let mut wv = to_wire(s, x);
    if chance(1, rate) {
        match s {
            Sc::Bool if x != 0 => wv = 1 + below(300),
            // A peer that does not sign-extend, or whose type is wider than ours.
            Sc::Int32 | Sc::UInt32 => wv = (wv as u32 as u64) | if chance(1, 2) { u64_() << 32 } else { 0 },
            Sc::SInt32 => wv |= u64_() << 32,
            _ => {}
        }
        F::Overlong.hit();
    }
    quirk(out, wv, rate);
}

// ------------------------------------------------------------------ transport faults

fn marks(spans: &[Span], out: &mut Vec<usize>) {
    for s in spans {
        out.extend_from_slice(&[s.tag, s.val, s.content, s.end]);
        if out.len() > 4000 {
            return;
        }
        marks(&s.kids, out);
    }
}

pub fn flat<'a>(spans: &'a [Span], out: &mut Vec<&'a Span>) {
    for s in spans {
        if out.len() > 3000 {
            return;
        }
        out.push(s);
        flat(&s.kids, out);
    }
}

struct Pos {
    m: Vec<usize>,
}
impl Pos {
    fn at(&self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        if !self.m.is_empty() && !chance(1, 3) {
            let p = self.m[us(self.m.len())] + us(3);
            p.saturating_sub(1).min(n - 1)
        } else {
            us(n)
        }
    }
}

pub const NKIND: usize = 13;

/// Applies `n` transport faults. `mask` restricts the kinds (swarm).
pub fn damage(d: &[u8], spans: &[Span], other: &[u8], n: usize, mask: u64) -> Vec<u8> {
    let mut d = d.to_vec();
    let mut pos = Pos { m: vec![] };
    marks(spans, &mut pos.m);
    let mut fl = vec![];
    flat(spans, &mut fl);
    for _ in 0..n {
        let l = d.len();
        let weights = [3u64, 5, 5, 4, 4, 3, 2, 2, 3, 4, 1, 6, 6];
        let ws: Vec<u64> = (0..NKIND).map(|k| if mask >> k & 1 == 1 { weights[k] } else { 0 }).collect();
        let k = if ws.iter().sum::<u64>() == 0 { us(NKIND) } else { weighted(&ws) };
        if l == 0 && !matches!(k, 3 | 8 | 10) {
            continue;
        }
        match k {
            0 => {
                let p = pos.at(l);
                tr!("    fault: cut at byte {} of {}", p, l);
                d.truncate(p);
                F::Cut.hit();
            }
            1 => {
                let p = pos.at(l);
                let b = us(8);
                tr!("    fault: flip bit {} of byte {}", b, p);
                d[p] ^= 1 << b;
                F::Flip.hit();
            }
            2 => {
                let p = pos.at(l);
                let v = pick(&[0, 0x80, 0xff, 0x7f, 1, 2, 3, 4, 5, 6, 7, 8, 10, 0x0b]);
                let v = if chance(1, 3) { below(256) as u8 } else { v };
                tr!("    fault: byte {} := {:#04x}", p, v);
                d[p] = v;
                F::SetByte.hit();
            }
            3 => {
                let p = if l == 0 { 0 } else { pos.at(l + 1) };
                let c = tape::fill(range(1, 12));
                tr!("    fault: insert {} at {}", hex(&c), p);
                d.splice(p..p, c);
                F::Insert.hit();
            }
            4 => {
                let p = pos.at(l);
                let e = (p + range(1, 8)).min(l);
                tr!("    fault: delete {}..{}", p, e);
                d.drain(p..e);
                F::Delete.hit();
            }
            5 => {
                let p = pos.at(l);
                let e = (p + range(1, 20)).min(l);
                let q = pos.at(l);
                tr!("    fault: bytes {}..{} repeated at {}", p, e, q);
                let c = d[p..e].to_vec();
                d.splice(q..q, c);
                F::DupRange.hit();
            }
            6 => {
                let (p, q) = (pos.at(l), pos.at(l));
                let (p, q) = (p.min(q), p.max(q));
                let n = range(1, 10).min(q - p).min(l - q);
                tr!("    fault: swap {} bytes at {} and {}", n, p, q);
                for i in 0..n {
                    d.swap(p + i, q + i);
                }
                F::SwapRange.hit();
            }
            7 => {
                let p = pos.at(l);
                let e = (p + range(1, 24)).min(l);
                tr!("    fault: zero {}..{}", p, e);
                d[p..e].fill(0);
                F::ZeroRange.hit();
            }
            8 => {
                if other.is_empty() {
                    continue;
                }
                let p = us(l + 1);
                let q = us(other.len());
                tr!("    fault: spliced with another frame at {}", p);
                d.truncate(p);
                d.extend_from_slice(&other[q..]);
                F::Splice.hit();
            }
            9 => {
                // The continuation bit is stuck for a while.
                let p = pos.at(l);
                let n = range(1, 16);
                tr!("    fault: continuation bit stuck for {} bytes at {}", n, p);
                let insert = chance(1, 2);
                if insert {
                    let c: Vec<u8> = tape::fill(n).iter().map(|b| b | 0x80).collect();
                    d.splice(p..p, c);
                } else {
                    for b in d.iter_mut().skip(p).take(n) {
                        *b |= 0x80;
                    }
                }
                F::ContRun.hit();
            }
            10 => {
                let c = hostile();
                let p = us(l + 1);
                tr!("    fault: hostile frame of {} bytes at {}", c.len(), p);
                d.splice(p..p, c);
                F::Hostile.hit();
            }
            11 | 12 => {
                if fl.is_empty() {
                    continue;
                }
                let s = fl[us(fl.len())];
                let (a, b) = if k == 11 { (s.val, s.content) } else { (s.tag, s.val) };
                if b > d.len() || a >= b || (k == 11 && s.wt != 2) {
                    continue;
                }
                let mut c = vec![];
                if k == 11 {
                    let cur = (s.end - s.content) as u64;
                    let v = match us(8) {
                        0 => cur.wrapping_sub(1),
                        1 => cur + 1,
                        2 => 0,
                        3 => (d.len() - b) as u64,
                        4 => (d.len() - b) as u64 + 1,
                        5 => below(2 * cur + 4),
                        6 => pick(&[u64::MAX, 1 << 63, i64::MAX as u64, u32::MAX as u64, 1 << 32, 1 << 31, 1 << 62, (1 << 32) + 1]),
                        _ => cur + below(40),
                    };
                    put_varint(&mut c, v);
                    tr!("    fault: length at {} becomes {}", a, v);
                    F::LenSkew.hit();
                } else {
                    let v = match us(3) {
                        0 => (s.number << 3) | below(8),
                        1 => (number() << 3) | s.wt as u64,
                        _ => (number() << 3) | below(8),
                    };
                    put_varint(&mut c, v);
                    tr!("    fault: tag at {} becomes {}:{}", a, v >> 3, v & 7);
                    F::TagSkew.hit();
                }
                d.splice(a..b, c);
            }
            _ => unreachable!(),
        }
    }
    d
}

/// A frame from something that is not a peer.
pub fn hostile() -> Vec<u8> {
    match us(6) {
        0 => {
            let n = pick(&[1, 9, 10, 11, 20, 200]);
            let mut v = vec![0x80 | (below(128) as u8); n];
            if chance(1, 2) {
                v.push(below(128) as u8);
            }
            v
        }
        1 => {
            let mut v = vec![];
            put_varint(&mut v, (number() << 3) | 2);
            put_varint(&mut v, pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64, 1 << 40, 5, 1 << 31]));
            v.extend(tape::fill(us(5)));
            v
        }
        2 => {
            let mut v = vec![];
            put_varint(&mut v, (number() << 3) | below(8));
            v.extend(vec![0xff; range(1, 12)]);
            v.extend(tape::fill(us(3)));
            v
        }
        3 => tape::fill(range(1, 40)),
        4 => {
            let mut v = vec![];
            put_varint(&mut v, (number() << 3) | pick(&[3, 4, 6, 7]));
            v.extend(tape::fill(us(10)));
            v
        }
        _ => vec![pick(&[0u8, 0xff, 0x08, 0x0a, 0x12]); range(1, 60)],
    }
}

/// `depth` messages inside one another through field `number`, around `core`.
pub fn nest(path: &[u64], depth: usize, core: &[u8], lie: bool) -> Vec<u8> {
    let mut rev: Vec<u8> = core.iter().rev().cloned().collect();
    for i in (0..depth).rev() {
        let mut h = vec![];
        put_varint(&mut h, (path[i % path.len()] << 3) | 2);
        let extra = if lie && i % 7 == 3 { 1 } else { 0 };
        put_varint(&mut h, rev.len() as u64 + extra);
        rev.extend(h.iter().rev());
    }
    rev.reverse();
    rev
}

/// The same with something before and behind the nested message at each level.
pub fn nest_around(path: &[u64], depth: usize, core: &[u8], head: &[u8], tail: &[u8]) -> Vec<u8> {
    let mut headers = vec![];
    let mut len = core.len();
    for i in (0..depth).rev() {
        let mut h = head.to_vec();
        put_varint(&mut h, (path[i % path.len()] << 3) | 2);
        put_varint(&mut h, len as u64);
        len += h.len() + tail.len();
        headers.push(h);
    }
    let mut out: Vec<u8> = headers.into_iter().rev().flatten().collect();
    out.extend_from_slice(core);
    for _ in 0..depth {
        out.extend_from_slice(tail);
    }
    out
}

/// A cycle of message fields starting at `ty`, if the schema has one reachable without detours.
pub fn cycle(w: &World, ty: usize) -> Option<Vec<u64>> {
    fn go(w: &World, at: usize, home: usize, seen: &mut BTreeSet<usize>, path: &mut Vec<u64>) -> bool {
        for f in w.msgs[at].fields.values() {
            if let (Ty::Msg(t), true) = (f.ty, f.mult != Mult::Packed) {
                path.push(f.number);
                if t == home || (seen.insert(t) && go(w, t, home, seen, path)) {
                    return true;
                }
                path.pop();
            }
        }
        false
    }
    let mut path = vec![];
    if go(w, ty, ty, &mut BTreeSet::new(), &mut path) {
        Some(path)
    } else {
        None
    }
}

// ------------------------------------------------------------------ schema versions

/// The wire type a field is read with.
pub fn eff(f: &Field) -> u8 {
    if f.mult == Mult::Packed && matches!(f.ty, Ty::S(_)) { 2 } else { f.ty.wt() }
}

/// Without message `i` and everything that mentions it. Message 0 always stays.
fn without_msg(w: &World, i: usize) -> World {
    let mut gone = vec![false; w.msgs.len()];
    gone[i] = true;
    for k in 0..w.msgs.len() {
        if let Some(p) = w.msgs[k].parent {
            gone[k] |= gone[p];
        }
    }
    let map: Vec<usize> = (0..gone.len()).map(|k| gone[..k].iter().filter(|g| !**g).count()).collect();
    let egone: Vec<bool> = w.enum_parent.iter().map(|p| p.map_or(false, |p| gone[p])).collect();
    let emap: Vec<usize> = (0..egone.len()).map(|k| egone[..k].iter().filter(|g| !**g).count()).collect();
    let mut o = World { pkg: w.pkg.clone(), ..Default::default() };
    for (k, m) in w.msgs.iter().enumerate() {
        if gone[k] {
            continue;
        }
        let mut m = m.clone();
        m.parent = m.parent.map(|p| map[p]);
        m.fields.retain(|_, f| match f.ty {
            Ty::Msg(t) => !gone[t],
            Ty::Enum(e) => !egone[e],
            _ => true,
        });
        for f in m.fields.values_mut() {
            f.ty = match f.ty {
                Ty::Msg(t) => Ty::Msg(map[t]),
                Ty::Enum(e) => Ty::Enum(emap[e]),
                t => t,
            };
        }
        o.msgs.push(m);
    }
    for (k, e) in w.enums.iter().enumerate() {
        if !egone[k] {
            o.enums.push(e.clone());
            o.enum_parent.push(w.enum_parent[k].map(|p| map[p]));
        }
    }
    o
}

/// Another version of the schema: fields and types missing, new ones, other wire types.
/// A field whose type changed always changed its wire type (anything else is not compatible).
pub fn derive(w: &World) -> World {
    let mut w = w.clone();
    if w.msgs.len() > 1 && chance(1, 4) {
        let i = range(1, w.msgs.len() - 1);
        tr!("  version: without type {}", w.msgs[i].full);
        w = without_msg(&w, i);
    }
    for i in 0..w.msgs.len() {
        let nums: Vec<u64> = w.msgs[i].fields.keys().cloned().collect();
        for n in nums {
            match weighted(&[6, 2, 2]) {
                0 => {}
                1 => {
                    w.msgs[i].fields.remove(&n);
                }
                _ => {
                    let old = w.msgs[i].fields[&n].clone();
                    let new = field(&w, n, old.name.clone(), 0, false);
                    if eff(&new) != eff(&old) {
                        w.msgs[i].fields.insert(n, new);
                    }
                }
            }
        }
        for _ in 0..us(3) {
            // A field number the sender does not declare. The sender never writes there with a
            // compatible meaning unless it forwards it as unknown, so give it a name only.
            let n = number();
            if !w.msgs[i].fields.contains_key(&n) {
                let f = field(&w, n, format!("x{}", n), 0, false);
                w.msgs[i].fields.insert(n, f);
            }
        }
    }
    w
}
