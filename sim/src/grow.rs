//! Building contexts through the modification API: operations as data (so that they can be
//! repeated elsewhere), what the documentation says they do, and references of other contexts.

use crate::gen;
use crate::schema::{Con, EnumI, FldI, Model, MsgI, Opts, TyI};
use crate::tape::{self, below, chance, pick, range, us, weighted};
use crate::wire::{Mult, SCALARS};
use protofish::context::*;
use std::collections::BTreeSet;

// ------------------------------------------------------------------ operations as data

#[derive(Clone, Debug)]
pub struct FieldOp {
    pub name: String,
    pub number: u64,
    pub ty: TyI,
    pub vt: ValueType,
    pub mult: Mult,
    pub opts: Opts,
    /// The reference handed over, and which oneof of the draft it stands for.
    pub oneof: Option<(OneofRef, Option<usize>)>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Field(FieldOp),
    Oneof(String, Vec<u64>, Opts),
    Value(String, i64, Opts),
}

/// Why an operation must be refused. Any one that applies may be reported.
#[derive(Clone, Debug, PartialEq)]
pub enum No {
    Number,
    Name,
    MissingOneof,
    NotFound(u64),
    InOneof(u64),
}

pub fn options(o: &Opts) -> Vec<ProtoOption> {
    o.iter()
        .map(|(n, c)| ProtoOption {
            name: n.clone(),
            value: match c {
                Con::Ident(x) => Constant::Ident(x.clone()),
                Con::Int(x) => Constant::Integer(*x),
                Con::Float(x) => Constant::Float(*x),
                Con::Str(x) => Constant::String(x.clone().into()),
                Con::Bool(x) => Constant::Bool(*x),
            },
        })
        .collect()
}

pub fn make_field(f: &FieldOp) -> MessageField {
    let mut m = MessageField::new(f.name.clone(), f.number, f.vt.clone());
    m.multiplicity = gen::mult(f.mult);
    m.options = options(&f.opts);
    m.oneof = f.oneof.map(|o| o.0);
    m
}

fn member_no(e: MemberInsertError) -> No {
    match e {
        MemberInsertError::NumberConflict => No::Number,
        MemberInsertError::NameConflict => No::Name,
        _ => No::MissingOneof,
    }
}

/// Does it. Ok(Some) for a oneof.
pub fn apply_msg(m: &mut MessageInfo, op: &Op) -> Result<Option<OneofRef>, No> {
    match op {
        Op::Field(f) => m.add_field(make_field(f)).map(|_| None).map_err(member_no),
        Op::Oneof(n, fields, o) => {
            let mut x = Oneof::new(n.clone());
            x.fields = fields.clone();
            x.options = options(o);
            m.add_oneof(x).map(Some).map_err(|e| match e {
                OneofInsertError::NameConflict => No::Name,
                OneofInsertError::FieldNotFound { field } => No::NotFound(field),
                OneofInsertError::FieldInOneof { field } => No::InOneof(field),
                _ => No::MissingOneof,
            })
        }
        Op::Value(..) => unreachable!(),
    }
}

pub fn apply_enum(e: &mut EnumInfo, op: &Op) -> Result<(), No> {
    match op {
        Op::Value(n, v, o) => {
            let mut f = EnumField::new(n.clone(), *v);
            f.options = options(o);
            e.add_field(f).map_err(member_no)
        }
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ what must happen

/// What the documentation says about an operation on a message; applies it to the model if
/// nothing stands against it.
pub fn model_msg(m: &mut MsgI, op: &Op) -> Vec<No> {
    let mut no = vec![];
    match op {
        Op::Field(f) => {
            if m.fields.contains_key(&f.number) {
                no.push(No::Number);
            }
            if m.fields.values().any(|x| x.name == f.name) {
                no.push(No::Name);
            }
            let one = match f.oneof {
                None => None,
                Some((_, Some(k))) => Some(k),
                Some((_, None)) => {
                    no.push(No::MissingOneof);
                    None
                }
            };
            if no.is_empty() {
                if let Some(k) = one {
                    m.oneofs[k].1.insert(f.number);
                }
                m.fields.insert(f.number, FldI { name: f.name.clone(), mult: f.mult, ty: f.ty.clone(), opts: f.opts.clone(), oneof: one });
            }
        }
        Op::Oneof(n, fields, o) => {
            if m.oneofs.iter().any(|x| x.0 == *n) {
                no.push(No::Name);
            }
            for f in fields {
                match m.fields.get(f) {
                    None => no.push(No::NotFound(*f)),
                    Some(x) if x.oneof.is_some() => no.push(No::InOneof(*f)),
                    _ => {}
                }
            }
            if no.is_empty() {
                let k = m.oneofs.len();
                for f in fields {
                    m.fields.get_mut(f).unwrap().oneof = Some(k);
                }
                m.oneofs.push((n.clone(), fields.iter().cloned().collect(), o.clone()));
            }
        }
        Op::Value(..) => unreachable!(),
    }
    no
}

pub fn model_enum(e: &mut EnumI, op: &Op) -> Vec<No> {
    let mut no = vec![];
    if let Op::Value(n, v, o) = op {
        if e.vals.contains_key(v) {
            no.push(No::Number);
        }
        if e.vals.values().any(|x| x[0].0 == *n) {
            no.push(No::Name);
        }
        if no.is_empty() {
            e.vals.insert(*v, vec![(n.clone(), o.clone())]);
        }
    }
    no
}

/// Compares a message that is not in a context yet with its model.
pub fn draft_differs(m: &MsgI, t: &MessageInfo) -> Option<String> {
    if t.name != m.name {
        return Some(format!("the name is {:?}", t.name));
    }
    let nums: BTreeSet<u64> = t.iter_fields().map(|f| f.number).collect();
    if nums.len() != t.iter_fields().count() || !nums.iter().eq(m.fields.keys()) {
        return Some(format!("fields {:?} instead of {:?}", nums, m.fields.keys().collect::<Vec<_>>()));
    }
    for (n, w) in &m.fields {
        let f = match t.get_field(*n) {
            Some(f) => f,
            None => return Some(format!("field {} is not found by number", n)),
        };
        if f.number != *n || f.name != w.name || f.multiplicity != gen::mult(w.mult) || !crate::schema::opts_eq(&f.options, &w.opts) {
            return Some(format!("field {} is {:?} instead of {:?}", n, f, w));
        }
        if !t.get_field_by_name(&w.name).map_or(false, |x| std::ptr::eq(x, f)) {
            return Some(format!("field {} is not found by its name {:?}", n, w.name));
        }
        let ok = match (f.oneof, w.oneof) {
            (None, None) => true,
            (Some(r), Some(k)) => t.get_oneof(r).map_or(false, |x| t.oneofs.get(k).map_or(false, |y| std::ptr::eq(x, y))),
            _ => false,
        };
        if !ok {
            return Some(format!("field {} has oneof {:?} instead of #{:?}", n, f.oneof, w.oneof));
        }
    }
    for name in NAMES {
        if t.get_field_by_name(name).is_some() != m.fields.values().any(|f| f.name == *name) {
            return Some(format!("looking up the field name {:?} gives {:?}", name, t.get_field_by_name(name)));
        }
    }
    if t.oneofs.len() != m.oneofs.len() {
        return Some(format!("{} oneofs instead of {}", t.oneofs.len(), m.oneofs.len()));
    }
    for (o, w) in t.oneofs.iter().zip(&m.oneofs) {
        let got: BTreeSet<u64> = o.fields.iter().cloned().collect();
        if o.name != w.0 || got != w.1 || o.fields.len() != w.1.len() || !crate::schema::opts_eq(&o.options, &w.2) {
            return Some(format!("oneof {:?} instead of {:?}", o, w));
        }
        if !t.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o)) {
            return Some(format!("the reference of oneof {:?} denotes another", o.name));
        }
    }
    None
}

pub fn draft_enum_differs(m: &EnumI, e: &EnumInfo) -> Option<String> {
    for v in VALUES.iter().cloned().chain(m.vals.keys().cloned()) {
        match (e.get_field_by_value(v), m.vals.get(&v)) {
            (None, None) => {}
            (Some(f), Some(w)) if f.value == v && f.name == w[0].0 && crate::schema::opts_eq(&f.options, &w[0].1) => {}
            (f, w) => return Some(format!("value {} is {:?} instead of {:?}", v, f, w)),
        }
    }
    None
}

// ------------------------------------------------------------------ references of another context

/// References with every small index, made in contexts of their own.
pub struct Farm {
    pub pkgs: Vec<PackageRef>,
    pub msgs: Vec<MessageRef>,
    pub oneofs: Vec<OneofRef>,
}

pub const FARM: usize = 80;

impl Farm {
    pub fn new() -> Farm {
        let mut c = Context::new();
        let pkgs: Vec<PackageRef> = (0..FARM).map(|i| c.insert_package(Package::new(Some(format!("k{}", i)))).expect("package")).collect();
        let mut msgs = vec![];
        let mut oneofs = vec![];
        for i in 0..FARM {
            let mut m = MessageInfo::new(format!("K{}", i), TypeParent::Package(pkgs[0]));
            if i == 0 {
                oneofs = (0..24).map(|k| m.add_oneof(Oneof::new(format!("o{}", k))).expect("oneof")).collect();
            }
            msgs.push(c.insert_message(m).expect("message"));
        }
        Farm { pkgs, msgs, oneofs }
    }
}

// ------------------------------------------------------------------ drawing operations

pub const NAMES: &[&str] = &["f0", "f1", "f2", "f3", "f4", "f5", "x", "optional", "", "f0_", "F0"];
pub const VALUES: &[i64] = &[0, 1, 2, 3, -1, -2, i64::MAX, i64::MIN, 1 << 32];

pub fn opts() -> Opts {
    if chance(1, 4) {
        vec![("packed".into(), Con::Bool(chance(1, 2))), ("(x.y)".into(), Con::Int(below(9) as i64))]
    } else {
        vec![]
    }
}

/// A type a field can have here: a scalar or one the context has.
pub fn field_type(model: &Model, ctx: &Context) -> (TyI, ValueType) {
    let n = model.msgs.len() + model.enums.len();
    if n == 0 || chance(1, 2) {
        let s = pick(&SCALARS);
        return (TyI::S(s), crate::schema::scalar_type(s));
    }
    let k = us(n);
    if k < model.msgs.len() {
        let full = model.msgs.keys().nth(k).unwrap();
        if let Some(m) = ctx.get_message(full) {
            return (TyI::Msg(full.clone()), ValueType::Message(m.self_ref));
        }
    } else {
        let full = model.enums.keys().nth(k - model.msgs.len()).unwrap();
        if let Some(TypeInfo::Enum(e)) = ctx.get_type(full) {
            return (TyI::Enum(full.clone()), ValueType::Enum(e.self_ref));
        }
    }
    (TyI::S(SCALARS[0]), crate::schema::scalar_type(SCALARS[0]))
}

pub fn small_number() -> u64 {
    match weighted(&[12, 2, 1]) {
        0 => 1 + below(7),
        1 => gen::number(),
        _ => pick(&[0, u64::MAX, 1 << 61, 536870911]),
    }
}

/// An addition to a message. `own` are the references of the oneofs it has.
pub fn draw_op(m: &MsgI, t: &MessageInfo, own: &[OneofRef], model: &Model, ctx: &Context, farm: &Farm) -> Op {
    let _ = t;
    if chance(1, 3) {
        // An oneof: often of fields that are there, sometimes with one that is not or is taken.
        let mut fields: Vec<u64> = vec![];
        let have: Vec<u64> = m.fields.keys().cloned().collect();
        for _ in 0..weighted(&[3, 3, 2, 2]) {
            let f = if have.is_empty() || chance(1, 4) { small_number() } else { have[us(have.len())] };
            if !fields.contains(&f) {
                fields.push(f);
            }
        }
        return Op::Oneof(pick(&["o0", "o1", "o2", "o3", "f0", "choice"]).to_string(), fields, opts());
    }
    let (ty, vt) = field_type(model, ctx);
    let packable = matches!(ty, TyI::S(s) if s.wt() != 2);
    let mult = match weighted(&[4, 2, if packable { 3 } else { 1 }, 1]) {
        0 => Mult::Single,
        1 => Mult::Repeated,
        2 => Mult::Packed,
        _ => Mult::Optional,
    };
    let oneof = match weighted(&[6, if own.is_empty() { 0 } else { 4 }, 1]) {
        0 => None,
        1 => {
            let k = us(own.len());
            Some((own[k], Some(k)))
        }
        _ => {
            // One this message does not have.
            let r = farm.oneofs[(own.len() + us(4)).min(farm.oneofs.len() - 1)];
            match own.iter().position(|x| *x == r) {
                Some(k) => Some((r, Some(k))),
                None => Some((r, None)),
            }
        }
    };
    let name = member_name();
    Op::Field(FieldOp { name, number: small_number(), ty, vt, mult, opts: opts(), oneof })
}

pub fn draw_value() -> Op {
    let v = if chance(1, 6) { tape::u64_() as i64 } else { pick(VALUES) };
    let name = member_name();
    Op::Value(name, v, opts())
}

/// Names that differ behind any limit, or only in their length.
fn long_name(c: char) -> String {
    let mut s: String = std::iter::repeat(c).take(pick(&[64, 63, 32, 255, 256, 1000])).collect();
    s.push_str(pick(&["", "x", "y", "yx"]));
    s
}

pub fn member_name() -> String {
    match us(24) {
        0 | 1 => gen::text(us(6)),
        2 => long_name('f'),
        _ => pick(NAMES).to_string(),
    }
}

pub fn type_name() -> String {
    if chance(1, 16) {
        return long_name('T');
    }
    match weighted(&[12, 2, 1]) {
        0 => pick(&["A", "B", "C", "D", "E", "F"]).to_string(),
        1 => format!("T{}", range(0, 50)),
        _ => pick(&["A.B", "B.C", "a", "", "A "]).to_string(),
    }
}

pub fn package_name() -> Option<String> {
    if chance(1, 10) {
        let n = long_name('p');
        return Some(if chance(1, 2) { n } else { format!("a.{}", n) });
    }
    pick(&[Some("a"), None, Some(""), Some("a.b"), Some("b"), Some("A"), Some("a.A"), Some("a.b.A"), Some("p.q_r"), Some("c")]).map(|s: &str| s.to_string())
}
