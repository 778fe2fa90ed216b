//! Reference implementation of the proto3 wire format: the executable model decoding is
//! checked against, and the stub that plays "another implementation" as producer/consumer.
//! Written from the encoding specification and protofish's public documentation.

use bytes::Bytes;
use protofish::context::{Context, EnumRef, MessageRef};
use protofish::decode::{EnumValue, FieldValue, MessageValue, PackedArray, UnknownValue, Value};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Sc {
    Double,
    Float,
    Int32,
    Int64,
    UInt32,
    UInt64,
    SInt32,
    SInt64,
    Fixed32,
    Fixed64,
    SFixed32,
    SFixed64,
    Bool,
    String,
    Bytes,
}
use Sc::*;
pub const SCALARS: [Sc; 15] = [
    Int32, Bool, String, UInt64, Bytes, SInt32, SInt64, Int64, UInt32, Double, Float, Fixed32, Fixed64, SFixed32, SFixed64,
];

impl Sc {
    pub fn wt(self) -> u8 {
        match self {
            Double | Fixed64 | SFixed64 => 1,
            Float | Fixed32 | SFixed32 => 5,
            String | Bytes => 2,
            _ => 0,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Double => "double",
            Float => "float",
            Int32 => "int32",
            Int64 => "int64",
            UInt32 => "uint32",
            UInt64 => "uint64",
            SInt32 => "sint32",
            SInt64 => "sint64",
            Fixed32 => "fixed32",
            Fixed64 => "fixed64",
            SFixed32 => "sfixed32",
            SFixed64 => "sfixed64",
            Bool => "bool",
            String => "string",
            Bytes => "bytes",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    S(Sc),
    Msg(usize),
    Enum(usize),
}
impl Ty {
    pub fn wt(self) -> u8 {
        match self {
            Ty::S(s) => s.wt(),
            Ty::Msg(_) => 2,
            Ty::Enum(_) => 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mult {
    Single,
    Repeated,
    Packed,
    Optional,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub number: u64,
    pub name: std::string::String,
    pub ty: Ty,
    pub mult: Mult,
    pub oneof: Option<usize>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Msg {
    pub full: std::string::String,
    pub parent: Option<usize>,
    pub fields: BTreeMap<u64, Field>,
    pub oneofs: usize,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct World {
    pub pkg: Option<std::string::String>,
    pub msgs: Vec<Msg>,
    pub enums: Vec<std::string::String>,
    pub enum_parent: Vec<Option<usize>>,
}

/// A value. Numbers are kept as bits: floats by their bit pattern, 32-bit types
/// zero-extended from their own 32 bits, bool as 0/1.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Num(Sc, u64),
    Str(std::string::String),
    Byt(Vec<u8>),
    Packed(Sc, Vec<u64>),
    Msg(Box<M>),
    Enum(usize, i64),
    Inc(u8, Vec<u8>),
    UVar(u128),
    U64(u64),
    U32(u32),
    ULen(Vec<u8>),
    UInv(u8, Vec<u8>),
    /// A kind of value the model does not know.
    Other,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct M {
    pub ty: usize,
    pub f: Vec<(u64, V)>,
    pub garbage: Option<Vec<u8>>,
}

// ------------------------------------------------------------------ primitives

/// Reads a varint of at most ten bytes that fits 64 bits.
/// Returns (value, length, shortest form?).
pub fn varint(d: &[u8]) -> Option<(u64, usize, bool)> {
    let mut v = 0u64;
    for (i, b) in d.iter().enumerate() {
        if i == 10 || (i == 9 && *b > 1) {
            return None;
        }
        v |= ((b & 0x7f) as u64) << (7 * i);
        if b & 0x80 == 0 {
            return Some((v, i + 1, i == 0 || *b != 0));
        }
    }
    None
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// A varint padded to `n` bytes (n no shorter than needed, at most 10).
pub fn put_varint_padded(out: &mut Vec<u8>, v: u64, n: usize) {
    let mut t = vec![];
    put_varint(&mut t, v);
    while t.len() < n.min(10) {
        let l = t.len();
        t[l - 1] |= 0x80;
        t.push(0);
    }
    out.extend_from_slice(&t);
}

/// Wire varint -> value bits of a varint-typed scalar.
pub fn from_wire(s: Sc, w: u64) -> u64 {
    match s {
        Int32 | UInt32 => w as u32 as u64,
        Int64 | UInt64 => w,
        SInt32 => {
            let n = w as u32;
            ((n >> 1) ^ (0u32.wrapping_sub(n & 1))) as u64
        }
        SInt64 => (w >> 1) ^ (0u64.wrapping_sub(w & 1)),
        Bool => (w != 0) as u64,
        _ => unreachable!(),
    }
}

/// Value bits -> canonical wire varint.
pub fn to_wire(s: Sc, v: u64) -> u64 {
    match s {
        Int32 => v as u32 as i32 as i64 as u64,
        UInt32 | Int64 | UInt64 | Bool => v,
        SInt32 => {
            let x = v as u32 as i32;
            ((x << 1) ^ (x >> 31)) as u32 as u64
        }
        SInt64 => {
            let x = v as i64;
            ((x << 1) ^ (x >> 63)) as u64
        }
        _ => unreachable!(),
    }
}

pub fn put_scalar(out: &mut Vec<u8>, s: Sc, v: u64) {
    match s.wt() {
        0 => put_varint(out, to_wire(s, v)),
        1 => out.extend_from_slice(&v.to_le_bytes()),
        5 => out.extend_from_slice(&(v as u32).to_le_bytes()),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ encoding

impl V {
    pub fn wt(&self) -> u8 {
        match self {
            V::Num(s, _) => s.wt(),
            V::Str(_) | V::Byt(_) | V::Packed(..) | V::Msg(_) | V::ULen(_) => 2,
            V::Enum(..) | V::UVar(_) => 0,
            V::U64(_) => 1,
            V::U32(_) => 5,
            V::Inc(w, _) | V::UInv(w, _) => *w,
            V::Other => 6,
        }
    }
    pub fn known(&self) -> bool {
        matches!(self, V::Num(..) | V::Str(_) | V::Byt(_) | V::Packed(..) | V::Msg(_) | V::Enum(..))
    }
}

pub fn encode(m: &M) -> Vec<u8> {
    let mut out = vec![];
    for (n, v) in &m.f {
        put_varint(&mut out, (n << 3) | v.wt() as u64);
        encode_value(&mut out, v);
    }
    if let Some(g) = &m.garbage {
        out.extend_from_slice(g);
    }
    out
}

fn put_len(out: &mut Vec<u8>, b: &[u8]) {
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

pub fn encode_value(out: &mut Vec<u8>, v: &V) {
    match v {
        V::Num(s, x) => put_scalar(out, *s, *x),
        V::Str(s) => put_len(out, s.as_bytes()),
        V::Byt(b) | V::ULen(b) => put_len(out, b),
        V::Packed(s, xs) => {
            let mut t = vec![];
            for x in xs {
                put_scalar(&mut t, *s, *x);
            }
            put_len(out, &t);
        }
        V::Msg(m) => put_len(out, &encode(m)),
        V::Enum(_, x) => put_varint(out, *x as u64),
        V::UVar(x) => put_varint(out, *x as u64),
        V::U64(x) => out.extend_from_slice(&x.to_le_bytes()),
        V::U32(x) => out.extend_from_slice(&x.to_le_bytes()),
        V::Inc(_, b) | V::UInv(_, b) => out.extend_from_slice(b),
        V::Other => {}
    }
}

// ------------------------------------------------------------------ decoding

#[derive(Clone, Debug, PartialEq)]
pub struct Span {
    pub tag: usize,
    pub val: usize,
    /// Start of the content of a length-delimited value, else `val`.
    pub content: usize,
    pub end: usize,
    pub number: u64,
    pub wt: u8,
    pub kids: Vec<Span>,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub noncanonical: bool,
    /// Deepest nesting of messages the schema knows (1 = flat).
    pub depth: usize,
    /// Something was nested too deeply to be decoded.
    pub too_deep: bool,
    pub spans: Vec<Span>,
    pub damaged: bool,
}

/// Messages nested deeper than this are kept as they are, undecoded.
pub const REF_DEPTH: usize = 100;

pub fn decode(w: &World, ty: usize, d: &[u8]) -> (M, Info) {
    let mut info = Info::default();
    let (m, spans) = dec(w, ty, d, 0, 1, &mut info);
    info.spans = spans;
    (m, info)
}

fn dec(w: &World, ty: usize, d: &[u8], base: usize, depth: usize, info: &mut Info) -> (M, Vec<Span>) {
    let mut m = M { ty, f: vec![], garbage: None };
    let mut spans = vec![];
    info.depth = info.depth.max(depth);
    let mut p = 0;
    while p < d.len() {
        let tag_at = p;
        let (tag, n, canon) = match varint(&d[p..]) {
            Some(t) => t,
            None => {
                m.garbage = Some(d[p..].to_vec());
                info.damaged = true;
                break;
            }
        };
        p += n;
        if !canon {
            info.noncanonical = true;
        }
        let number = tag >> 3;
        let wt = (tag & 7) as u8;
        let rest = &d[p..];
        let mut kids = vec![];
        let mut content = base + p;
        let field = w.msgs[ty].fields.get(&number);
        let (v, used) = value(w, field, wt, rest, base + p, depth, info, &mut kids, &mut content);
        if matches!(v, V::Inc(..) | V::UInv(..)) {
            info.damaged = true;
        }
        spans.push(Span { tag: base + tag_at, val: base + p, content, end: base + p + used, number, wt, kids });
        p += used;
        m.f.push((number, v));
    }
    (m, spans)
}

#[allow(clippy::too_many_arguments)]
fn value(
    w: &World, field: Option<&Field>, wt: u8, d: &[u8], base: usize, depth: usize, info: &mut Info,
    kids: &mut Vec<Span>, content: &mut usize,
) -> (V, usize) {
    let incomplete = || (V::Inc(wt, d.to_vec()), d.len());
    // A length-delimited value: length, then content.
    let delimited = |info: &mut Info| -> Option<(usize, usize)> {
        let (len, n, canon) = varint(d)?;
        if len > (d.len() - n) as u64 {
            return None;
        }
        if !canon {
            info.noncanonical = true;
        }
        Some((n, n + len as usize))
    };
    let known = match field {
        Some(f) => {
            if f.mult == Mult::Packed && matches!(f.ty, Ty::S(s) if s.wt() != 2) {
                if wt == 2 { Some((f, true)) } else { None }
            } else if f.mult == Mult::Packed {
                None
            } else if f.ty.wt() == wt {
                Some((f, false))
            } else {
                None
            }
        }
        None => None,
    };
    match known {
        Some((f, true)) => {
            let s = match f.ty {
                Ty::S(s) => s,
                _ => unreachable!(),
            };
            let (a, b) = match delimited(&mut Info::default()) {
                Some(x) => x,
                None => return incomplete(),
            };
            *content = base + a;
            let mut xs = vec![];
            let mut q = a;
            let mut local = Info::default();
            while q < b {
                let e = &d[q..b];
                match s.wt() {
                    0 => match varint(e) {
                        Some((x, n, canon)) => {
                            let val = from_wire(s, x);
                            if !canon || to_wire(s, val) != x {
                                local.noncanonical = true;
                            }
                            xs.push(val);
                            q += n;
                        }
                        None => return (V::Inc(wt, d[..b].to_vec()), b),
                    },
                    1 if e.len() >= 8 => {
                        xs.push(u64::from_le_bytes(e[..8].try_into().unwrap()));
                        q += 8;
                    }
                    5 if e.len() >= 4 => {
                        xs.push(u32::from_le_bytes(e[..4].try_into().unwrap()) as u64);
                        q += 4;
                    }
                    _ => return (V::Inc(wt, d[..b].to_vec()), b),
                }
            }
            let _ = delimited(info);
            info.noncanonical |= local.noncanonical;
            (V::Packed(s, xs), b)
        }
        Some((f, false)) => match f.ty {
            Ty::S(String) | Ty::S(Bytes) => match delimited(info) {
                None => incomplete(),
                Some((a, b)) => {
                    *content = base + a;
                    let raw = &d[a..b];
                    if f.ty == Ty::S(Bytes) {
                        (V::Byt(raw.to_vec()), b)
                    } else {
                        let s = std::string::String::from_utf8_lossy(raw).into_owned();
                        if s.as_bytes() != raw {
                            info.noncanonical = true;
                        }
                        (V::Str(s), b)
                    }
                }
            },
            Ty::Msg(t) => match delimited(info) {
                None => incomplete(),
                Some((a, b)) => {
                    *content = base + a;
                    if depth >= REF_DEPTH {
                        info.too_deep = true;
                        return (V::ULen(d[a..b].to_vec()), b);
                    }
                    let (m, k) = dec(w, t, &d[a..b], base + a, depth + 1, info);
                    *kids = k;
                    (V::Msg(Box::new(m)), b)
                }
            },
            Ty::Enum(e) => match varint(d) {
                None => incomplete(),
                Some((x, n, canon)) => {
                    if !canon {
                        info.noncanonical = true;
                    }
                    (V::Enum(e, x as i64), n)
                }
            },
            Ty::S(s) => match s.wt() {
                0 => match varint(d) {
                    None => incomplete(),
                    Some((x, n, canon)) => {
                        let val = from_wire(s, x);
                        if !canon || to_wire(s, val) != x {
                            info.noncanonical = true;
                        }
                        (V::Num(s, val), n)
                    }
                },
                1 if d.len() >= 8 => (V::Num(s, u64::from_le_bytes(d[..8].try_into().unwrap())), 8),
                5 if d.len() >= 4 => (V::Num(s, u32::from_le_bytes(d[..4].try_into().unwrap()) as u64), 4),
                _ => incomplete(),
            },
        },
        None => match wt {
            0 => match varint(d) {
                None => incomplete(),
                Some((x, n, canon)) => {
                    if !canon {
                        info.noncanonical = true;
                    }
                    (V::UVar(x as u128), n)
                }
            },
            1 if d.len() >= 8 => (V::U64(u64::from_le_bytes(d[..8].try_into().unwrap())), 8),
            5 if d.len() >= 4 => (V::U32(u32::from_le_bytes(d[..4].try_into().unwrap())), 4),
            1 | 5 => incomplete(),
            2 => match delimited(info) {
                None => incomplete(),
                Some((a, b)) => {
                    *content = base + a;
                    (V::ULen(d[a..b].to_vec()), b)
                }
            },
            _ => (V::UInv(wt, d.to_vec()), d.len()),
        },
    }
}

// ------------------------------------------------------------------ protofish <-> model

/// Which protofish references stand for which model types.
#[derive(Clone, Debug, Default)]
pub struct Bind {
    pub msgs: Vec<MessageRef>,
    pub enums: Vec<EnumRef>,
}

impl Bind {
    /// Looks every type of the model up by full name. None if one is missing.
    pub fn new(w: &World, ctx: &Context) -> Option<Bind> {
        let mut b = Bind::default();
        for m in &w.msgs {
            b.msgs.push(ctx.get_message(&m.full)?.self_ref);
        }
        for e in &w.enums {
            match ctx.get_type(e)? {
                protofish::context::TypeInfo::Enum(e) => b.enums.push(e.self_ref),
                _ => return None,
            }
        }
        Some(b)
    }
    fn msg(&self, r: MessageRef) -> usize {
        self.msgs.iter().position(|x| *x == r).unwrap_or(usize::MAX)
    }
    fn en(&self, r: EnumRef) -> usize {
        self.enums.iter().position(|x| *x == r).unwrap_or(usize::MAX)
    }
}

pub fn from_pf(v: &MessageValue, b: &Bind) -> M {
    M {
        ty: b.msg(v.msg_ref),
        f: v.fields.iter().map(|f| (f.number, value_from_pf(&f.value, b))).collect(),
        garbage: v.garbage.as_ref().map(|g| g.to_vec()),
    }
}

pub fn value_from_pf(v: &Value, b: &Bind) -> V {
    match v {
        Value::Double(x) => V::Num(Double, x.to_bits()),
        Value::Float(x) => V::Num(Float, x.to_bits() as u64),
        Value::Int32(x) => V::Num(Int32, *x as u32 as u64),
        Value::Int64(x) => V::Num(Int64, *x as u64),
        Value::UInt32(x) => V::Num(UInt32, *x as u64),
        Value::UInt64(x) => V::Num(UInt64, *x),
        Value::SInt32(x) => V::Num(SInt32, *x as u32 as u64),
        Value::SInt64(x) => V::Num(SInt64, *x as u64),
        Value::Fixed32(x) => V::Num(Fixed32, *x as u64),
        Value::Fixed64(x) => V::Num(Fixed64, *x),
        Value::SFixed32(x) => V::Num(SFixed32, *x as u32 as u64),
        Value::SFixed64(x) => V::Num(SFixed64, *x as u64),
        Value::Bool(x) => V::Num(Bool, *x as u64),
        Value::String(s) => V::Str(s.clone()),
        Value::Bytes(s) => V::Byt(s.to_vec()),
        Value::Packed(p) => packed_from_pf(p),
        Value::Message(m) => V::Msg(Box::new(from_pf(m, b))),
        Value::Enum(e) => V::Enum(b.en(e.enum_ref), e.value),
        Value::Incomplete(w, x) => V::Inc(*w, x.to_vec()),
        Value::Unknown(u) => match u {
            UnknownValue::Varint(x) => V::UVar(*x),
            UnknownValue::Fixed64(x) => V::U64(*x),
            UnknownValue::VariableLength(x) => V::ULen(x.to_vec()),
            UnknownValue::Fixed32(x) => V::U32(*x),
            UnknownValue::Invalid(w, x) => V::UInv(*w, x.to_vec()),
            #[allow(unreachable_patterns)]
            _ => V::Other,
        },
        #[allow(unreachable_patterns)]
        _ => V::Other,
    }
}

fn packed_from_pf(p: &PackedArray) -> V {
    match p {
        PackedArray::Double(v) => V::Packed(Double, v.iter().map(|x| x.to_bits()).collect()),
        PackedArray::Float(v) => V::Packed(Float, v.iter().map(|x| x.to_bits() as u64).collect()),
        PackedArray::Int32(v) => V::Packed(Int32, v.iter().map(|x| *x as u32 as u64).collect()),
        PackedArray::Int64(v) => V::Packed(Int64, v.iter().map(|x| *x as u64).collect()),
        PackedArray::UInt32(v) => V::Packed(UInt32, v.iter().map(|x| *x as u64).collect()),
        PackedArray::UInt64(v) => V::Packed(UInt64, v.clone()),
        PackedArray::SInt32(v) => V::Packed(SInt32, v.iter().map(|x| *x as u32 as u64).collect()),
        PackedArray::SInt64(v) => V::Packed(SInt64, v.iter().map(|x| *x as u64).collect()),
        PackedArray::Fixed32(v) => V::Packed(Fixed32, v.iter().map(|x| *x as u64).collect()),
        PackedArray::Fixed64(v) => V::Packed(Fixed64, v.clone()),
        PackedArray::SFixed32(v) => V::Packed(SFixed32, v.iter().map(|x| *x as u32 as u64).collect()),
        PackedArray::SFixed64(v) => V::Packed(SFixed64, v.iter().map(|x| *x as u64).collect()),
        PackedArray::Bool(v) => V::Packed(Bool, v.iter().map(|x| *x as u64).collect()),
        #[allow(unreachable_patterns)]
        _ => V::Other,
    }
}

pub fn to_pf(m: &M, b: &Bind) -> MessageValue {
    MessageValue {
        msg_ref: b.msgs[m.ty],
        fields: m.f.iter().map(|(n, v)| FieldValue { number: *n, value: value_to_pf(v, b) }).collect(),
        garbage: m.garbage.as_ref().map(|g| Bytes::copy_from_slice(g)),
    }
}

pub fn value_to_pf(v: &V, b: &Bind) -> Value {
    match v {
        V::Num(s, x) => {
            let x = *x;
            match s {
                Double => Value::Double(f64::from_bits(x)),
                Float => Value::Float(f32::from_bits(x as u32)),
                Int32 => Value::Int32(x as u32 as i32),
                Int64 => Value::Int64(x as i64),
                UInt32 => Value::UInt32(x as u32),
                UInt64 => Value::UInt64(x),
                SInt32 => Value::SInt32(x as u32 as i32),
                SInt64 => Value::SInt64(x as i64),
                Fixed32 => Value::Fixed32(x as u32),
                Fixed64 => Value::Fixed64(x),
                SFixed32 => Value::SFixed32(x as u32 as i32),
                SFixed64 => Value::SFixed64(x as i64),
                Bool => Value::Bool(x != 0),
                String | Bytes => unreachable!(),
            }
        }
        V::Str(s) => Value::String(s.clone()),
        V::Byt(x) => Value::Bytes(Bytes::copy_from_slice(x)),
        V::Packed(s, v) => Value::Packed(match s {
            Double => PackedArray::Double(v.iter().map(|x| f64::from_bits(*x)).collect()),
            Float => PackedArray::Float(v.iter().map(|x| f32::from_bits(*x as u32)).collect()),
            Int32 => PackedArray::Int32(v.iter().map(|x| *x as u32 as i32).collect()),
            Int64 => PackedArray::Int64(v.iter().map(|x| *x as i64).collect()),
            UInt32 => PackedArray::UInt32(v.iter().map(|x| *x as u32).collect()),
            UInt64 => PackedArray::UInt64(v.clone()),
            SInt32 => PackedArray::SInt32(v.iter().map(|x| *x as u32 as i32).collect()),
            SInt64 => PackedArray::SInt64(v.iter().map(|x| *x as i64).collect()),
            Fixed32 => PackedArray::Fixed32(v.iter().map(|x| *x as u32).collect()),
            Fixed64 => PackedArray::Fixed64(v.clone()),
            SFixed32 => PackedArray::SFixed32(v.iter().map(|x| *x as u32 as i32).collect()),
            SFixed64 => PackedArray::SFixed64(v.iter().map(|x| *x as i64).collect()),
            Bool => PackedArray::Bool(v.iter().map(|x| *x != 0).collect()),
            String | Bytes => unreachable!(),
        }),
        V::Msg(m) => Value::Message(Box::new(to_pf(m, b))),
        V::Enum(e, x) => Value::Enum(EnumValue { enum_ref: b.enums[*e], value: *x }),
        V::Inc(w, x) => Value::Incomplete(*w, Bytes::copy_from_slice(x)),
        V::UVar(x) => Value::Unknown(UnknownValue::Varint(*x)),
        V::U64(x) => Value::Unknown(UnknownValue::Fixed64(*x)),
        V::U32(x) => Value::Unknown(UnknownValue::Fixed32(*x)),
        V::ULen(x) => Value::Unknown(UnknownValue::VariableLength(Bytes::copy_from_slice(x))),
        V::UInv(w, x) => Value::Unknown(UnknownValue::Invalid(*w, Bytes::copy_from_slice(x))),
        V::Other => unreachable!("the reference never makes one"),
    }
}

/// Compact rendering for messages to people.
pub fn hex(b: &[u8]) -> std::string::String {
    let mut s = std::string::String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn show(m: &M) -> std::string::String {
    let mut s = format!("{:?}", m);
    if s.len() > 900 {
        let mut k = 900;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
    s
}
