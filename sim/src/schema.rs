//! Sets of .proto files: abstract syntax, rendering, generator, and the reference model of
//! what loading them must produce (written from the language rules and the documentation).

use crate::gen;
use crate::shm::P;
use crate::tape::{self, below, chance, count, pick, range, us, weighted};
use crate::wire::{Field, Msg, Sc, Ty, World, SCALARS};
use protofish::context::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ abstract syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Con {
    Ident(String),
    Int(i64),
    Float(f64),
    Str(Vec<u8>),
    Bool(bool),
}
pub type Opts = Vec<(String, Con)>;

#[derive(Clone, Debug, PartialEq)]
pub enum FT {
    S(Sc),
    Ref(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Label {
    None,
    Repeated,
    Optional,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fld {
    pub name: String,
    pub number: u64,
    pub label: Label,
    /// Some(key type) for a map field; `ty` is then the type of the map's values.
    pub map: Option<Sc>,
    pub ty: FT,
    pub opts: Opts,
}
#[derive(Clone, Debug, PartialEq)]
pub struct One {
    pub name: String,
    pub fields: Vec<Fld>,
    pub opts: Opts,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    F(Fld),
    O(One),
    M(MsgD),
    E(EnumD),
    Empty,
    Reserved,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MsgD {
    pub name: String,
    pub body: Vec<Body>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct EnumD {
    pub name: String,
    pub vals: Vec<(String, i64, Opts)>,
    pub opts: Opts,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RpcD {
    pub name: String,
    pub inp: (bool, String),
    pub out: (bool, String),
    pub opts: Opts,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SvcD {
    pub name: String,
    pub rpcs: Vec<RpcD>,
    pub opts: Opts,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    M(MsgD),
    E(EnumD),
    S(SvcD),
    Empty,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FileD {
    pub pkg: Option<String>,
    pub imports: Vec<String>,
    pub opts: Opts,
    pub items: Vec<Item>,
    /// Seed of the layout: white space, comments, number bases.
    pub style: u64,
}

// ------------------------------------------------------------------ rendering

struct Pr {
    out: String,
    x: u64,
    plain: bool,
    ind: usize,
}

impl Pr {
    fn r(&mut self, n: u64) -> u64 {
        if self.plain { 0 } else { tape::splitmix(&mut self.x) % n }
    }
    fn t(&mut self, s: &str) {
        let wordish = |c: char| c.is_alphanumeric() || matches!(c, '_' | '.' | '-' | '+');
        let need = self.out.chars().last().map_or(false, wordish) && s.chars().next().map_or(false, wordish);
        let sep = match self.r(14) {
            0..=8 => " ",
            9 | 10 => "",
            11 => "\n",
            12 => "\r\n\t",
            _ => match self.r(4) {
                0 => " /* message C { } */ ",
                1 => " // enum \" x\n",
                2 => "\t",
                _ => "/**/",
            },
        };
        // "/**/" next to '/' or a sign could change the tokens; a blank never does.
        let sep = if need && sep.is_empty() { " " } else { sep };
        if !self.out.is_empty() {
            self.out.push_str(sep);
        }
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        if self.plain || self.r(3) > 0 {
            self.out.push('\n');
            for _ in 0..self.ind {
                self.out.push_str("  ");
            }
        }
    }
    fn num(&mut self, v: i64) -> String {
        match self.r(12) {
            4 if v > 0 => format!("{:#x}", v),
            1 if v > 0 => format!("0{:o}", v),
            2 if v < 0 => format!("-0x{:X}", (v as i128).unsigned_abs()),
            3 if v > 0 => format!("0X{:X}", v),
            _ => v.to_string(),
        }
    }
    fn con(&mut self, c: &Con) -> String {
        match c {
            Con::Ident(s) => s.clone(),
            Con::Int(v) => self.num(*v),
            Con::Float(f) => {
                if f.is_infinite() {
                    "inf".into()
                } else {
                    // The grammar only reaches fractions that start with the point.
                    format!("{}", f).trim_start_matches('0').to_string()
                }
            }
            Con::Bool(b) => b.to_string(),
            Con::Str(s) => {
                let q = if self.r(3) == 2 { '\'' } else { '"' };
                let mut o = String::new();
                o.push(q);
                let text = std::str::from_utf8(s).ok();
                let esc = |b: u8, k: u64| match (b, k) {
                    (b'\n', _) => "\\n".to_string(),
                    (b'\\', _) => "\\\\".into(),
                    (b'\'', _) => "\\'".into(),
                    (b'"', _) => "\\\"".into(),
                    (b, 0) => format!("\\x{:02x}", b),
                    (b, _) => format!("\\{:03o}", b),
                };
                match text {
                    Some(t) if !t.is_empty() => {
                        for c in t.chars() {
                            if (c as u32) < 32 || matches!(c, '\\' | '\'' | '"') {
                                let k = self.r(2);
                                o.push_str(&esc(c as u8, k));
                            } else {
                                o.push(c);
                            }
                        }
                    }
                    _ => {
                        for b in s {
                            let k = self.r(2);
                            o.push_str(&esc(*b, k));
                        }
                    }
                }
                o.push(q);
                o
            }
        }
    }
    fn optlist(&mut self, o: &Opts) {
        if o.is_empty() {
            return;
        }
        self.t("[");
        for (i, (n, c)) in o.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.t(n);
            self.t("=");
            let c = self.con(c);
            self.t(&c);
        }
        self.t("]");
    }
    fn options(&mut self, o: &Opts) {
        for (n, c) in o {
            self.nl();
            self.t("option");
            self.t(n);
            self.t("=");
            let c = self.con(c);
            self.t(&c);
            self.t(";");
        }
    }
    fn ty(&mut self, t: &FT) {
        match t {
            FT::S(s) => self.t(s.name()),
            FT::Ref(r) => self.t(r),
        }
    }
    fn field(&mut self, f: &Fld) {
        self.nl();
        if let Some(k) = f.map {
            self.t("map");
            self.t("<");
            self.t(k.name());
            self.t(",");
            self.ty(&f.ty);
            self.t(">");
        } else {
            match f.label {
                Label::None => {}
                Label::Repeated => self.t("repeated"),
                Label::Optional => self.t("optional"),
            }
            self.ty(&f.ty);
        }
        self.t(&f.name);
        self.t("=");
        let n = self.num(f.number as i64);
        self.t(&n);
        self.optlist(&f.opts);
        self.t(";");
    }
    fn msg(&mut self, m: &MsgD) {
        self.nl();
        self.t("message");
        self.t(&m.name);
        self.t("{");
        self.ind += 1;
        for b in &m.body {
            match b {
                Body::F(f) => self.field(f),
                Body::M(m) => self.msg(m),
                Body::E(e) => self.en(e),
                Body::Empty => self.t(";"),
                Body::Reserved => {
                    self.nl();
                    for x in ["reserved", "1000", ",", "2000", "to", "2005", ",", "3000", "to", "max", ";"] {
                        self.t(x);
                    }
                }
                Body::O(o) => {
                    self.nl();
                    self.t("oneof");
                    self.t(&o.name);
                    self.t("{");
                    self.ind += 1;
                    self.options(&o.opts);
                    for f in &o.fields {
                        self.field(f);
                    }
                    self.ind -= 1;
                    self.t("}");
                }
            }
        }
        self.ind -= 1;
        self.nl();
        self.t("}");
    }
    fn en(&mut self, e: &EnumD) {
        self.nl();
        self.t("enum");
        self.t(&e.name);
        self.t("{");
        self.ind += 1;
        self.options(&e.opts);
        for (n, v, o) in &e.vals {
            self.nl();
            self.t(n);
            self.t("=");
            let v = self.num(*v);
            self.t(&v);
            self.optlist(o);
            self.t(";");
        }
        self.ind -= 1;
        self.nl();
        self.t("}");
    }
    fn svc(&mut self, s: &SvcD) {
        self.nl();
        self.t("service");
        self.t(&s.name);
        self.t("{");
        self.ind += 1;
        // Options may stand anywhere.
        let k = self.r(s.rpcs.len() as u64 + 1) as usize;
        for (i, r) in s.rpcs.iter().enumerate() {
            if i == k {
                self.options(&s.opts);
            }
            self.nl();
            self.t("rpc");
            self.t(&r.name);
            self.t("(");
            if r.inp.0 {
                self.t("stream");
            }
            self.t(&r.inp.1);
            self.t(")");
            self.t("returns");
            self.t("(");
            if r.out.0 {
                self.t("stream");
            }
            self.t(&r.out.1);
            self.t(")");
            if !r.opts.is_empty() || self.r(3) == 1 {
                self.t("{");
                self.options(&r.opts);
                if self.r(4) == 1 {
                    self.t(";");
                }
                self.t("}");
            } else {
                self.t(";");
            }
        }
        if k >= s.rpcs.len() {
            self.options(&s.opts);
        }
        self.ind -= 1;
        self.nl();
        self.t("}");
    }
}

pub fn render(f: &FileD) -> String {
    let mut p = Pr { out: String::new(), x: f.style, plain: f.style == 0, ind: 0 };
    p.out.push_str("syntax");
    for x in ["=", "\"proto3\"", ";"] {
        p.t(x);
    }
    let pkg_late = p.r(4) == 1;
    let pkg = |p: &mut Pr| {
        if let Some(n) = &f.pkg {
            p.nl();
            p.t("package");
            p.t(n);
            p.t(";");
        }
    };
    if !pkg_late {
        pkg(&mut p);
    }
    for i in &f.imports {
        p.nl();
        p.t("import");
        if p.r(4) == 1 {
            p.t("public");
        }
        p.t(&format!("\"{}\"", i));
        p.t(";");
    }
    if pkg_late {
        pkg(&mut p);
    }
    p.options(&f.opts);
    for i in &f.items {
        match i {
            Item::M(m) => p.msg(m),
            Item::E(e) => p.en(e),
            Item::S(s) => p.svc(s),
            Item::Empty => p.t(";"),
        }
    }
    p.out.push('\n');
    if p.r(6) == 1 {
        p.out.insert(0, '\u{feff}');
    }
    p.out
}

// ------------------------------------------------------------------ reference model

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Msg,
    Enum,
    Svc,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TyI {
    S(Sc),
    Msg(String),
    Enum(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct FldI {
    pub name: String,
    pub mult: crate::wire::Mult,
    pub ty: TyI,
    pub opts: Opts,
    pub oneof: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct MsgI {
    pub name: String,
    pub file: usize,
    pub parent: Option<String>,
    pub fields: BTreeMap<u64, FldI>,
    pub oneofs: Vec<(String, BTreeSet<u64>, Opts)>,
    pub inner: BTreeSet<String>,
}
#[derive(Clone, Debug, Default)]
pub struct EnumI {
    pub name: String,
    pub file: usize,
    pub parent: Option<String>,
    pub vals: BTreeMap<i64, Vec<(String, Opts)>>,
}
#[derive(Clone, Debug)]
pub struct RpcI {
    pub name: String,
    pub inp: (bool, String),
    pub out: (bool, String),
    pub opts: Opts,
}
#[derive(Clone, Debug, Default)]
pub struct SvcI {
    pub name: String,
    pub file: usize,
    pub rpcs: Vec<RpcI>,
    pub opts: Opts,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub pkgs: Vec<Option<String>>,
    pub msgs: BTreeMap<String, MsgI>,
    pub enums: BTreeMap<String, EnumI>,
    pub svcs: BTreeMap<String, SvcI>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Dup(String),
    Missing { name: String, context: String },
    Kind { name: String, context: String },
}

pub type Names = BTreeMap<String, Kind>;

fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() { name.to_string() } else { format!("{}.{}", scope, name) }
}

pub fn map_entry(name: &str) -> String {
    let mut e = String::new();
    for part in name.split('_') {
        let mut c = part.chars();
        if let Some(f) = c.next() {
            e.push(f.to_ascii_uppercase());
        }
        e.push_str(c.as_str());
    }
    e + "Entry"
}

fn collect_msg(m: &MsgD, scope: &str, out: &mut Vec<(String, Kind)>) {
    let full = join(scope, &m.name);
    out.push((full.clone(), Kind::Msg));
    for b in &m.body {
        match b {
            Body::M(i) => collect_msg(i, &full, out),
            Body::E(e) => out.push((join(&full, &e.name), Kind::Enum)),
            Body::F(f) if f.map.is_some() => out.push((join(&full, &map_entry(&f.name)), Kind::Msg)),
            _ => {}
        }
    }
}

/// Every full name a file defines.
pub fn defined(f: &FileD) -> Vec<(String, Kind)> {
    let mut v = vec![];
    let scope = f.pkg.as_deref().unwrap_or("");
    for i in &f.items {
        match i {
            Item::M(m) => collect_msg(m, scope, &mut v),
            Item::E(e) => v.push((join(scope, &e.name), Kind::Enum)),
            Item::S(s) => v.push((join(scope, &s.name), Kind::Svc)),
            Item::Empty => {}
        }
    }
    v
}

/// The definition `r` denotes when written inside `scope`: that in the innermost enclosing
/// scope which has the name.
pub fn resolve(names: &Names, r: &str, scope: &str) -> Option<(String, Kind)> {
    if let Some(a) = r.strip_prefix('.') {
        return names.get(a).map(|k| (a.to_string(), *k));
    }
    let mut s = scope;
    loop {
        let c = join(s, r);
        if let Some(k) = names.get(&c) {
            return Some((c, *k));
        }
        if s.is_empty() {
            return None;
        }
        s = s.rfind('.').map_or("", |i| &s[..i]);
    }
}

struct Ld<'a> {
    names: &'a Names,
    bad: Vec<Bad>,
    m: Model,
}

impl Ld<'_> {
    fn ty(&mut self, t: &FT, scope: &str) -> TyI {
        let r = match t {
            FT::S(s) => return TyI::S(*s),
            FT::Ref(r) => r,
        };
        let found = resolve(self.names, r, scope);
        if let Some((f, _)) = &found {
            // Is there another definition of that name further out?
            let inner = f.strip_suffix(r.as_str()).map(|s| s.trim_end_matches('.'));
            if let Some(s) = inner.filter(|s| !s.is_empty() && !r.starts_with('.')) {
                if resolve(self.names, r, s.rfind('.').map_or("", |i| &s[..i])).is_some() {
                    P::Shadow.hit();
                }
            }
        }
        match found {
            Some((f, Kind::Msg)) => TyI::Msg(f),
            Some((f, Kind::Enum)) => TyI::Enum(f),
            Some((_, Kind::Svc)) => {
                self.bad.push(Bad::Kind { name: r.clone(), context: scope.into() });
                TyI::S(Sc::Bool)
            }
            None => {
                self.bad.push(Bad::Missing { name: r.clone(), context: scope.into() });
                TyI::S(Sc::Bool)
            }
        }
    }
    fn field(&mut self, f: &Fld, scope: &str, oneof: Option<usize>) -> FldI {
        use crate::wire::Mult;
        let ty = self.ty(&f.ty, scope);
        let mult = match f.label {
            Label::None => Mult::Single,
            Label::Optional => Mult::Optional,
            Label::Repeated => match &f.ty {
                FT::S(s) if s.wt() != 2 => match f.opts.iter().find(|o| o.0 == "packed") {
                    None => Mult::Packed,
                    Some((_, Con::Bool(true))) => Mult::Packed,
                    _ => Mult::Repeated,
                },
                _ => Mult::Repeated,
            },
        };
        FldI { name: f.name.clone(), mult, ty, opts: f.opts.clone(), oneof }
    }
    fn msg(&mut self, m: &MsgD, scope: &str, parent: Option<&str>, file: usize) {
        let full = join(scope, &m.name);
        let mut i = MsgI { name: m.name.clone(), file, parent: parent.map(|s| s.to_string()), ..Default::default() };
        for b in &m.body {
            match b {
                Body::F(f) => match f.map {
                    None => {
                        let x = self.field(f, &full, None);
                        i.fields.insert(f.number, x);
                    }
                    Some(k) => {
                        let en = map_entry(&f.name);
                        let ef = join(&full, &en);
                        let mk = |name: &str, number, ty| Fld { name: name.into(), number, label: Label::None, map: None, ty, opts: vec![] };
                        let e = MsgD { name: en, body: vec![Body::F(mk("key", 1, FT::S(k))), Body::F(mk("value", 2, f.ty.clone()))] };
                        self.msg(&e, &full, Some(&full), file);
                        i.inner.insert(ef.clone());
                        i.fields.insert(f.number, FldI { name: f.name.clone(), mult: crate::wire::Mult::Repeated, ty: TyI::Msg(ef), opts: f.opts.clone(), oneof: None });
                    }
                },
                Body::O(o) => {
                    let k = i.oneofs.len();
                    let mut nums = BTreeSet::new();
                    for f in &o.fields {
                        let x = self.field(f, &full, Some(k));
                        nums.insert(f.number);
                        i.fields.insert(f.number, x);
                    }
                    i.oneofs.push((o.name.clone(), nums, o.opts.clone()));
                }
                Body::M(x) => {
                    i.inner.insert(join(&full, &x.name));
                    self.msg(x, &full, Some(&full), file);
                }
                Body::E(e) => {
                    i.inner.insert(join(&full, &e.name));
                    self.en(e, &full, Some(&full), file);
                }
                Body::Empty | Body::Reserved => {}
            }
        }
        self.m.msgs.insert(full, i);
    }
    fn en(&mut self, e: &EnumD, scope: &str, parent: Option<&str>, file: usize) {
        let mut i = EnumI { name: e.name.clone(), file, parent: parent.map(|s| s.to_string()), ..Default::default() };
        for (n, v, o) in &e.vals {
            i.vals.entry(*v).or_default().push((n.clone(), o.clone()));
        }
        self.m.enums.insert(join(scope, &e.name), i);
    }
    fn arg(&mut self, a: &(bool, String), scope: &str) -> (bool, String) {
        match resolve(self.names, &a.1, scope) {
            Some((f, Kind::Msg)) => return (a.0, f),
            Some(_) => self.bad.push(Bad::Kind { name: a.1.clone(), context: scope.into() }),
            None => self.bad.push(Bad::Missing { name: a.1.clone(), context: scope.into() }),
        }
        (a.0, String::new())
    }
}

/// What loading these files in this order must give.
pub fn load(files: &[&FileD]) -> Result<Model, Vec<Bad>> {
    let mut names = Names::new();
    let mut bad = vec![];
    for f in files {
        for (n, k) in defined(f) {
            if names.insert(n.clone(), k).is_some() {
                bad.push(Bad::Dup(n));
            }
        }
    }
    let mut l = Ld { names: &names, bad, m: Model::default() };
    for (fi, f) in files.iter().enumerate() {
        l.m.pkgs.push(f.pkg.clone());
        let scope = f.pkg.as_deref().unwrap_or("");
        for i in &f.items {
            match i {
                Item::M(m) => l.msg(m, scope, None, fi),
                Item::E(e) => l.en(e, scope, None, fi),
                Item::S(s) => {
                    let full = join(scope, &s.name);
                    let mut x = SvcI { name: s.name.clone(), file: fi, opts: s.opts.clone(), rpcs: vec![] };
                    for r in &s.rpcs {
                        let inp = l.arg(&r.inp, &full);
                        let out = l.arg(&r.out, &full);
                        x.rpcs.push(RpcI { name: r.name.clone(), inp, out, opts: r.opts.clone() });
                    }
                    l.m.svcs.insert(full, x);
                }
                Item::Empty => {}
            }
        }
    }
    if l.bad.is_empty() { Ok(l.m) } else { Err(l.bad) }
}

/// Is this error one of the faults the set really has?
pub fn error_fits(bad: &[Bad], e: &ParseError) -> bool {
    match e {
        ParseError::DuplicateType { name } => bad.iter().any(|b| matches!(b, Bad::Dup(n) if n == name)),
        ParseError::TypeNotFound { name, context } => {
            bad.iter().any(|b| matches!(b, Bad::Missing { name: n, context: c } if n == name && c == context))
        }
        ParseError::InvalidTypeKind { type_name, expected, actual, .. } => {
            let last = |n: &str| n.rsplit('.').next().unwrap_or("").to_string();
            *expected == ItemType::Message
                && *actual != ItemType::Message
                && bad.iter().any(|b| matches!(b, Bad::Kind { name, .. } if last(name) == last(type_name)))
        }
        _ => false,
    }
}

/// The types of a loaded set, for drawing messages and for the reference decoder.
pub fn world(m: &Model) -> World {
    let mut w = World::default();
    let mi: BTreeMap<&String, usize> = m.msgs.keys().enumerate().map(|(i, k)| (k, i)).collect();
    let ei: BTreeMap<&String, usize> = m.enums.keys().enumerate().map(|(i, k)| (k, i)).collect();
    for (full, i) in &m.msgs {
        let fields = i.fields.iter().map(|(n, f)| {
            let ty = match &f.ty {
                TyI::S(s) => Ty::S(*s),
                TyI::Msg(t) => Ty::Msg(mi[t]),
                TyI::Enum(t) => Ty::Enum(ei[t]),
            };
            (*n, Field { number: *n, name: f.name.clone(), ty, mult: f.mult, oneof: f.oneof })
        });
        w.msgs.push(Msg { full: full.clone(), parent: i.parent.as_ref().map(|p| mi[p]), fields: fields.collect(), oneofs: i.oneofs.len() });
    }
    for (full, i) in &m.enums {
        w.enums.push(full.clone());
        w.enum_parent.push(i.parent.as_ref().map(|p| mi[p]));
    }
    w
}

// ------------------------------------------------------------------ context against model

fn con_eq(a: &Constant, b: &Con) -> bool {
    match (a, b) {
        (Constant::Ident(x), Con::Ident(y)) => x == y,
        (Constant::Integer(x), Con::Int(y)) => x == y,
        (Constant::Float(x), Con::Float(y)) => x == y,
        (Constant::String(x), Con::Str(y)) => x[..] == y[..],
        (Constant::Bool(x), Con::Bool(y)) => x == y,
        _ => false,
    }
}
pub fn opts_eq(a: &[ProtoOption], b: &Opts) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.name == y.0 && con_eq(&x.value, &y.1))
}

pub fn scalar_type(s: Sc) -> ValueType {
    gen::value_type(crate::wire::Ty::S(s), &Default::default())
}

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !$c { return Some(format!($($a)*)); } };
}

/// Compares a loaded context with the model through the public API. None = they agree.
pub fn disagree(m: &Model, ctx: &Context) -> Option<String> {
    let mut pkg_of_file: BTreeMap<usize, PackageRef> = BTreeMap::new();
    let mut same_pkg = |file: usize, p: TypeParent, full: &str| -> Option<String> {
        match p {
            TypeParent::Package(p) => {
                let q = *pkg_of_file.entry(file).or_insert(p);
                if q != p {
                    return Some(format!("{} has parent {:?} though others of its file have {:?}", full, p, q));
                }
                None
            }
            _ => Some(format!("{} is a top-level type with parent {:?}", full, p)),
        }
    };
    let parent_ok = |parent: &Option<String>, p: TypeParent| match (parent, p) {
        (Some(q), TypeParent::Message(r)) => ctx.resolve_message(r).full_name == *q,
        (None, TypeParent::Package(_)) => true,
        _ => false,
    };
    let full_of = |t: &TypeRef| match t {
        TypeRef::Message(r) => ctx.resolve_message(*r).full_name.clone(),
        TypeRef::Enum(r) => ctx.resolve_enum(*r).full_name.clone(),
    };
    for (full, i) in &m.msgs {
        let t = match ctx.get_type(full) {
            Some(TypeInfo::Message(t)) => t,
            o => return Some(format!("get_type({}) gives {:?}", full, o)),
        };
        want!(ctx.get_message(full).map_or(false, |x| std::ptr::eq(x, t)), "get_message({}) and get_type differ", full);
        want!(std::ptr::eq(ctx.resolve_message(t.self_ref), t), "the reference of {} denotes {}", full, ctx.resolve_message(t.self_ref).full_name);
        want!(t.name == i.name && t.full_name == *full, "{} is called {} / {}", full, t.name, t.full_name);
        want!(parent_ok(&i.parent, t.parent), "{} has parent {:?} instead of {:?}", full, t.parent, i.parent);
        if i.parent.is_none() {
            if let Some(e) = same_pkg(i.file, t.parent, full) {
                return Some(e);
            }
        }
        want!(ctx.get_service(full).is_none(), "{} is also found as a service", full);
        let inner: BTreeSet<String> = t.inner_types.iter().map(full_of).collect();
        want!(inner == i.inner && t.inner_types.len() == i.inner.len(), "{} contains {:?} instead of {:?}", full, inner, i.inner);
        let nums: Vec<u64> = t.iter_fields().map(|f| f.number).collect();
        let mut sorted = nums.clone();
        sorted.sort();
        want!(sorted.iter().eq(i.fields.keys()), "{} has fields {:?} instead of {:?}", full, nums, i.fields.keys().collect::<Vec<_>>());
        want!(t.oneofs.len() == i.oneofs.len(), "{} has {} oneofs instead of {}", full, t.oneofs.len(), i.oneofs.len());
        for (k, o) in t.oneofs.iter().enumerate() {
            let w = &i.oneofs[k];
            let got: BTreeSet<u64> = o.fields.iter().cloned().collect();
            want!(o.name == w.0, "oneof #{} of {} is called {} instead of {}", k, full, o.name, w.0);
            want!(got == w.1 && o.fields.len() == w.1.len(), "oneof {} of {} has fields {:?} instead of {:?}", o.name, full, o.fields, w.1);
            want!(opts_eq(&o.options, &w.2), "oneof {} of {} has options {:?} instead of {:?}", o.name, full, o.options, w.2);
            want!(t.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o)), "the reference of oneof {} of {} denotes another", o.name, full);
        }
        for (n, w) in &i.fields {
            let f = match t.get_field(*n) {
                Some(f) => f,
                None => return Some(format!("{} has no field {} by number", full, n)),
            };
            want!(f.number == *n && f.name == w.name, "field {} of {} is {} = {} instead of {}", n, full, f.name, f.number, w.name);
            want!(t.get_field_by_name(&w.name).map_or(false, |x| std::ptr::eq(x, f)), "field {} of {} is not found by its name", w.name, full);
            want!(f.multiplicity == gen::mult(w.mult), "field {} of {} is {:?} instead of {:?}", w.name, full, f.multiplicity, w.mult);
            want!(opts_eq(&f.options, &w.opts), "field {} of {} has options {:?} instead of {:?}", w.name, full, f.options, w.opts);
            let ty_ok = match (&f.field_type, &w.ty) {
                (ValueType::Message(r), TyI::Msg(x)) => ctx.resolve_message(*r).full_name == *x,
                (ValueType::Enum(r), TyI::Enum(x)) => ctx.resolve_enum(*r).full_name == *x,
                (v, TyI::S(s)) => *v == scalar_type(*s),
                _ => false,
            };
            want!(ty_ok, "field {} of {} has type {:?} instead of {:?}{}", w.name, full, f.field_type, w.ty, match f.field_type {
                ValueType::Message(r) => format!(" (it denotes {})", ctx.resolve_message(r).full_name),
                ValueType::Enum(r) => format!(" (it denotes {})", ctx.resolve_enum(r).full_name),
                _ => String::new(),
            });
            let one_ok = match (f.oneof, w.oneof) {
                (None, None) => true,
                (Some(r), Some(k)) => t.get_oneof(r).map_or(false, |x| std::ptr::eq(x, &t.oneofs[k])),
                _ => false,
            };
            want!(one_ok, "field {} of {} has oneof {:?} instead of #{:?}", w.name, full, f.oneof, w.oneof);
        }
        want!(t.get_field_by_name("no_such_field").is_none(), "{} has a field it should not have", full);
    }
    for (full, i) in &m.enums {
        let t = match ctx.get_type(full) {
            Some(TypeInfo::Enum(t)) => t,
            o => return Some(format!("get_type({}) gives {:?}", full, o)),
        };
        want!(ctx.get_message(full).is_none(), "the enum {} is found as a message", full);
        want!(ctx.get_service(full).is_none(), "{} is also found as a service", full);
        want!(std::ptr::eq(ctx.resolve_enum(t.self_ref), t), "the reference of {} denotes {}", full, ctx.resolve_enum(t.self_ref).full_name);
        want!(t.name == i.name && t.full_name == *full, "{} is called {} / {}", full, t.name, t.full_name);
        want!(parent_ok(&i.parent, t.parent), "{} has parent {:?} instead of {:?}", full, t.parent, i.parent);
        if i.parent.is_none() {
            if let Some(e) = same_pkg(i.file, t.parent, full) {
                return Some(e);
            }
        }
        for (v, w) in &i.vals {
            let f = match t.get_field_by_value(*v) {
                Some(f) => f,
                None => return Some(format!("enum {} has no value {}", full, v)),
            };
            want!(f.value == *v && w.iter().any(|(n, o)| *n == f.name && opts_eq(&f.options, o)), "value {} of enum {} is {:?} instead of {:?}", v, full, f, w);
            for d in [v.wrapping_add(1), v.wrapping_sub(1)] {
                want!(i.vals.contains_key(&d) || t.get_field_by_value(d).is_none(), "enum {} has a value {} nobody declared", full, d);
            }
        }
    }
    for (full, i) in &m.svcs {
        let s = match ctx.get_service(full) {
            Some(s) => s,
            None => return Some(format!("service {} is not found", full)),
        };
        want!(ctx.get_type(full).is_none() && ctx.get_message(full).is_none(), "the service {} is found as a type", full);
        want!(s.name == i.name && s.full_name == *full, "service {} is called {} / {}", full, s.name, s.full_name);
        if let Some(e) = same_pkg(i.file, TypeParent::Package(s.parent), full) {
            return Some(e);
        }
        want!(opts_eq(&s.options, &i.opts), "service {} has options {:?} instead of {:?}", full, s.options, i.opts);
        want!(s.rpcs.len() == i.rpcs.len(), "service {} has {} rpcs instead of {}", full, s.rpcs.len(), i.rpcs.len());
        for (r, w) in s.rpcs.iter().zip(&i.rpcs) {
            want!(r.name == w.name, "service {}: rpc {} instead of {}", full, r.name, w.name);
            want!(s.rpc_by_name(&w.name).map_or(false, |x| std::ptr::eq(x, r)), "rpc {} of {} is not found by its name", w.name, full);
            for (a, b, what) in [(&r.input, &w.inp, "input"), (&r.output, &w.out, "output")] {
                want!(a.stream == b.0, "rpc {} of {}: {} stream = {}", w.name, full, what, a.stream);
                let got = &ctx.resolve_message(a.message).full_name;
                want!(*got == b.1, "rpc {} of {}: {} is {} instead of {}", w.name, full, what, got, b.1);
            }
            want!(opts_eq(&r.options, &w.opts), "rpc {} of {} has options {:?} instead of {:?}", w.name, full, r.options, w.opts);
        }
        want!(s.rpc_by_name("NoSuchRpc").is_none(), "service {} has an rpc nobody declared", full);
    }
    // Files of different packages never share a package.
    let ps: Vec<(usize, PackageRef)> = pkg_of_file.into_iter().collect();
    for (a, p) in &ps {
        for (b, q) in &ps {
            want!(m.pkgs[*a] == m.pkgs[*b] || p != q, "files of packages {:?} and {:?} share the package {:?}", m.pkgs[*a], m.pkgs[*b], p);
        }
    }
    // Names nobody defined are not found.
    let mut others: BTreeSet<String> = BTreeSet::new();
    for full in m.msgs.keys().chain(m.enums.keys()).chain(m.svcs.keys()) {
        let parts: Vec<&str> = full.split('.').collect();
        for k in 0..parts.len() {
            others.insert(parts[k..].join("."));
            others.insert(parts[..k].join("."));
        }
        others.insert(format!("{}.X", full));
        others.insert(format!(".{}", full));
        others.insert(format!("{}.", full));
        others.insert(format!("{} ", full));
        others.insert(full.replacen('.', "..", 1));
        let mut short = full.clone();
        short.pop();
        others.insert(short);
        others.insert(full.to_ascii_uppercase());
        others.insert(full.to_ascii_lowercase());
    }
    for o in ["..", ".", "no.such.Type", "nobody", "_", "\u{0}"] {
        others.insert(o.to_string());
    }
    for o in others {
        let (a, b, c) = (m.msgs.contains_key(&o), m.enums.contains_key(&o), m.svcs.contains_key(&o));
        want!(ctx.get_type(&o).is_some() == (a || b) && ctx.get_message(&o).is_some() == a && ctx.get_service(&o).is_some() == c, "the name {:?} is found though nothing has it", o);
    }
    None
}

// ------------------------------------------------------------------ generator

pub struct Cfg {
    pub files: usize,
    /// Also references that do not resolve, wrong kinds, names defined twice.
    pub bad: bool,
    pub size: usize,
    /// Levels of messages within messages in the first file, 0 for a few at random.
    pub tower: usize,
    /// More definitions at the top level of a file than usual.
    pub crowd: usize,
    /// Hundreds of something, see `swell`.
    pub swell: usize,
}

impl Cfg {
    pub fn draw(bad: bool) -> Cfg {
        let mut c = Cfg { files: weighted(&[1, 3, 4, 2, 1]) + 1, bad: bad && chance(1, 4), size: pick(&[2, 3, 1, 5]), tower: 0, crowd: 0, swell: 0 };
        match us(24) {
            23 | 22 => c.tower = pick(&[6, 8, 12, 24]),
            21 => {
                c.crowd = pick(&[20, 40]);
                c.size = 2;
            }
            20 => {
                c.files = pick(&[8, 12]);
                c.size = 1;
            }
            _ => {}
        }
        c
    }
}

const MSG_NAMES: [&str; 14] = ["A", "B", "C", "Node", "D", "Item", "optionalFoo", "stringList", "streamBar", "repeatedY", "int32x", "mapX", "E", "a"];
const PKGS: [Option<&str>; 8] = [None, Some("a"), Some("a.b"), Some("b"), Some("A"), Some("a.b.c"), Some("a.a"), Some("p.q_r")];

struct G {
    names: Names,
    cfg: Cfg,
    used: usize,
}

fn fresh(g: &mut G, scope: &str, pool: &[&str], kind: Kind) -> String {
    for _ in 0..4 {
        let n = pick(pool);
        let full = join(scope, n);
        if !g.names.contains_key(&full) || (g.cfg.bad && chance(1, 8)) {
            g.names.insert(full, kind);
            return n.to_string();
        }
    }
    g.used += 1;
    let n = format!("{}{}", pick(pool), g.used);
    g.names.insert(join(scope, &n), kind);
    n
}

fn con() -> Con {
    match us(8) {
        0 => Con::Bool(true),
        1 => Con::Bool(false),
        2 => Con::Int(below(1000) as i64),
        3 => Con::Int(pick(&[-1, i64::MAX, i64::MIN, -5, 0, 1 << 40])),
        4 => Con::Ident(pick(&["FOO", "bar.baz", "x", "SPEED"]).to_string()),
        5 => Con::Str(if chance(1, 6) { (0..us(6)).map(|_| 7 + us(7) as u8).collect() } else if chance(1, 3) { tape::fill(us(6)) } else { gen::text(us(10)).replace('\0', "0").into_bytes() }),
        6 => Con::Float(pick(&[0.5, 0.25, 0.125, f64::INFINITY])),
        _ => Con::Str(vec![]),
    }
}

fn opts() -> Opts {
    if !chance(1, 5) {
        return vec![];
    }
    (0..range(1, 3))
        .map(|_| (pick(&["deprecated", "packed", "(my.opt)", "(o).x.y", "jstype", "(z)"]).to_string(), con()))
        .collect()
}

fn file_opts() -> Opts {
    if chance(1, 4) { vec![("java_package".into(), con()), ("(f.o).g".into(), con())] } else { vec![] }
}

fn skeleton_msg(g: &mut G, scope: &str, depth: usize) -> MsgD {
    let name = fresh(g, scope, &MSG_NAMES, Kind::Msg);
    let full = join(scope, &name);
    let mut body = vec![];
    if depth < 4 {
        for _ in 0..weighted(&[6, 3, 2]) {
            if chance(1, 3) {
                body.push(Body::E(en(g, &full)));
            } else {
                body.push(Body::M(skeleton_msg(g, &full, depth + 1)));
            }
        }
    }
    MsgD { name, body }
}

/// Messages within messages, some with siblings, down to a depth.
fn tower(g: &mut G, scope: &str, left: usize) -> MsgD {
    let name = fresh(g, scope, &MSG_NAMES, Kind::Msg);
    let full = join(scope, &name);
    let mut body = vec![];
    if left > 0 {
        let before = weighted(&[3, 1]);
        let after = weighted(&[3, 2, 1]);
        for _ in 0..before {
            body.push(Body::M(skeleton_msg(g, &full, 4)));
        }
        body.push(Body::M(tower(g, &full, left - 1)));
        for _ in 0..after {
            body.push(if chance(1, 4) { Body::E(en(g, &full)) } else { Body::M(skeleton_msg(g, &full, 3)) });
        }
    }
    MsgD { name, body }
}

fn en(g: &mut G, scope: &str) -> EnumD {
    let name = fresh(g, scope, &["En", "Color", "A", "Kind", "optionalE"], Kind::Enum);
    let mut vals = vec![];
    let n = count(4, 12);
    for k in 0..n {
        let v = match us(6) {
            0 => pick(&[0, i64::from(i32::MIN), i64::from(i32::MAX), -1, i64::MIN, i64::MAX]),
            1 => -(below(100) as i64),
            _ => k as i64,
        };
        vals.push((format!("{}_{}", pick(&["V", "UNKNOWN", "x", "optionalV", "option_X", "reserved"]), k), v, opts()));
    }
    EnumD { name, vals, opts: if chance(1, 6) { vec![("allow_alias".into(), Con::Bool(true))] } else { vec![] } }
}

fn fill_msg(g: &mut G, m: &mut MsgD, scope: &str) {
    let full = join(scope, &m.name);
    for b in &mut m.body {
        if let Body::M(i) = b {
            fill_msg(g, i, &full);
        }
    }
    let mut nums = BTreeSet::new();
    let n = count(g.cfg.size + 2, 12);
    let mut parts = vec![];
    for k in 0..n {
        parts.push(field(g, &mut nums, &full, format!("{}{}", pick(&["f", "value_", "x", "the_long_name"]), k), true));
    }
    let mut ones = vec![];
    for k in 0..weighted(&[6, 2, 1]) {
        let c = us(4);
        let fields = (0..c).map(|j| {
            let mut f = field(g, &mut nums, &full, format!("o{}_{}", k, j), false);
            f.label = Label::None;
            f.opts.retain(|o| o.0 != "packed");
            f
        }).collect();
        ones.push(Body::O(One { name: format!("choice{}", k), fields, opts: opts() }));
    }
    // Mix everything: declaration order is free.
    let mut all: Vec<Body> = std::mem::take(&mut m.body);
    let mut keep_order = 0;
    for p in parts {
        let at = range(0, all.len());
        all.insert(at, Body::F(p));
    }
    for o in ones {
        // Oneofs keep their relative order, so that their indices stay known.
        let at = range(keep_order, all.len());
        all.insert(at, o);
        keep_order = at + 1;
    }
    if chance(1, 6) {
        let at = range(0, all.len());
        all.insert(at, if chance(1, 2) { Body::Empty } else { Body::Reserved });
    }
    m.body = all;
}

fn field(g: &mut G, nums: &mut BTreeSet<u64>, scope: &str, name: String, map_ok: bool) -> Fld {
    let mut number = gen::number().min(i64::MAX as u64);
    while !nums.insert(number) {
        number += 1;
    }
    let mut map = None;
    if map_ok && chance(1, 10) {
        let e = join(scope, &map_entry(&name));
        if !g.names.contains_key(&e) || (g.cfg.bad && chance(1, 4)) {
            g.names.insert(e, Kind::Msg);
            map = Some(pick(&[Sc::Int32, Sc::String, Sc::Bool, Sc::UInt64, Sc::SFixed32]));
            P::MapField.hit();
        }
    }
    let ty = if chance(1, 2) { FT::S(pick(&SCALARS)) } else { FT::Ref(reference(g, scope, false)) };
    let label = if map.is_some() { Label::None } else { pick(&[Label::None, Label::Repeated, Label::None, Label::Optional]) };
    let mut o = opts();
    if label == Label::Repeated && chance(1, 4) {
        o.push(("packed".into(), Con::Bool(chance(1, 2))));
    }
    Fld { name, number, label, map, ty, opts: o }
}

/// Some way to write a reference to one of the defined types.
fn reference(g: &mut G, scope: &str, msg_only: bool) -> String {
    let cand: Vec<(&String, &Kind)> = g.names.iter().filter(|(_, k)| match k {
        Kind::Msg => true,
        Kind::Enum => !msg_only || g.cfg.bad,
        Kind::Svc => g.cfg.bad,
    }).collect();
    let ok = |s: &str| matches!((resolve(&g.names, s, scope), msg_only), (Some((_, Kind::Msg)), _) | (Some((_, Kind::Enum)), false));
    for _ in 0..4 {
        if cand.is_empty() {
            break;
        }
        let (t, _) = cand[us(cand.len())];
        let parts: Vec<&str> = t.split('.').collect();
        let s = match us(4) {
            0 => format!(".{}", t),
            1 => t.clone(),
            2 => parts.last().unwrap().to_string(),
            _ => parts[us(parts.len())..].join("."),
        };
        if ok(&s) {
            return s;
        }
        if g.cfg.bad && chance(1, 8) {
            return s;
        }
    }
    if g.cfg.bad && chance(1, 6) {
        return pick(&["Nowhere", ".A.Nowhere", "a.X", "Svc", ".Svc"]).to_string();
    }
    // Always there: the message itself.
    match cand.iter().find(|(_, k)| **k == Kind::Msg) {
        Some((t, _)) => format!(".{}", t),
        None => "A".into(),
    }
}

pub fn files(cfg: Cfg) -> Vec<FileD> {
    let mut g = G { names: Names::new(), cfg, used: 0 };
    let mut fs: Vec<FileD> = vec![];
    for k in 0..g.cfg.files {
        let pkg = PKGS[us(if chance(1, 3) { 8 } else { 3 })].map(|s| s.to_string());
        let scope = pkg.clone().unwrap_or_default();
        let mut items = vec![];
        if k == 0 && g.cfg.tower > 0 {
            P::DeepTypes.hit();
            let n = g.cfg.tower;
            items.push(Item::M(tower(&mut g, &scope, n)));
        }
        for _ in 0..range(1, g.cfg.size.max(1)) + g.cfg.crowd {
            let depth = if g.cfg.crowd > 0 { 3 } else { 1 };
            items.push(Item::M(skeleton_msg(&mut g, &scope, depth)));
        }
        for _ in 0..weighted(&[3, 2, 1]) {
            let at = range(0, items.len());
            items.insert(at, Item::E(en(&mut g, &scope)));
        }
        for _ in 0..weighted(&[3, 2, 1]) {
            let name = fresh(&mut g, &scope, &["Svc", "Api", "A", "serviceZ"], Kind::Svc);
            let at = range(0, items.len());
            items.insert(at, Item::S(SvcD { name, rpcs: vec![], opts: opts() }));
        }
        if chance(1, 8) {
            let at = range(0, items.len());
            items.insert(at, Item::Empty);
        }
        let imports = (0..weighted(&[2, 1, 1])).map(|_| format!("f{}.proto", us(g.cfg.files))).collect();
        let style = if chance(1, 2) { 0 } else { 1 + below(u32::MAX as u64) };
        fs.push(FileD { pkg, imports, opts: file_opts(), items, style });
    }
    for f in &mut fs {
        let scope = f.pkg.clone().unwrap_or_default();
        for it in &mut f.items {
            match it {
                Item::M(m) => fill_msg(&mut g, m, &scope),
                Item::S(s) => {
                    let full = join(&scope, &s.name);
                    for k in 0..count(3, 8) {
                        let inp = (chance(1, 3), reference(&mut g, &full, true));
                        let out = (chance(1, 3), reference(&mut g, &full, true));
                        s.rpcs.push(RpcD { name: format!("{}{}", pick(&["Get", "Call", "rpc"]), k), inp, out, opts: opts() });
                    }
                }
                _ => {}
            }
        }
    }
    if chance(1, 10) {
        // Files without definitions.
        P::EmptyFile.hit();
        for _ in 0..range(1, 2) {
            let pkg = if chance(1, 2) { None } else { PKGS[us(PKGS.len())].map(|s| s.to_string()) };
            let items = if chance(1, 3) { vec![Item::Empty] } else { vec![] };
            let style = if chance(1, 2) { 0 } else { 1 + below(u32::MAX as u64) };
            let at = range(0, fs.len());
            fs.insert(at, FileD { pkg, imports: vec![], opts: file_opts(), items, style });
        }
    }
    if g.cfg.swell > 0 {
        let n = g.cfg.swell;
        swell(&mut fs, n);
    }
    fs
}

/// Adds hundreds of one kind of thing: what counts things in a byte shows.
fn swell(fs: &mut Vec<FileD>, n: usize) {
    P::Many.hit();
    let far = 1 + us(n);
    let fld = |i: usize, ty: FT| Fld { name: format!("f{}", i), number: i as u64 + 1, label: pick(&[Label::None, Label::Repeated]), map: None, ty, opts: vec![] };
    let k = us(fs.len());
    let scope = fs[k].pkg.clone().unwrap_or_default();
    let far_of = |i: usize| (i + far) % n;
    let own = |s: &str| FT::Ref(format!(".{}", join(&scope, s)));
    let item = match us(8) {
        0 => {
            // Some share a package.
            let share = pick(&[1, 2]);
            for i in 0..n {
                let pk = |i: usize| format!("p{}", i / share);
                let m = MsgD { name: format!("M{}", i), body: vec![Body::F(fld(0, FT::Ref(format!(".{}.M{}", pk(far_of(i)), far_of(i)))))] };
                let at = if chance(1, 40) { us(fs.len()) } else { fs.len() };
                fs.insert(at, FileD { pkg: Some(pk(i)), imports: vec![], opts: vec![], items: vec![Item::M(m)], style: 0 });
            }
            return;
        }
        1 => {
            for i in 0..n {
                let m = MsgD { name: format!("Many{}", i), body: vec![Body::F(fld(i, own(&format!("Many{}", far_of(i)))))] };
                let at = us(fs[k].items.len() + 1);
                fs[k].items.insert(at, Item::M(m));
            }
            return;
        }
        2 => {
            for i in 0..n {
                let e = EnumD { name: format!("Many{}", i), vals: vec![(format!("V{}", i), i as i64, vec![])], opts: vec![] };
                fs[k].items.push(Item::E(e));
            }
            let body = (0..n).map(|i| Body::F(fld(i, own(&format!("Many{}", far_of(i)))))).collect();
            Item::M(MsgD { name: "Many".into(), body })
        }
        3 => Item::E(EnumD { name: "Many".into(), vals: (0..n).map(|i| (format!("V{}", i), far as i64 - i as i64, vec![])).collect(), opts: vec![] }),
        4 => Item::M(MsgD { name: "Many".into(), body: (0..n).map(|i| Body::F(fld(i * far, FT::S(pick(&SCALARS))))).collect() }),
        5 => {
            let one = |i: usize| {
                let mut f = fld(i, FT::S(pick(&SCALARS)));
                f.label = Label::None;
                Body::O(One { name: format!("o{}", i), fields: vec![f], opts: vec![] })
            };
            Item::M(MsgD { name: "Many".into(), body: (0..n).map(one).collect() })
        }
        6 => {
            let mut body: Vec<Body> = vec![];
            for i in 0..n {
                body.push(Body::M(MsgD { name: format!("In{}", i), body: vec![] }));
                body.push(Body::F(fld(i, FT::Ref(format!("In{}", far_of(i))))));
            }
            Item::M(MsgD { name: "Many".into(), body })
        }
        _ => {
            fs[k].items.push(Item::M(MsgD { name: "Many".into(), body: vec![] }));
            let r = format!(".{}", join(&scope, "Many"));
            let rpc = |i: usize| RpcD { name: format!("R{}", i), inp: (i % far == 0, r.clone()), out: (i % 3 == 0, r.clone()), opts: vec![] };
            Item::S(SvcD { name: "ManySvc".into(), rpcs: (0..n).map(rpc).collect(), opts: vec![] })
        }
    };
    let at = us(fs[k].items.len() + 1);
    fs[k].items.insert(at, item);
}

/// Notes what a loadable set exercises.
pub fn note(m: &Model) {
    let mut file_of: BTreeMap<&str, usize> = BTreeMap::new();
    for (n, i) in &m.msgs {
        file_of.insert(n, i.file);
    }
    for (n, i) in &m.enums {
        file_of.insert(n, i.file);
    }
    for i in m.msgs.values() {
        for f in i.fields.values() {
            if let TyI::Msg(t) | TyI::Enum(t) = &f.ty {
                if file_of.get(t.as_str()) != Some(&i.file) {
                    P::CrossFile.hit();
                }
            }
        }
    }
}
