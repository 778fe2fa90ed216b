//! An independent, deliberately narrow reader of .proto text. It accepts only text whose
//! meaning leaves no room (`parse`), and otherwise says what any loader must see in it
//! (`broken`, `must_define`).

use crate::schema::*;
use crate::wire::{Sc, SCALARS};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    /// Identifier.
    W(String),
    /// Number, as written.
    N(String),
    /// String literal: its bytes, or None if it is not a valid literal.
    S(Option<Vec<u8>>),
    C(char),
    /// A dot that starts a name.
    D,
}

pub struct Lex {
    pub toks: Vec<T>,
    /// A comment or a string is not closed.
    pub open: bool,
    /// A dot that is not right between two words or before one.
    pub loose: bool,
    /// Starts with the syntax statement in its plain form.
    pub sure: bool,
}

pub fn lex(text: &str) -> Lex {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut toks = vec![];
    let mut open = false;
    let mut loose = false;
    while i < c.len() {
        let x = c[i];
        // A byte order mark in front may have got white space or comments before it.
        if matches!(x, ' ' | '\t' | '\n' | '\r') || (x == '\u{feff}' && toks.is_empty()) {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while j + 1 < c.len() && !(c[j] == '*' && c[j + 1] == '/') {
                j += 1;
            }
            if j + 1 >= c.len() {
                open = true;
                break;
            }
            i = j + 2;
        } else if x.is_ascii_alphabetic() {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            toks.push(T::W(c[i..j].iter().collect()));
            i = j;
        } else if x.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_' || c[j] == '.') {
                j += 1;
            }
            toks.push(T::N(c[i..j].iter().collect()));
            i = j;
        } else if x == '"' || x == '\'' {
            let (v, j) = string(&c, i);
            match j {
                Some(j) => i = j,
                None => {
                    open = true;
                    break;
                }
            }
            toks.push(T::S(v));
        } else if x == '.' {
            let word = |k: Option<&char>| k.map_or(false, |k| k.is_ascii_alphanumeric() || *k == '_');
            let before = i > 0 && word(c.get(i - 1));
            if before && word(c.get(i + 1)) {
                toks.push(T::C('.'));
                i += 1;
            } else if !before && c.get(i + 1).map_or(false, |k| k.is_ascii_digit()) {
                let mut j = i + 1;
                while j < c.len() && word(c.get(j)) {
                    j += 1;
                }
                toks.push(T::N(c[i..j].iter().collect()));
                i = j;
            } else {
                loose |= before || !word(c.get(i + 1));
                toks.push(T::D);
                i += 1;
            }
        } else {
            toks.push(T::C(x));
            i += 1;
        }
    }
    let sure = toks.len() > 3
        && toks[0] == T::W("syntax".into())
        && toks[1] == T::C('=')
        && toks[2] == T::S(Some(b"proto3".to_vec()))
        && toks[3] == T::C(';')
        && (text.contains("\"proto3\"") || text.contains("'proto3'"));
    Lex { toks, open, loose, sure }
}

fn string(c: &[char], at: usize) -> (Option<Vec<u8>>, Option<usize>) {
    let q = c[at];
    let mut i = at + 1;
    let mut v = vec![];
    let mut ok = true;
    loop {
        match c.get(i) {
            None => return (None, None),
            Some(x) if *x == q => return (if ok { Some(v) } else { None }, Some(i + 1)),
            Some('\n') | Some('\0') => return (None, None),
            Some('\\') => {
                let e = c.get(i + 1).copied().unwrap_or('\0');
                match e {
                    'x' | 'X' => {
                        let h: String = c[(i + 2).min(c.len())..(i + 4).min(c.len())].iter().collect();
                        match (h.len() == 2 && h.is_ascii(), u8::from_str_radix(&h, 16)) {
                            (true, Ok(b)) if !h.starts_with('+') => v.push(b),
                            _ => return (None, None),
                        }
                        i += 4;
                    }
                    '0'..='7' => {
                        let mut n = 0u32;
                        let mut k = i + 1;
                        while k < i + 4 && c.get(k).map_or(false, |d| ('0'..='7').contains(d)) {
                            n = n * 8 + c[k].to_digit(8).unwrap();
                            k += 1;
                        }
                        if n > 255 {
                            ok = false;
                        }
                        v.push(n as u8);
                        i = k;
                    }
                    _ => {
                        let b = match e {
                            'a' => 7,
                            'b' => 8,
                            'f' => 12,
                            'n' => 10,
                            'r' => 13,
                            't' => 9,
                            'v' => 11,
                            '\\' => b'\\',
                            '\'' => b'\'',
                            '"' => b'"',
                            _ => return (None, None),
                        };
                        v.push(b);
                        i += 2;
                    }
                }
            }
            Some(x) => {
                let mut b = [0; 4];
                v.extend_from_slice(x.encode_utf8(&mut b).as_bytes());
                i += 1;
            }
        }
    }
}

/// Text no loader may accept: something is not closed or not finished.
pub fn broken(l: &Lex) -> Option<&'static str> {
    // Nothing that was written there can have started like this.
    match l.toks.first() {
        None if !l.open => return Some("nothing is left in it"),
        Some(T::W(w)) => {
            if !["syntax", "edition", "import", "package", "option", "message", "enum", "service", "extend"].iter().any(|k| w.starts_with(k)) {
                return Some("it does not start with a statement");
            }
        }
        Some(T::C(';')) | None => {}
        Some(_) => return Some("it does not start with a statement"),
    }
    if !l.sure {
        return None;
    }
    if l.open {
        return Some("a comment or string is not closed");
    }
    let mut st = vec![];
    for t in &l.toks {
        if let T::C(c) = t {
            match c {
                '{' | '(' | '[' => st.push(*c),
                '}' | ')' | ']' => {
                    let o = match c {
                        '}' => '{',
                        ')' => '(',
                        _ => '[',
                    };
                    if st.pop() != Some(o) {
                        return Some("a bracket is closed that was not opened");
                    }
                }
                _ => {}
            }
        }
    }
    if !st.is_empty() {
        return Some("a bracket is not closed");
    }
    match l.toks.last() {
        Some(T::C(';')) | Some(T::C('}')) => None,
        _ => Some("the last statement is not finished"),
    }
}

/// What any loader that accepts the text must find in it: definitions with their full names.
pub fn must_define(l: &Lex) -> Vec<(String, Kind)> {
    let t = &l.toks;
    // Grammars that know no word boundaries read these as "package".
    let pk = t.iter().filter(|t| matches!(t, T::W(w) if w.starts_with("package"))).count();
    if !l.sure || pk > 1 || t.iter().any(|t| matches!(t, T::W(w) if w.starts_with("package") && w != "package")) {
        return vec![];
    }
    // The package applies to the whole file.
    let boundary = |i: usize| i == 0 || matches!(t[i - 1], T::C(';') | T::C('{') | T::C('}'));
    let mut pkg = String::new();
    let mut depth = 0;
    for i in 0..t.len() {
        match &t[i] {
            T::C('{') => depth += 1,
            T::C('}') => depth -= 1,
            T::W(w) if w == "package" && depth == 0 && boundary(i) => {
                pkg.clear();
                for x in &t[i + 1..] {
                    match x {
                        T::W(w) => pkg.push_str(w),
                        T::C('.') | T::D => pkg.push('.'),
                        _ => break,
                    }
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    // Open braces: Some(scope) for a message.
    let mut st: Vec<Option<String>> = vec![];
    let mut i = 0;
    while i < t.len() {
        if let (T::W(k), Some(T::W(n)), Some(T::C('{'))) = (&t[i], t.get(i + 1), t.get(i + 2)) {
            let kind = match k.as_str() {
                "message" => Some(Kind::Msg),
                "enum" => Some(Kind::Enum),
                "service" => Some(Kind::Svc),
                _ => None,
            };
            let scope = match st.last() {
                None => Some(pkg.clone()),
                Some(s) => s.clone(),
            };
            if let (Some(kind), Some(scope), true) = (kind, scope, boundary(i)) {
                let full = if scope.is_empty() { n.clone() } else { format!("{}.{}", scope, n) };
                out.push((full.clone(), kind));
                st.push(if kind == Kind::Msg { Some(full) } else { None });
                i += 3;
                continue;
            }
        }
        match &t[i] {
            T::C('{') => st.push(None),
            T::C('}') => {
                st.pop();
            }
            _ => {}
        }
        i += 1;
    }
    out
}

// ------------------------------------------------------------------ narrow parser

struct Ps<'a> {
    t: &'a [T],
    i: usize,
}
type O<X> = Option<X>;

/// Some(file) only if the text is beyond doubt valid and unambiguous.
pub fn parse(text: &str) -> O<FileD> {
    let l = lex(text);
    if l.open || l.loose || !l.sure {
        return None;
    }
    let mut p = Ps { t: &l.toks, i: 0 };
    p.kw("syntax")?;
    p.c('=')?;
    match p.next()? {
        T::S(Some(s)) if s == b"proto3" => {}
        _ => return None,
    }
    p.c(';')?;
    let mut f = FileD { pkg: None, imports: vec![], opts: vec![], items: vec![], style: 0 };
    while p.i < p.t.len() {
        match p.peek()? {
            T::C(';') => {
                p.i += 1;
                f.items.push(Item::Empty);
            }
            T::W(w) => match w.as_str() {
                "package" => {
                    p.i += 1;
                    if f.pkg.is_some() {
                        return None;
                    }
                    f.pkg = Some(p.dotted()?);
                    p.c(';')?;
                }
                "import" => {
                    p.i += 1;
                    if matches!(p.peek()?, T::W(w) if w == "public" || w == "weak") {
                        p.i += 1;
                    }
                    match p.next()? {
                        T::S(Some(_)) => f.imports.push(String::new()),
                        _ => return None,
                    }
                    p.c(';')?;
                }
                "option" => {
                    p.i += 1;
                    p.option()?;
                    p.c(';')?;
                }
                "message" => f.items.push(Item::M(p.msg()?)),
                "enum" => f.items.push(Item::E(p.en()?)),
                "service" => f.items.push(Item::S(p.svc()?)),
                _ => return None,
            },
            _ => return None,
        }
    }
    Some(f)
}

fn uniq<'a, X: Ord + 'a>(xs: impl Iterator<Item = X>) -> O<()> {
    let mut s = BTreeSet::new();
    for x in xs {
        if !s.insert(x) {
            return None;
        }
    }
    Some(())
}

impl Ps<'_> {
    fn peek(&self) -> O<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> O<T> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        Some(t)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&T::C(c))
    }
    fn c(&mut self, c: char) -> O<()> {
        if self.is(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn kw(&mut self, k: &str) -> O<()> {
        match self.next()? {
            T::W(w) if w == k => Some(()),
            _ => None,
        }
    }
    fn word(&mut self) -> O<String> {
        match self.next()? {
            // Words that mean something in some place are avoided as names.
            T::W(w)
                if !["message", "enum", "service", "option", "oneof", "map", "reserved", "repeated", "optional", "stream", "package",
                    "import", "rpc", "returns", "syntax", "to", "max", "extensions", "extend", "group", "required", "weak", "public"]
                    .contains(&w.as_str()) =>
            {
                Some(w)
            }
            _ => None,
        }
    }
    fn dotted(&mut self) -> O<String> {
        let mut s = self.word()?;
        while self.is('.') {
            self.i += 1;
            s.push('.');
            s.push_str(&self.word()?);
        }
        Some(s)
    }
    fn tyref(&mut self) -> O<String> {
        let mut s = String::new();
        if self.peek() == Some(&T::D) {
            self.i += 1;
            s.push('.');
        }
        s.push_str(&self.dotted()?);
        Some(s)
    }
    fn ty(&mut self) -> O<FT> {
        let s = self.tyref()?;
        match SCALARS.iter().find(|x| x.name() == s) {
            Some(x) => Some(FT::S(*x)),
            None => {
                // A reference that starts with a scalar's name as a whole component.
                let first = s.trim_start_matches('.').split('.').next().unwrap();
                if SCALARS.iter().any(|x| x.name() == first) {
                    return None;
                }
                Some(FT::Ref(s))
            }
        }
    }
    fn uint(s: &str) -> O<u64> {
        let v = if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
            if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            u64::from_str_radix(h, 16).ok()?
        } else if s.starts_with('0') {
            if !s.chars().all(|c| ('0'..='7').contains(&c)) {
                return None;
            }
            u64::from_str_radix(s, 8).ok()?
        } else {
            if !s.chars().all(|c| c.is_ascii_digit()) {
                return None;
            }
            s.parse().ok()?
        };
        if v > i64::MAX as u64 { None } else { Some(v) }
    }
    fn int(&mut self) -> O<i64> {
        let neg = self.is('-');
        if neg {
            self.i += 1;
        }
        match self.next()? {
            T::N(n) if neg && n == "9223372036854775808" => Some(i64::MIN),
            T::N(n) => Self::uint(&n).map(|v| if neg { -(v as i64) } else { v as i64 }),
            _ => None,
        }
    }
    fn con(&mut self) -> O<Con> {
        match self.peek()?.clone() {
            T::S(s) => {
                self.i += 1;
                s.map(Con::Str)
            }
            T::N(n) if n.len() > 1 && n.len() < 12 && n.starts_with('.') && n[1..].chars().all(|c| c.is_ascii_digit()) => {
                self.i += 1;
                n.parse().ok().map(Con::Float)
            }
            T::W(w) if w == "inf" => {
                self.i += 1;
                Some(Con::Float(f64::INFINITY))
            }
            T::N(_) | T::C('-') => self.int().map(Con::Int),
            T::W(w) if w == "true" || w == "false" => {
                self.i += 1;
                Some(Con::Bool(w == "true"))
            }
            T::W(w) if !["inf", "nan", "true", "false"].iter().any(|k| w.starts_with(k)) => self.dotted().map(Con::Ident),
            _ => None,
        }
    }
    fn option(&mut self) -> O<(String, Con)> {
        let mut n = if self.is('(') {
            self.i += 1;
            let s = self.dotted()?;
            self.c(')')?;
            format!("({})", s)
        } else {
            self.word()?
        };
        while self.is('.') || (n.ends_with(')') && self.peek() == Some(&T::D)) {
            self.i += 1;
            n.push('.');
            n.push_str(&self.word()?);
        }
        self.c('=')?;
        Some((n, self.con()?))
    }
    fn brackets(&mut self) -> O<Opts> {
        let mut v = vec![];
        if self.is('[') {
            self.i += 1;
            loop {
                v.push(self.option()?);
                if self.is(',') {
                    self.i += 1;
                } else {
                    break;
                }
            }
            self.c(']')?;
        }
        Some(v)
    }
    fn tail(&mut self) -> O<(String, u64, Opts)> {
        let name = self.word()?;
        self.c('=')?;
        let number = match self.next()? {
            T::N(n) => Self::uint(&n)?,
            _ => return None,
        };
        let o = self.brackets()?;
        self.c(';')?;
        Some((name, number, o))
    }
    fn field(&mut self) -> O<Fld> {
        let label = match self.peek()? {
            T::W(w) if w == "repeated" => Label::Repeated,
            T::W(w) if w == "optional" => Label::Optional,
            _ => Label::None,
        };
        if label != Label::None {
            self.i += 1;
        }
        let ty = self.ty()?;
        let (name, number, opts) = self.tail()?;
        Some(Fld { name, number, label, map: None, ty, opts })
    }
    fn msg(&mut self) -> O<MsgD> {
        self.kw("message")?;
        let name = self.word()?;
        self.c('{')?;
        let mut body = vec![];
        let (mut names, mut nums, mut ones) = (vec![], vec![], vec![]);
        while !self.is('}') {
            match self.peek()?.clone() {
                T::C(';') => {
                    self.i += 1;
                    body.push(Body::Empty);
                }
                T::W(w) if w == "message" => body.push(Body::M(self.msg()?)),
                T::W(w) if w == "enum" => body.push(Body::E(self.en()?)),
                T::W(w) if w == "reserved" => {
                    self.i += 1;
                    loop {
                        match self.next()? {
                            T::N(n) => {
                                Self::uint(&n)?;
                            }
                            _ => return None,
                        }
                        if matches!(self.peek()?, T::W(w) if w == "to") {
                            self.i += 1;
                            match self.next()? {
                                T::N(n) => {
                                    Self::uint(&n)?;
                                }
                                T::W(w) if w == "max" => {}
                                _ => return None,
                            }
                        }
                        if self.is(',') {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    self.c(';')?;
                    body.push(Body::Reserved);
                }
                T::W(w) if w == "oneof" => {
                    self.i += 1;
                    let name = self.word()?;
                    self.c('{')?;
                    let (mut fields, mut opts) = (vec![], vec![]);
                    while !self.is('}') {
                        match self.peek()? {
                            T::C(';') => self.i += 1,
                            T::W(w) if w == "option" => {
                                self.i += 1;
                                opts.push(self.option()?);
                                self.c(';')?;
                            }
                            _ => {
                                let f = self.field()?;
                                if f.label != Label::None {
                                    return None;
                                }
                                names.push(f.name.clone());
                                nums.push(f.number);
                                fields.push(f);
                            }
                        }
                    }
                    self.c('}')?;
                    ones.push(name.clone());
                    body.push(Body::O(One { name, fields, opts }));
                }
                T::W(w) if w == "map" => {
                    self.i += 1;
                    self.c('<')?;
                    let k = match self.ty()? {
                        FT::S(s) if !matches!(s, Sc::Double | Sc::Float | Sc::Bytes) => s,
                        _ => return None,
                    };
                    self.c(',')?;
                    let ty = self.ty()?;
                    self.c('>')?;
                    let (name, number, opts) = self.tail()?;
                    names.push(name.clone());
                    nums.push(number);
                    body.push(Body::F(Fld { name, number, label: Label::None, map: Some(k), ty, opts }));
                }
                _ => {
                    let f = self.field()?;
                    names.push(f.name.clone());
                    nums.push(f.number);
                    body.push(Body::F(f));
                }
            }
        }
        self.c('}')?;
        uniq(names.iter())?;
        uniq(nums.iter())?;
        uniq(ones.iter())?;
        Some(MsgD { name, body })
    }
    fn en(&mut self) -> O<EnumD> {
        self.kw("enum")?;
        let name = self.word()?;
        self.c('{')?;
        let (mut vals, mut opts) = (vec![], vec![]);
        while !self.is('}') {
            match self.peek()?.clone() {
                T::C(';') => self.i += 1,
                T::W(w) if w == "option" => {
                    self.i += 1;
                    opts.push(self.option()?);
                    self.c(';')?;
                }
                _ => {
                    let n = self.word()?;
                    self.c('=')?;
                    let v = self.int()?;
                    let o = self.brackets()?;
                    self.c(';')?;
                    vals.push((n, v, o));
                }
            }
        }
        self.c('}')?;
        uniq(vals.iter().map(|v| &v.0))?;
        Some(EnumD { name, vals, opts })
    }
    fn svc(&mut self) -> O<SvcD> {
        self.kw("service")?;
        let name = self.word()?;
        self.c('{')?;
        let (mut rpcs, mut opts) = (vec![], vec![]);
        while !self.is('}') {
            match self.peek()?.clone() {
                T::C(';') => self.i += 1,
                T::W(w) if w == "option" => {
                    self.i += 1;
                    opts.push(self.option()?);
                    self.c(';')?;
                }
                T::W(w) if w == "rpc" => {
                    self.i += 1;
                    let name = self.word()?;
                    let inp = self.arg()?;
                    self.kw("returns")?;
                    let out = self.arg()?;
                    let mut o = vec![];
                    if self.is('{') {
                        self.i += 1;
                        while !self.is('}') {
                            if self.is(';') {
                                self.i += 1;
                                continue;
                            }
                            self.kw("option")?;
                            o.push(self.option()?);
                            self.c(';')?;
                        }
                        self.c('}')?;
                    } else {
                        self.c(';')?;
                    }
                    rpcs.push(RpcD { name, inp, out, opts: o });
                }
                _ => return None,
            }
        }
        self.c('}')?;
        uniq(rpcs.iter().map(|r: &RpcD| &r.name))?;
        Some(SvcD { name, rpcs, opts })
    }
    fn arg(&mut self) -> O<(bool, String)> {
        self.c('(')?;
        let s = matches!(self.peek()?, T::W(w) if w == "stream");
        if s {
            self.i += 1;
        }
        let t = self.tyref()?;
        self.c(')')?;
        Some((s, t))
    }
}
