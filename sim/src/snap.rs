//! What the public API shows of a context, as text: for comparing what was seen at different
//! times or in different places.

use protofish::context::*;
use std::fmt::Write as _;

fn options(s: &mut String, o: &[ProtoOption]) {
    for x in o {
        let _ = write!(s, " [{} = ", x.name);
        let _ = match &x.value {
            Constant::Ident(v) => write!(s, "ident {}", v),
            Constant::Integer(v) => write!(s, "int {}", v),
            Constant::Float(v) => write!(s, "float {:x}", v.to_bits()),
            Constant::String(v) => write!(s, "str {:?}", v),
            Constant::Bool(v) => write!(s, "bool {}", v),
            #[allow(unreachable_patterns)]
            v => write!(s, "{:?}", v),
        };
        s.push(']');
    }
}

/// Everything of a message except the list of its inner types, which may grow.
pub fn message(m: &MessageInfo) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "message {} = {} {:?} in {:?}", m.name, m.full_name, m.self_ref, m.parent);
    for f in m.iter_fields() {
        let _ = write!(s, " {} {} {:?} {:?} {:?}", f.number, f.name, f.field_type, f.multiplicity, f.oneof);
        options(&mut s, &f.options);
        let by_no = m.get_field(f.number).map(|x| x.name.as_str());
        let by_name = m.get_field_by_name(&f.name).map(|x| x.number);
        let _ = writeln!(s, " found {:?} {:?}", by_no, by_name);
    }
    for o in &m.oneofs {
        let _ = write!(s, " oneof {} {:?} {:?}", o.name, o.self_ref, o.fields);
        options(&mut s, &o.options);
        let _ = writeln!(s, " found {:?}", m.get_oneof(o.self_ref).map(|x| x.name.as_str()));
    }
    s
}

pub fn en(e: &EnumInfo, values: &[i64]) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "enum {} = {} {:?} in {:?}", e.name, e.full_name, e.self_ref, e.parent);
    for v in values {
        match e.get_field_by_value(*v) {
            Some(f) => {
                let _ = write!(s, " {} {}", f.value, f.name);
                options(&mut s, &f.options);
                s.push('\n');
            }
            None => {
                let _ = writeln!(s, " no {}", v);
            }
        }
    }
    s
}

pub fn service(x: &Service) -> String {
    let mut s = String::new();
    let _ = write!(s, "service {} = {} {:?} in {:?}", x.name, x.full_name, x.self_ref, x.parent);
    options(&mut s, &x.options);
    s.push('\n');
    for r in &x.rpcs {
        let _ = write!(s, " {} {:?} {} {:?} {}", r.name, r.input.message, r.input.stream, r.output.message, r.output.stream);
        options(&mut s, &r.options);
        let _ = writeln!(s, " found {:?}", x.rpc_by_name(&r.name).map(|y| y.input.message));
    }
    s
}

/// Everything a context says about the names of a loaded set.
pub fn context(ctx: &Context, m: &crate::schema::Model) -> String {
    let mut s = String::new();
    for full in m.msgs.keys() {
        match ctx.get_message(full) {
            Some(x) => {
                s.push_str(&message(x));
                let _ = writeln!(s, " inner {:?}", x.inner_types);
                s.push_str(&message(ctx.resolve_message(x.self_ref)));
            }
            None => {
                let _ = writeln!(s, "no message {}", full);
            }
        }
    }
    for (full, i) in &m.enums {
        let vals: Vec<i64> = i.vals.keys().cloned().collect();
        match ctx.get_type(full) {
            Some(TypeInfo::Enum(e)) => {
                s.push_str(&en(e, &vals));
                s.push_str(&en(ctx.resolve_enum(e.self_ref), &vals));
            }
            _ => {
                let _ = writeln!(s, "no enum {}", full);
            }
        }
    }
    for full in m.svcs.keys() {
        match ctx.get_service(full) {
            Some(x) => s.push_str(&service(x)),
            None => {
                let _ = writeln!(s, "no service {}", full);
            }
        }
    }
    for n in ["", "no.such", "A.no_such"] {
        let _ = writeln!(s, "{:?} {}", n, ctx.get_type(n).is_some() || ctx.get_service(n).is_some());
    }
    s
}

/// First line in which two snapshots differ.
pub fn differ(a: &str, b: &str) -> String {
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (Some(p), Some(q)) if p == q => {}
            (None, None) => return "no difference".into(),
            (p, q) => return format!("{:?} instead of {:?}", q, p),
        }
    }
}
