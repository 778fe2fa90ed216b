//! Messages survive relay chains across differing schema versions.
use super::*;
use crate::wire::{Ty, V};

enum E {
    Send(usize),
    Hop(usize, usize, Vec<u8>),
    Crash(usize),
    Up(usize),
    Upgrade(usize),
}

struct Relay {
    node: Node,
    versions: Vec<World>,
    cur: usize,
    up: bool,
}

pub fn run() -> R {
    let (w0, hand) = draw_world();
    let sender = Node::start(w0.clone(), hand)?;
    tr!("sender's schema:\n{}", sender.text);
    let hops = range(1, 4);
    let mut relays = vec![];
    for h in 0..hops {
        let mut versions = vec![];
        for _ in 0..range(1, 2) {
            versions.push(if chance(1, 5) { w0.clone() } else { gen::derive(&w0) });
        }
        let node = Node::start(versions[0].clone(), chance(1, 4))?;
        tr!("relay {} schema:\n{}", h, node.text);
        relays.push(Relay { node, versions, cur: 0, up: true });
    }
    let mut q = Queue::new();
    let n = pick(&[2, 1, 4, 8]);
    let mut msgs = vec![];
    for i in 0..n {
        // Types all versions have kept under the same name.
        let mut ty = us(w0.msgs.len());
        let name = w0.msgs[ty].full.clone();
        if !relays.iter().all(|r| r.versions.iter().all(|v| v.msgs.iter().any(|m| m.full == name))) {
            ty = 0;
        }
        let mut m = gen::message(&w0, ty, MG::draw());
        if chance(1, 150) {
            huge(&w0, &mut m);
        }
        let m = clean(&w0, &relays, m);
        msgs.push((ty, m, vec![]));
        q.push(below(50_000), E::Send(i));
    }
    for _ in 0..weighted(&[3, 2, 1]) {
        q.push(below(100_000), E::Crash(us(hops)));
    }
    for _ in 0..weighted(&[3, 2, 1]) {
        q.push(below(100_000), E::Upgrade(us(hops)));
    }
    while let Some(e) = q.pop() {
        match e {
            E::Send(i) => {
                let (ty, m, _) = &msgs[i];
                let pf = wire::to_pf(m, &sender.bind);
                let bytes = sut("encode", || pf.encode(&sender.ctx))?.to_vec();
                let want = wire::encode(m);
                ev(20, i as u64, bytes.len() as u64);
                tr!("  t={}us message {} ({}) sent: {}\n    value {}", q.now, i, w0.msgs[*ty].full, wire::hex(&bytes), wire::show(m));
                if bytes != want {
                    return fail("encode-differs", format!("the message {}\n is encoded as {}\n instead of    {}", wire::show(m), wire::hex(&bytes), wire::hex(&want)));
                }
                msgs[i].2 = bytes.clone();
                forward(&mut q, 0, i, bytes);
            }
            E::Hop(h, i, bytes) => {
                let r = &relays[h];
                if !r.up {
                    F::Drop.hit();
                    continue;
                }
                let (ty, m, orig) = &msgs[i];
                let name = &w0.msgs[*ty].full;
                let w = &r.node.w;
                let ty2 = match w.msgs.iter().position(|m| m.full == *name) {
                    Some(t) => t,
                    None => continue,
                };
                ev(21, h as u64, i as u64);
                if *w != w0 {
                    F::SchemaSkew.hit();
                    sh().nontrivial += 1;
                }
                if h >= 2 {
                    P::MultiHop.hit();
                }
                let v = r.node.decode(ty2, &bytes)?;
                let got = wire::from_pf(&v, &r.node.bind);
                let (want, _) = wire::decode(w, ty2, &bytes);
                note_skew(m, &want);
                if got != want {
                    return fail("relay-reads-differently", format!(
                        "relay {} reads message {} differently: {}\n bytes {}\n relay's schema:\n{}",
                        h, i, diff(&got, &want, name), wire::hex(&bytes), r.node.text));
                }
                if let Some(d) = shared_fields(&w0, w, m, &got) {
                    return fail("relay-reads-differently", format!("relay {}: {}\n bytes {}", h, d, wire::hex(&bytes)));
                }
                let out = sut("encode", || v.encode(&r.node.ctx))?.to_vec();
                tr!("  t={}us relay {} forwards message {}: {}", q.now, h, i, wire::hex(&out));
                if out != *orig {
                    return fail("relay-changes-bytes", format!(
                        "relay {} changed message {}\n from {}\n to   {}\n value {}\n relay's schema:\n{}",
                        h, i, wire::hex(orig), wire::hex(&out), wire::show(&got), r.node.text));
                }
                if h + 1 < relays.len() {
                    forward(&mut q, h + 1, i, out);
                }
            }
            E::Crash(h) => {
                relays[h].up = false;
                q.push(below(20_000), E::Up(h));
            }
            E::Up(h) => {
                relays[h].node.restart()?;
                relays[h].up = true;
            }
            E::Upgrade(h) => {
                let r = &mut relays[h];
                r.cur = (r.cur + 1) % r.versions.len();
                F::Upgrade.hit();
                tr!("  t={}us relay {} changes its schema", q.now, h);
                r.node = Node::start(r.versions[r.cur].clone(), r.node.hand)?;
            }
        }
    }
    Ok(())
}

fn forward(q: &mut Queue<E>, h: usize, i: usize, b: Vec<u8>) {
    if chance(1, 30) {
        F::Drop.hit();
        return;
    }
    if chance(1, 12) {
        F::Dup.hit();
        q.push(1000 + below(50_000), E::Hop(h, i, b.clone()));
    }
    let late = if chance(1, 5) {
        F::Delay.hit();
        below(80_000)
    } else {
        0
    };
    q.push(500 + below(5_000) + late, E::Hop(h, i, b));
}

/// One value longer than any length of two or three bytes says.
fn huge(w: &World, m: &mut M) {
    P::HugeField.hit();
    let n = pick(&[70_000, 65_536, 1 << 20, 2_097_151, 2_097_152, 2_100_001, 4_200_000]);
    let b = vec![pick(&[b'x', 0x7f, 0]); n];
    let fs: Vec<_> = w.msgs[m.ty].fields.values().filter(|f| matches!(f.ty, Ty::S(wire::Sc::String | wire::Sc::Bytes)) && f.mult != wire::Mult::Packed).collect();
    let v = if fs.is_empty() || chance(1, 3) {
        let num = gen::number();
        if w.msgs[m.ty].fields.get(&num).map_or(false, |f| gen::eff(f) == 2) {
            return;
        }
        (num, V::ULen(b))
    } else {
        let f = fs[us(fs.len())];
        (f.number, if f.ty == Ty::S(wire::Sc::String) { V::Str(String::from_utf8(b).unwrap()) } else { V::Byt(b) })
    };
    let at = us(m.f.len() + 1);
    m.f.insert(at, v);
}

/// A number the sender does not declare but some relay does must not carry bytes which the
/// relay would read as a value of its own with another canonical form: two parties that
/// disagree about the meaning of the same wire type are outside the property.
fn clean(w0: &World, relays: &[Relay], m: M) -> M {
    fn go(w0: &World, vs: &[(&World, usize)], m: M) -> M {
        let mut out = M { ty: m.ty, f: vec![], garbage: m.garbage };
        for (n, v) in m.f {
            let sf = w0.msgs[m.ty].fields.get(&n);
            let mut keep = true;
            let mut subs = vec![];
            for (w, t) in vs {
                if let Some(f) = w.msgs[*t].fields.get(&n) {
                    let same = sf.map_or(false, |s| name_ty(w0, s.ty) == name_ty(w, f.ty) && gen::eff(s) == gen::eff(f) && v.known());
                    if !same && gen::eff(f) == v.wt() {
                        keep = false;
                    }
                    if same {
                        if let Ty::Msg(k) = f.ty {
                            subs.push((*w, k));
                        }
                    }
                }
            }
            if keep {
                let v = match v {
                    V::Msg(k) => V::Msg(Box::new(go(w0, &subs, *k))),
                    v => v,
                };
                out.f.push((n, v));
            }
        }
        out
    }
    let name = &w0.msgs[m.ty].full;
    let mut vs = vec![];
    for r in relays {
        for v in &r.versions {
            if let Some(t) = v.msgs.iter().position(|x| x.full == *name) {
                vs.push((v, t));
            }
        }
    }
    go(w0, &vs, m)
}

fn name_ty(w: &World, t: Ty) -> String {
    match t {
        Ty::S(s) => s.name().into(),
        Ty::Msg(i) => format!("m{}", w.msgs[i].full),
        Ty::Enum(i) => format!("e{}", w.enums[i]),
    }
}

fn note_skew(sent: &M, got: &M) {
    for ((_, a), (_, b)) in sent.f.iter().zip(&got.f) {
        if a.known() && !b.known() {
            P::SkewUnknown.hit();
        }
        if let V::Num(_, x) = a {
            if *x >> 63 == 1 {
                P::Negative.hit();
            }
        }
    }
}

/// Straight comparison of scalars both schemas declare alike, without the reference decoder.
fn shared_fields(w0: &World, w: &World, sent: &M, got: &M) -> Option<String> {
    if sent.f.len() != got.f.len() {
        return Some(format!("{} fields sent, {} read", sent.f.len(), got.f.len()));
    }
    for ((n, a), (k, b)) in sent.f.iter().zip(&got.f) {
        if n != k {
            return Some(format!("field {} read as {}", n, k));
        }
        let (x, y) = (w0.msgs[sent.ty].fields.get(n), w.msgs[got.ty].fields.get(n));
        if let (Some(x), Some(y)) = (x, y) {
            if x.ty == y.ty && x.mult == y.mult && matches!(x.ty, Ty::S(_)) && a.known() && a != b {
                return Some(format!("field {}: {:?} written, {:?} read", n, a, b));
            }
        }
    }
    None
}
