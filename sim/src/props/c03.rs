//! Damage inside one field never spreads to its siblings.
use super::*;
use protofish::decode::{MessageValue, Value};
use std::collections::BTreeSet;

pub fn run() -> R {
    session(LinkCfg { faults: false, hostile: false, big: false }, &mut |node, f| {
        let mut all = vec![];
        gen::flat(&f.spans, &mut all);
        let cands: Vec<&Span> = all.into_iter().filter(|s| s.wt == 2 && s.end > s.content).collect();
        if cands.is_empty() {
            return Ok(());
        }
        let before = node.decode(f.ty, &f.sent)?;
        for _ in 0..range(1, 4) {
            let mut bytes = f.sent.clone();
            let mut hit: Vec<&Span> = vec![];
            // Now and then everything at one level.
            let wave = chance(1, 6);
            let k = if wave { cands.len() } else { range(1, 3) };
            let most = pick(&[1, 2, 8]);
            for i in 0..k {
                let s = if wave { cands[i] } else { cands[us(cands.len())] };
                if wave && most > 1 && chance(1, most) {
                    continue;
                }
                if hit.iter().any(|h| s.tag < h.end && h.tag < s.end) {
                    continue;
                }
                let n = s.end - s.content;
                let c = if wave && n < 4 && chance(1, 2) { vec![pick(&[0xffu8, 0x80]); n] } else { content(&f.sent[s.content..s.end], n) };
                tr!("    content of field {} at {}..{} replaced by {}", s.number, s.content, s.end, wire::hex(&c));
                bytes[s.content..s.end].copy_from_slice(&c);
                F::ContentDamage.hit();
                hit.push(s);
            }
            if hit.len() > 15 {
                P::ManyDamaged.hit();
            }
            if hit.is_empty() {
                continue;
            }
            if hit.len() > 1 {
                P::BadPacked2.hit();
            }
            ev(5, hit.len() as u64, hit[0].tag as u64);
            let after = node.decode(f.ty, &bytes)?;
            let tags: BTreeSet<usize> = hit.iter().map(|s| s.tag).collect();
            if f.spans.len() > 1 {
                sh().nontrivial += 1;
            }
            if let Some(d) = compare(node, &f.spans, &tags, &before, &after, "") {
                return fail("damage-spread", format!(
                    "sent    {}\n arrived {}\n only the content of the field(s) at {:?} changed, but {}\n schema:\n{}",
                    wire::hex(&f.sent), wire::hex(&bytes), hit.iter().map(|s| (s.content, s.end)).collect::<Vec<_>>(), d, node.text));
            }
        }
        Ok(())
    })
}

fn content(old: &[u8], n: usize) -> Vec<u8> {
    match us(7) {
        0 => tape::fill(n),
        1 => vec![pick(&[0xffu8, 0x80, 0, 0x0a, 0x0b, 0x08, 0x12, 7]); n],
        2 => {
            // A few bytes of the old content flipped.
            let mut c = old.to_vec();
            for _ in 0..range(1, 3) {
                let i = us(n);
                c[i] ^= 1 << us(8);
            }
            c
        }
        3 => {
            let mut c = gen::hostile();
            c.resize(n, pick(&[0xff, 0, 0x80]));
            c
        }
        4 => {
            // Continuation bits up to the end: an integer that never ends in here.
            let mut c = old.to_vec();
            let k = us(n);
            for b in &mut c[k..] {
                *b |= 0x80;
            }
            c
        }
        5 => {
            let mut c = old.to_vec();
            c.rotate_left(us(n));
            c
        }
        _ => {
            // A length that points beyond the field.
            let mut c = old.to_vec();
            let mut h = vec![];
            wire::put_varint(&mut h, (gen::number() << 3) | 2);
            wire::put_varint(&mut h, pick(&[n as u64, n as u64 + 1, 2 * n as u64 + 9, u64::MAX, 1 << 32, 200]));
            for (a, b) in c.iter_mut().zip(h) {
                *a = b;
            }
            c
        }
    }
}

fn compare(node: &Node, spans: &[Span], hit: &BTreeSet<usize>, a: &MessageValue, b: &MessageValue, at: &str) -> Option<String> {
    if a.msg_ref != b.msg_ref {
        return Some(format!("{} has another type", at));
    }
    if a.fields.len() != b.fields.len() || a.garbage != b.garbage {
        let (mut x, mut y) = (format!("{:?}", a), format!("{:?}", b));
        cut(&mut x, 500);
        cut(&mut y, 500);
        return Some(format!("message {:?} has other fields: {} vs {}", at, x, y));
    }
    for (i, (x, y)) in a.fields.iter().zip(&b.fields).enumerate() {
        let sp = spans.get(i);
        let p = format!("{}/{}", at, x.number);
        if x.number != y.number {
            return Some(format!("field {} became {}", p, y.number));
        }
        let inside = |s: &Span| hit.range(s.tag..s.end).next().is_some();
        match sp {
            Some(s) if hit.contains(&s.tag) => {}
            Some(s) if inside(s) => match (&x.value, &y.value) {
                (Value::Message(m), Value::Message(n)) => {
                    if let Some(d) = compare(node, &s.kids, hit, m, n, &p) {
                        return Some(d);
                    }
                }
                _ => return Some(format!("field {} is no message any more", p)),
            },
            _ => {
                let (m, n) = (wire::value_from_pf(&x.value, &node.bind), wire::value_from_pf(&y.value, &node.bind));
                if m != n {
                    let mut s = format!("field {} changed from {:?} to {:?}", p, m, n);
                    cut(&mut s, 700);
                    return Some(s);
                }
            }
        }
    }
    None
}
