//! A stream cut at any byte keeps everything that arrived whole.
use super::*;
use protofish::decode::{MessageValue, Value};

enum E {
    Chunk(usize),
}

pub fn run() -> R {
    let (w, hand) = draw_world();
    let node = Node::start(w.clone(), hand)?;
    tr!("schema:\n{}", node.text);
    for _ in 0..pick(&[2, 1, 4]) {
        let (ty, _, bytes) = draw_message(&w);
        let (_, info) = wire::decode(&w, ty, &bytes);
        let spans = info.spans;
        let full = node.decode(ty, &bytes)?;
        if full.fields.len() != spans.len() {
            return fail("prefix-full", format!("{} fields decoded from a well-formed message of {}: {}\nschema:\n{}",
                full.fields.len(), spans.len(), wire::hex(&bytes), node.text));
        }
        // Arrival pattern: every byte on its own, or chunks ending near structure.
        let mut cuts: Vec<usize> = vec![];
        if bytes.len() <= pick(&[48, 160]) {
            cuts.extend(0..bytes.len());
        } else {
            let mut fl = vec![];
            gen::flat(&spans, &mut fl);
            for _ in 0..range(4, 24) {
                let k = if chance(1, 3) {
                    us(bytes.len())
                } else {
                    let s = fl[us(fl.len())];
                    (pick(&[s.tag, s.val, s.content, s.end, (s.content + s.end) / 2]) + us(3)).saturating_sub(1)
                };
                cuts.push(k.min(bytes.len()));
            }
            cuts.sort();
            cuts.dedup();
        }
        let mut q = Queue::new();
        let mut t = 0;
        for k in cuts {
            t += 1 + below(3000);
            q.push(t, E::Chunk(k));
        }
        tr!("message of type {}: {}", w.msgs[ty].full, wire::hex(&bytes));
        let mut buf: Vec<u8> = Vec::new();
        while let Some(E::Chunk(k)) = q.pop() {
            // The stream stands at k bytes; the connection breaks here, or just pauses.
            buf.clear();
            buf.extend_from_slice(&bytes[..k]);
            F::Chunk.hit();
            F::Cut.hit();
            ev(6, k as u64, bytes.len() as u64);
            let part = node.decode(ty, &buf)?;
            if let Some(d) = judge(&node, &spans, &bytes, k, &full, &part) {
                return fail("prefix", format!(
                    "of the message {} only the first {} bytes arrived ({}): {}\n schema:\n{}",
                    wire::hex(&bytes), k, wire::hex(&bytes[k.saturating_sub(40)..k]), d, node.text));
            }
        }
    }
    Ok(())
}

fn judge(node: &Node, spans: &[Span], bytes: &[u8], k: usize, full: &MessageValue, part: &MessageValue) -> Option<String> {
    let whole = spans.iter().take_while(|s| s.end <= k).count();
    if part.msg_ref != full.msg_ref {
        return Some("the message type changed".into());
    }
    for i in 0..whole {
        let x = &full.fields[i];
        match part.fields.get(i) {
            Some(y) if x.number == y.number
                && wire::value_from_pf(&x.value, &node.bind) == wire::value_from_pf(&y.value, &node.bind) => {}
            y => {
                let mut s = format!("field #{} (number {}) arrived whole but is {:?} instead of {:?}", i, x.number, y, x);
                cut(&mut s, 800);
                return Some(s);
            }
        }
    }
    let rest = &part.fields[whole..];
    match spans.get(whole) {
        Some(s) if k > s.tag => {
            sh().nontrivial += 1;
            if k < s.val {
                P::CutTag.hit();
                if !rest.is_empty() || part.garbage.as_deref() != Some(&bytes[s.tag..k]) {
                    return Some(format!("the cut tag {} is not kept as garbage: fields {:?}, garbage {:?}", wire::hex(&bytes[s.tag..k]), rest, part.garbage));
                }
            } else {
                match () {
                    _ if !s.kids.is_empty() => P::CutMessage.hit(),
                    _ if matches!(full.fields[whole].value, Value::Packed(_)) => P::CutPacked.hit(),
                    _ if matches!(full.fields[whole].value, Value::Unknown(_)) => P::CutUnknown.hit(),
                    _ => P::CutValue.hit(),
                }
                let ok = rest.len() == 1
                    && rest[0].number == s.number
                    && matches!(&rest[0].value, Value::Incomplete(wt, b) if *wt == s.wt && b[..] == bytes[s.val..k])
                    && part.garbage.is_none();
                if !ok {
                    let mut m = format!("the cut value of field {} is not kept as Incomplete({}, {}): fields {:?}, garbage {:?}",
                        s.number, s.wt, wire::hex(&bytes[s.val..k]), rest, part.garbage);
                    cut(&mut m, 900);
                    return Some(m);
                }
            }
        }
        _ => {
            P::CutBoundary.hit();
            if !rest.is_empty() || part.garbage.is_some() {
                let mut m = format!("nothing was cut, but there is more: fields {:?}, garbage {:?}", rest, part.garbage);
                cut(&mut m, 900);
                return Some(m);
            }
        }
    }
    None
}
