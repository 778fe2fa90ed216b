//! Re-encoding a decoded message loses and invents nothing.
use super::*;

pub fn run() -> R {
    session(LinkCfg { faults: true, hostile: true, big: true }, &mut |node, f| {
        let (model, info) = wire::decode(&node.w, f.ty, &f.recv);
        if info.damaged || f.damaged {
            sh().nontrivial += 1;
        }
        let v = node.decode(f.ty, &f.recv)?;
        let out = sut("encode", || v.encode(&node.ctx))?.to_vec();
        ev(4, out.len() as u64, info.noncanonical as u64);
        if info.noncanonical { P::NonCanonical.hit() } else { P::Canonical.hit() }
        note(&model);
        {
            let want = if info.noncanonical { wire::encode(&model) } else { f.recv.clone() };
            if out != want {
                return fail(
                    if info.noncanonical { "reencode-differs-noncanonical" } else { "reencode-differs" },
                    format!("received {}\n re-encoded {}\n expected   {}\n decoded as {}\n schema:\n{}",
                        wire::hex(&f.recv), wire::hex(&out), wire::hex(&want), wire::show(&wire::from_pf(&v, &node.bind)), node.text));
            }
        }
        let again = node.decode(f.ty, &out)?;
        let (a, b) = (wire::from_pf(&v, &node.bind), wire::from_pf(&again, &node.bind));
        if a != b {
            return fail("reencode-decode-differs", format!(
                "received {}\n re-encoded {}\n decodes differently: {}", wire::hex(&f.recv), wire::hex(&out), diff(&a, &b, "")));
        }
        let out2 = sut("encode", || again.encode(&node.ctx))?;
        if out2[..] != out[..] {
            return fail("reencode-unstable", format!("{} re-encodes to {}", wire::hex(&out), wire::hex(&out2)));
        }
        Ok(())
    })
}
