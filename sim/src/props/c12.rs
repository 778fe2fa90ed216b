//! Whatever arrives decodes to what the wire format says, never else.
use super::*;

pub fn run() -> R {
    session(LinkCfg { faults: true, hostile: chance(1, 4), big: true }, &mut |node, f| {
        let (want, info) = wire::decode(&node.w, f.ty, &f.recv);
        note(&want);
        if info.noncanonical {
            P::NonCanonical.hit();
        }
        if info.depth >= 30 {
            P::DeepNest.hit();
        }
        let v = node.decode(f.ty, &f.recv)?;
        if info.too_deep {
            P::TooDeep.hit();
        }
        let got = wire::from_pf(&v, &node.bind);
        if f.damaged {
            sh().nontrivial += 1;
        }
        ev(3, got.f.len() as u64, info.damaged as u64);
        if got != want {
            return fail("decode-differs", format!(
                "received bytes {} decode differently from the wire format\n first difference (decoded vs expected): {}\n schema:\n{}",
                wire::hex(&f.recv), diff(&got, &want, &node.w.msgs[f.ty].full), node.text));
        }
        // Both entry points are one decoder.
        let v2 = sut("decode", || node.ctx.resolve_message(node.bind.msgs[f.ty]).decode(&f.recv, &node.ctx))?;
        if wire::from_pf(&v2, &node.bind) != want {
            return fail("decode-differs", "MessageInfo::decode differs from Context::decode".into());
        }
        Ok(())
    })
}
