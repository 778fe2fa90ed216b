//! Decoding survives any damaged stream within bounded work.
use super::*;

/// Bounds per unit of input, far above what is ever measured on correct code (the evidence
/// file reports the measured maxima as cost_ratio_max).
const STEPS: u64 = 1_200;
const LIVE: i64 = 900;
const COPIED: i64 = 1_200;

pub fn run() -> R {
    session(LinkCfg { faults: true, hostile: true, big: true }, &mut |node, f| {
        let (_, info) = wire::decode(&node.w, f.ty, &f.recv);
        // Bytes received times nesting followed.
        let depth = info.depth.min(101) as u64 + 1;
        let unit = (f.recv.len() as u64 + 64) * depth;
        if f.recv != f.sent {
            sh().nontrivial += 1;
        }
        let t0 = seam::steps();
        seam::set_budget(500_000 + STEPS * unit);
        seam::meter_start((1 << 20) + LIVE * unit as i64, (4 << 20) + COPIED * unit as i64);
        // An ordinary worker thread: 2 MiB of stack.
        let r = on_stack(2 << 20, || -> R {
            let v = node.decode(f.ty, &f.recv)?;
            let out = sut("encode", || v.encode(&node.ctx))?;
            let c = sut("clone", || v.clone())?;
            sut("compare", || v == c)?;
            sut("drop", move || drop(c))?;
            ev(7, out.len() as u64, v.fields.len() as u64);
            sut("drop", move || drop(v))?;
            Ok(())
        });
        let (live, copied) = seam::meter_stop();
        let s = seam::steps() - t0;
        seam::usual_budget();
        let rat = &mut sh().ratio;
        if unit > 2000 {
            rat[0] = rat[0].max(s * 100 / unit);
            rat[1] = rat[1].max(live as u64 * 100 / unit);
            rat[2] = rat[2].max(copied as u64 * 100 / unit);
        }
        r.map_err(|v| Violation { kind: v.kind, msg: format!("{}\n received {}\n schema:\n{}", v.msg, wire::hex(&f.recv), node.text) })
    })
}
