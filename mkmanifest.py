#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
NOTE = {
 "C01": "Reference-free: panics, aborts, stack exhaustion, endless work, step/allocation budgets per byte are observed in real runs. Assumes budgets with a 20x margin over the measured maximum.",
 "C02": "Every cut of the drawn messages is compared with the whole message. Trusts the reference encoder/decoder (wire.rs).",
 "C03": "Differential against the undamaged decode. Trusts the reference decoder for where fields lie.",
 "C04": "Byte comparison with what arrived; for non-canonical input with the reference encoder.",
 "C05": "Relay chains of real contexts; end-to-end byte comparison and field values against what the sender meant.",
 "C06": "Real threads, one running at a time, switched at every instrumented basic block and lock by a seeded scheduler. Interleavings below basic-block level and weak-memory effects are not explored.",
 "C07": "Every history step compared with a model and with a shadow context that saw only the accepted operations.",
 "C08": "Every delivery order drawn is compared with an independent reference resolver.",
 "C09": "Step and stack budgets; an independent reader decides what must not load; contexts are checked for agreement.",
 "C10": "Everything observed is compared with what a fresh process sees and with the reference decoder.",
 "C11": "Snapshots of every type ever seen and every value ever decoded, re-observed as the context grows.",
 "C12": "Typed comparison with a reference decoder written from the wire format.",
 "C13": "Real allocator metering over repeated rounds. A store that stops growing within 1536 rounds is accepted.",
}
TECH = {
 "C06": "deterministic simulation: seeded thread scheduler over the real code, reference oracle",
 "C07": "deterministic simulation: seeded modification histories with conflicting and failing operations, model and shadow",
 "C08": "deterministic simulation: seeded delivery orders of schema files, reference resolver",
 "C09": "deterministic simulation: seeded storage faults on schema files, resource budgets, independent reader",
 "C10": "deterministic simulation: seeded process histories, restarts, hash seeds, clock and heap faults",
 "C11": "deterministic simulation: seeded interleavings of growth and use, recorded history",
 "C13": "deterministic simulation: seeded repeated histories with storage, transport and API faults, metered allocator",
}
NA = {
 "C20": "Acceptance of the proto3 grammar is a function of one input text: no schedule, time, I/O, fault or history takes part, so simulation adds nothing to plain input generation.",
 "C21": "The value of a literal is a function of its text alone; nothing nondeterministic or multi-party takes part.",
 "C22": "Equality of an API-built and a parsed context compares two pure constructions; no schedule, fault or history takes part (the parts that depend on history are C07 and C11).",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "bash sim/build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "./check.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, "deterministic simulation: seeded transport and peer faults over the real decoder, reference decoder as oracle"),
        "level": "exploration",
        "level_note": NOTE[i],
    })
m["notes"] = "No hooks in /repo: the seams are compiler instrumentation (RUSTC_WRAPPER, only in sim/build.sh), libc entry points, the allocator and the public API. Replay a violation with ./replay.sh FILE."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
