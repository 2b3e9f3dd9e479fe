#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  CLAIMED lists the properties that have a check."""
import json, os, sys
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else ["C%02d" % i for i in range(1, 22)]
NOTE = {
 "C01": "Every decode of every simulated stream is judged against the sender's own messages; sampled schedules, not all.",
 "C02": "Every cut of short frames and sampled cuts of long ones, plus need-driven receivers under sender death.",
 "C03": "Multi-hop histories with restarts; the stored and relayed message is judged against the generated one, bit for bit.",
 "C04": "Judged against an independent codec written from the specification, which also plays the foreign node.",
 "C05": "Any acceptance is judged against the independent codec's reading of the same bytes; refusals are not judged here (C01-C04 do).",
 "C06": "Steps, peak memory and stack are measured inside the library by instrumentation and bounded by a generous multiple of what the input accounts for.",
 "C07": "Descriptors are numbers whose owner is known, so every delivery of a foreign one is seen.",
 "C08": "Replies are judged exactly against a reference; completion and exactly-once over the recorded history; liveness after faults stop.",
 "C09": "Every match answer is judged against reference matching; deliveries against the reference bus.",
 "C10": "Every accepted text is judged against a reference reading of the quoting grammar; every legal quoting must be accepted.",
 "C11": "Real threads run one at a time under a seeded scheduler that can preempt at any basic block edge, allocation or synchronisation call of the library; judged against results of fresh sequential processes.",
 "C12": "Every operation of a history is compared with the same operation alone in a fresh process.",
 "C13": "Every emitted frame is judged by the independent codec; refusals are judged by the model of the limits.",
 "C14": "Object tree dispatch is judged against component-wise reference routing.",
 "C16": "Every request, by each way in, is judged against the reference grammars, before and after damage and restarts.",
 "C17": "Every table operation is judged against a table of the contents; comparisons by their laws and by the contents.",
 "C18": "Every conversion is judged against a reference reading of the values, over chains of gateways with faults between them.",
 "C19": "Every reading is judged against the reference signature grammar, every printing against the text.",
 "C20": "Every refusal is judged against the input it refuses, and its text against what it carries; faults are single ones with a name, or any damage.",
 "C21": "Every answer, listing, signal and step of a message under construction is judged against a reference property store that follows the same history.",
 "C15": "Every text is compared with the text written into a working sink, for sinks failing at any byte.",
}
NA = {}
ch = []
for p in CLAIMED:
    ch.append(dict(property=p, quick_cmd="./check.sh " + p, thorough_cmd="./check.sh " + p,
        evidence_file="evidence/%s.json" % p,
        technique="deterministic simulation with fault injection (seeded search over schedules, inputs and faults)",
        level="exploration",
        level_note=NOTE[p] + " Trusts the reference model in sim/src/model.rs and the simulator; one seed repeats one execution exactly, and no bounded space is exhausted."))
na = [dict(property=k, reason=v) for k, v in NA.items()]
for i in range(1, 22):
    p = "C%02d" % i
    if p not in CLAIMED:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="none", enable="No change to /repo is needed: the library has no I/O, clock or threads of its own, and its scheduling points come from compiler instrumentation (-Csanitizer-coverage style passes applied by sim/rustc-wrap.sh to the dbus_message_parser crate only).", source_commits=[]),
  checks=ch, not_applicable=na,
  notes="VERIF_SEED selects the seed, VERIF_TIER=thorough multiplies the runs. A violation's replay file is replayed exactly by ./replay.sh FILE.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
