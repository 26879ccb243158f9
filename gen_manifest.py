#!/usr/bin/env python3-vt
"""Writes MANIFEST.json and checks it and properties.jsonl against their schemas."""
import json, jsonschema
T = "deterministic simulation with fault injection: seeded schedules, inputs, edit histories and token-server faults around the real library, "
how = {
 "C01": "emission compared with the delivered tokens",
 "C02": "stream positions compared with the known framing of the document",
 "C03": "observed structure compared with the generated declaration",
 "C04": "damaged streams; emission compared with what was consumed",
 "C05": "located errors and continuation compared with the document",
 "C06": "histories of each session compared alone, repeated, interleaved and preempted",
 "C07": "refinement against a sequence model",
 "C08": "refinement against a declaration model, with restarts from tokens and text",
 "C09": "queries compared with the declaration model along edit histories",
 "C10": "refinement against a list-of-messages model",
 "C11": "locations compared with a first-to-last-token oracle under varied span joining",
 "C12": "token operations counted at the seam against a linear bound, with watchdog and memory budget",
 "C13": "interpreted paths compared with the generated type",
 "C14": "streams of unsupported constructs; emission compared with what was consumed",
 "C15": "debugging views with distinct words and failing sinks compared with the declaration model",
}
note = ("Seeded random search: the property held in every simulated run of the stated number, which is not a proof. "
        "Runs the real library from /repo's working tree; trusted are the reference models and generators in sim/vsim and "
        "the hooked copy of proc-macro2 that stands in for the compiler's token server. Every violation is reproduced in a "
        "process of its own and minimised before it is reported.")
na = {
 "C20": "Whether the compiler accepts an input is decided by rustc's grammar, for which there is no executable reference here apart from rustc itself, and the answer depends on the input alone: no schedule, fault, clock or history takes part. The supported part of the grammar is covered by C01-C03.",
 "C22": "A statement about wall-clock build times of other crates, which a simulation with its own notion of time cannot measure.",
}
man = {
 "version": 1,
 "setup_cmd": "bash /verif/build.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"VERIF_TIER=quick bash /verif/check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {p}",
   "technique": T + h,
   "level": "exploration",
   "level_note": note,
 } for p, h in how.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "No hooks in /repo: the seam is proc-macro2, replaced through [patch.crates-io] of the harness crate only.",
}
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert sorted(ids) == sorted(list(how) + list(na)), ids
