#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(root, "tools", "claimed.txt")).read().split()
TECH = "deterministic simulation: seeded search over client schedules, hook/encoder/storage faults and map orders, "
T = {
 "C01": TECH + "checked step by step against a reference model of the registry",
 "C02": TECH + "with injected hook errors and panics, checked against before-images, a model and a shadow run without the failure",
 "C03": TECH + "with statement-level preemption of concurrent reflectors under the race detector, checked against solo runs",
 "C04": TECH + "with statement-level preemption of concurrent readers under the race detector, checked against solo results",
 "C05": TECH + "comparing bytes between alternative orders, interleavings and map orders of the same registrations",
 "C06": TECH + "with crash and restart from a simulated disk, checked against an uninterrupted shadow run and the persisted content",
 "C07": TECH + "with torn, truncated, bit-flipped and restructured persisted documents",
 "C08": TECH + "with callbacks failing or panicking at every call, checked against the registration of the same content",
 "C09": TECH + "with failing hooks, checking every hook call against the declaration it belongs to",
 "C10": TECH + "checking well-formedness invariants after each step",
 "C11": TECH + "checked against an independent reference model of the document",
 "C12": TECH + "driving both versions with one plan and comparing normalised documents",
 "C13": TECH + "with encoders failing, panicking or recovering at every call",
}
NOTE = ("Sampled, not exhaustive: passes mean that no violation was found in the runs counted in the evidence file. "
        "Trusts the generator's scope, the reference model, the Go toolchain and the libraries below openapi-go.")
NA = {
 "C14": "A pure function of one input value: there is no schedule, fault, crash, history or randomness for a simulator to control; it would be plain input fuzzing.",
 "C15": "A pure function of two strings: no schedule, fault, crash, history or randomness is involved (its effects on registrations are covered by C01 and C11).",
}
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "hooks": {"guard": "none: /repo carries no hooks; yield points and the seeded map order go in through 'go build -overlay'",
           "enable": "checks generate the overlay from /repo's working tree with sim/cmd/instr and build sim/cmd/worker with it",
           "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "One driver (sim/cmd/driver) decides every property: './check ID'. './replay FILE' executes a replay file again. VERIF_TIER=thorough explores for 25 minutes (VERIF_TIME overrides).",
}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "No check yet (under construction).")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
