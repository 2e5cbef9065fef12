#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {"C19": "wire formats", "C20": "amount arithmetic", "C31": "governance packets"}
HIST = {"C02", "C04", "C07", "C12", "C13", "C21", "C23", "C28", "C30"}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    t = "runtime monitoring: the real programs under a hostile randomized workload, every transaction judged online by a step oracle"
    if p in HIST:
        t += " and by history monitors over the recorded event sequence"
    if p in PURE:
        t += "; library-call monitor of %s against an independent codec/exact arithmetic" % PURE[p]
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": t,
        "level": "exploration",
        "level_note": "Holds on every execution observed (counts in the evidence file), no proof. Trusts the oracle in harness/src/spec.rs, the Solana 1.18 invoke context, the token programs and the core bridge binary; programs run as host code from the same source, not as SBF binaries.",
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks are needed in /repo: the monitors observe account state, the invocation trace and return data of the unmodified programs. Three genuine defects were repaired (known-findings.txt).",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
