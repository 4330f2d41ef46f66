#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 "C15": "runtime monitoring: repeated, reordered, multi-process and multi-threaded executions compared bit for bit; allocation monitor; ThreadSanitizer, AddressSanitizer, Miri",
 "C20": "runtime monitoring: round trips through three serializers and interrupted histories compared bit for bit",
 "C14": "runtime monitoring: panic, overflow, non-finite and hang watchdog monitors under hostile workloads",
 "C33": "runtime monitoring: online checker of recorded seasons against per-event reference formulas, offline check of the final table",
}
def tech(i):
    n = int(i[1:])
    if i in TECH: return TECH[i]
    if 21 <= n <= 32: return "runtime monitoring: every execution compared with an independent reference model of the published formulas"
    return "runtime monitoring: relational oracle over pairs/sequences of executions, hostile and source-steered workloads"
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech(i),
        "level": "exploration",
        "level_note": "Held on every execution observed (counts in the evidence file); nothing is claimed beyond the sampled inputs, which are deterministic in VERIF_SEED and stay on the customary scale of each system (DESIGN.md, Domain). Trusts the harness's reference model, rustc and libm.",
    })
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public interface. The harness in /verif/harness depends on /repo by path and is rebuilt by every check."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
