#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        rec = {k: p[k] for k in ("id", "title", "statement", "why_tests_cant")}
        rec["quantifier"] = {"over": p["over"], "text": p["quant"]}
        rec["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        if "observe" in p: rec["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(rec) + "\n")
BOTH = "P02 P04 P06 P07 P08 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22".split()
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults; " + p["tech"] + ("; and end-to-end histories of the whole crate on the real V8 whose oracles imply it" if p["id"] in BOTH else ""),
        "level": "exploration",
        "level_note": p.get("note", "Sampled schedules and faults; nothing is exhausted. The components named in the evidence run their real code, the rest is a stub."),
    })
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh",
  "hooks": {"guard": "none needed: the simulation swaps std, tokio, libc and V8 underneath /repo's sources at build time", "enable": "nothing to enable: /verif/sim/sut/build.rs compiles /repo/src with `std` bound to the simulated std", "source_commits": []},
  "checks": checks, "not_applicable": na,
  "notes": "replay a violation: bash /verif/replay.sh FILE"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
