#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plans import PLANS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
SPECS = {**{f"C{i:02d}": "Windows.tla" for i in range(1, 11)}, "C11": "Spans.tla", "C12": "Spans.tla",
         **{f"C{i}": "Numbers.tla" for i in range(13, 19)}, **{f"C{i}": "Graph.tla" for i in range(19, 25)},
         **{f"C{i}": "Scheduler.tla" for i in range(25, 28)}, "C28": "Render.tla", "C29": "Render.tla", "C30": "Render.tla", "C31": "Endless.tla, Iterators.tla"}
checks = []
for i in ids:
    if i not in PLANS: continue
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": f"explicit TLA+ specification ({SPECS[i]}) model-checked with TLC; spec behaviours replayed on the code and recorded histories of the code validated by TLC against the spec",
        "level": "model_checking",
        "level_note": "The specification is checked exhaustively within small constants; the binding to the code is exhaustive over the spec's small universes and seeded-random beyond. Trusts TLC, and the harness's projection between abstract values and real ticks.",
    })
m = {"version": 1,
     "setup_cmd": "cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir harness/target",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PLANS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
