#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    s = PROPS[i]
    eng = ", ".join(e for e, _ in s["engines"]["quick"])
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": s["technique"],
        "level": "exploration",
        "level_note": s.get("note") or f"executions of the real code generated from a seed, engines: {eng}; nothing is claimed beyond what the monitors observed",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the monitors use public extension points (readers, exporters, processors, samplers, id generators, http clients) only", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS],
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
