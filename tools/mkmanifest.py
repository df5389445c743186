#!/usr/bin/env python3
"""Writes MANIFEST.json from propinfo.INFO and properties.jsonl."""
import json, os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import propinfo
NA = getattr(propinfo, "NOT_APPLICABLE", {})
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in propinfo.INFO:
        inf = propinfo.INFO[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
            "technique": inf.get("technique", "runtime monitoring: generated workloads run through the real code, judged by an independent oracle"),
            "level": inf["level"], "level_note": inf.get("note", "the deciding step is an oracle observing executions; bounded by the workload generated for the seed")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is claimed yet (work in progress)")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na}
if hasattr(propinfo, "HOOKS"):
    m["hooks"] = propinfo.HOOKS
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("manifest ok", len(checks), "checks", len(na), "n/a")
except ImportError:
    print("no jsonschema")
