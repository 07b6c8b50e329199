#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/props.json and properties.jsonl."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = json.load(open(os.path.join(here, "harness/props.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in spec:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    s = spec[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": s["technique"],
        "level": s["level"],
        "level_note": s["note"]})
m = {"version": 1,
     "setup_cmd": "python3 -m py_compile check.py && clang++ --version && mkdir -p build evidence replays",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public interface, instrumented "
              "element types and instrumented allocators only. Every check "
              "compiles its harness against /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
