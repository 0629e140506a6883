#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import spec, specs
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in spec.PROPS:
        P = spec.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique=P.get("technique", "property-based testing: generated inputs and histories against a reference model, with shrinking"),
            level="exploration", level_note=P.get("note", "Generated-case search against an explicit oracle; no claim beyond the cases run. Trusts the harness' reference model, clang/ASAN, and the replaced clock/randomness.")))
    else: na.append(dict(property=i, reason=spec.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"", checks=checks, not_applicable=na,
         notes="Each check builds its own harness from /repo's working tree (clang, ccache if present) under /verif/build.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
