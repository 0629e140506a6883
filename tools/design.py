#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import spec, specs
parts = {}
for f in sorted(glob.glob(H + "/harness/*.cpp")):
    for m in re.finditer(r'VF_PROP\("([^"]+)",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        parts.setdefault(m[1].split(".")[0], []).append((m[1], m[2], m[3], m[4], os.path.basename(f)))
text = {}
for s in open(H + "/tools/design_props.md").read().split("@")[1:]:
    i, b = s.split("\n", 1); text[i] = b.strip()
out = open(H + "/tools/design_head.md").read()
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
for p in props:
    i = p["id"]
    out += f"### {i} – {p['title']}\n\n"
    if i not in spec.PROPS:
        out += "Not claimed: " + spec.NA.get(i, "") + "\n\n"; continue
    for n, q, t, r, f in parts.get(i, []):
        out += f"* `{n}` ({f}; {q} / {t} cases): {r}\n"
    out += "\n" + text.get(i, "") + "\n\n"
out += open(H + "/tools/design_tail.md").read()
out += "\n## 5. Genuine defects found (all repaired by `fix:` commits in /repo)\n\n| property | commit | what failed |\n|---|---|---|\n"
for k in json.load(open(H + "/known_findings.json")):
    out += f"| {k['property']} | {k.get('commit','–')} ({k['status']}) | {k['what']} |\n"
out += "\n## 6. Planted bugs\n\n`seeded/<id>/`; none is read by a check. The last column names the check that reported it when it was planted.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out += f"| {i} | {m['property']} | {str(m['needs'])[:400]} | {m.get('caught_by', m['property'])} |\n"
open(H + "/DESIGN.md", "w").write(out)
