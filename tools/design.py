#!/usr/bin/env python3
"""fills the tables of DESIGN.md (between markers) from props.py, seeded/ and known_findings.txt"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
M = json.load(open(R + "/MANIFEST.json"))
C = {c["property"]: c for c in M["checks"]}
tab, na = [], []
for n in M["not_applicable"]:
    t = next((p for p in P if p["id"] == n["property"]), None)
    na.append("* **%s** %s: %s" % (n["property"], t["title"] if t else "", n["reason"]))
for p in P:
    c = C.get(p["id"])
    if not c:
        continue
    note = c["level_note"]
    note = note[note.index("rustc's MIR; ") + 13:] if "rustc's MIR; " in note else note
    tab.append("* **%s %s** (`wv/rules/%s.py`)\n  *Method:* %s.\n  *Ranges over:* %s.\n  *Why tests cannot settle it:* %s.\n  *Bounds and assumptions:* %s." % (
        p["id"], p["title"], p["id"].lower(), c["technique"], p["quantifier"]["text"], p["why_tests_cant"], note.rstrip(". ")))
seeds = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    seeds.append("* `%s` (%s): %s" % (d, m["property"], m["what_it_breaks"]))
fx = ["* " + l.strip()[len("fixed: "):] for l in open(R + "/known_findings.txt") if l.startswith("fixed:")]
s = open(R + "/DESIGN.md").read()
for k, v in (("TABLE", tab), ("NA", na), ("SEEDS", seeds), ("FIXES", fx)):
    body = "<!-- %s -->\n%s\n<!-- /%s -->" % (k, "\n".join(v) or "none", k)
    if "@@%s@@" % k in s:
        s = s.replace("@@%s@@" % k, body)
    else:
        s = re.sub(r"<!-- %s -->.*<!-- /%s -->" % (k, k), lambda _: body, s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
