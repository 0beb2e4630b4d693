#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
L = "wruster/src/"


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": [f if f.startswith("wrus") else L + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na is not None:
        NA.append({"property": id, "reason": na})
    else:
        assert os.path.exists(os.path.join(HERE, "wv", "rules", id.lower() + ".py")), id
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                       "technique": technique, "level": "other", "level_note": note})


exec(open(os.path.join(HERE, "tools", "props.py")).read())
PROPS.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda c: c["property"]); NA.sort(key=lambda n: n["property"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": CHECKS, "not_applicable": NA,
     "notes": "Static analysis only: a MIR fact extractor (rustc driver, /verif/driver) and an abstract interpreter over those facts (/verif/wv). "
              "No hooks in /repo. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(CHECKS), "checks", len(NA), "n/a")
os.system("python3 %s/tools/design.py" % HERE)
