#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 meta.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    P[-1]["_"] = (technique, note, na)


exec(open(os.path.join(HERE, "propdefs.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_"}) + "\n")
checks, na = [], []
for p in P:
    t, note, why = p["_"]
    if why:
        na.append({"property": p["id"], "reason": why})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": t, "level": "other", "level_note": note})
json.dump({"version": 1, "setup_cmd": "make -C tool", "checks": checks, "not_applicable": na,
           "notes": "Every check parses /repo's current sources with clang (build flags from the project's own CMake files) and decides its property from the resolved syntax tree; nothing of the library is run. "
                    "Paths a check cannot decide are listed under coverage.undecided in its evidence and never reported as violations."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
