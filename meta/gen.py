#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/Meshing/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=(), observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, technique, note, na))


exec(open(os.path.join(V, "meta", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, tech, note, reason in P:
    if tech:
        checks.append({"property": d["id"], "quick_cmd": "python3 bin/check.py " + d["id"], "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": d["id"], "reason": reason})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C tool", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: vcsa (tool/, LLVM 18) on whole-program IR compiled from /repo's current sources on every run, and the type checker. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
