#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed iff harness/<ID>*.cpp exists."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])], "observe_at": observe or [], "hook_needed": None}})
exec(open(V + "/tools/props.py").read())
NA = {}
exec(open(V + "/tools/na.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if glob.glob(V + "/harness/%s*.cpp" % i):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier=thorough" % i,
                       "technique": "symbolic execution of the LLVM IR of the real code, assertions decided by SMT (bit-vectors: MiniSat-style SAT core with Z3 cross-check)",
                       "level": "model_checking", "level_note": "bounded: " + NOTE.get(i, "see the //! bound lines of harness/%s*.cpp and the evidence file" % i)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no harness yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
