#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from kani/*/property.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na, doc = [], [], []
for p in props:
    f = os.path.join(V, "kani", p["id"].lower(), "property.json")
    doc.append("### %s %s\n" % (p["id"], p["title"]))
    if os.path.exists(f):
        m = json.load(open(f))
        doc.append("Under contract: " + "; ".join(m["functions"]) + ".\n")
        doc.append(m["level_note"] + "\n")
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": m.get("technique", "contract harnesses over the real code, discharged by Kani (deductive, all inputs)"),
                       "level": m["level"], "level_note": m["level_note"]})
    else:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        doc.append("Not applicable: " + NA[p["id"]] + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "cfg(mockall_verif)", "enable": "RUSTFLAGS='--cfg mockall_verif' (set by check.py)", "source_commits": ["cc7e3bb", "ad40c5c", "00d4fe6"]},
           "checks": checks, "not_applicable": na,
           "notes": "check.py runs one property; DESIGN.md explains the method, the trusted base and the limits."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

d = os.path.join(V, "DESIGN.md")
t = open(d).read()
b = t.index("\n", t.index("<!-- props:begin")) + 1
e = t.index("<!-- props:end")
open(d, "w").write(t[:b] + "\n" + "\n".join(doc) + "\n" + t[e:])
