#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os
from registry import PROPS
from notes import note
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: functions are extracted from the sources and drivers use the public interface", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. known-findings.txt lists the defects found and repaired."}
for p, s in PROPS.items():
    if s.get("na"):
        m["not_applicable"].append({"property": p, "reason": s["na"]})
        continue
    m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                        "evidence_file": f"evidence/{p}.json", "technique": s.get("technique", "executable contracts on the real crate (bounded)"), "level": s["level"],
                        "level_note": note(p)})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

# the same text in DESIGN.md
p = os.path.join(HERE, "DESIGN.md")
d = open(p).read()
a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
if a in d:
    from notes import N
    t = ""
    for q, s in PROPS.items():
        t += f"**{q} {s['title']}**"
        t += f" (units: {', '.join(s['units'])}; drivers: {', '.join(x for _, x in s['drivers'])})\n" if s.get("units") else f" (drivers: {', '.join(x for _, x in s['drivers'])})\n"
        for k in ("proved", "bounded", "assumed"):
            if N[q].get(k):
                t += f"- {k}: {N[q][k]}\n"
        t += "\n"
    d = d[:d.index(a) + len(a)] + t + d[d.index(b):]
    open(p, "w").write(d)
