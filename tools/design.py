#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the two markers) from properties.jsonl, checks.py and seeded/."""
import json, os, re
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
seeds = {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d)); seeds.setdefault(m["property"], []).append((d, m["needs"]))
out = []
for p in P:
    c = checks.CHECKS.get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if not c: out.append("not claimed\n"); continue
    out.append("* deciding step: %s (level `%s`, program%s %s)" % (c["technique"], c["level"], "s" if len(c["programs"]) > 1 else "", ", ".join("`harness/%s.cpp`" % q["name"].rstrip("0123456789") for q in c["programs"])))
    out.append("* bounds: %s" % c["bounds"])
    for a in c.get("assumptions", []): out.append("* assumption: %s" % a)
    for d, n in seeds.get(p["id"], []): out.append("* planted bug `%s` (%s): caught by %s" % (d, n, p["id"]))
    out.append("")
t = open(V + "/DESIGN.md").read(); a, b = "<!-- generated by tools/design.py -->\n", "<!-- end -->\n"
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(out) + t[t.index(b):]
open(V + "/DESIGN.md", "w").write(t)
