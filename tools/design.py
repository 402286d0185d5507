#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (what decides each property, within
what bounds) from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, E = "<!-- generated: begin -->", "<!-- generated: end -->"
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    q = PROPS.get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if not q:
        continue
    for h in q["harnesses"]:
        t = " *(thorough%s)*" % ((", instead of `%s`" % h["supersedes"]) if h.get("supersedes") else "") if h.get("thorough") else ""
        out.append("- `%s`%s: %s" % (h["name"], t, h["what"]))
    out.append("\n**Bounds:** %s.\n" % q["bounds"])
    out.append("**Outside:** %s.\n" % q["outside"])
    for a in q.get("assumptions", []):
        out.append("**Assumed:** %s.\n" % a)
s = open(V + "/DESIGN.md").read()
i, j = s.index(B), s.index(E)
open(V + "/DESIGN.md", "w").write(s[:i] + B + "\n\n" + "\n".join(out) + "\n" + s[j:])
