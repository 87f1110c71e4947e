#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md from props.py and the rules"""
import os, sys, inspect
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "meta"))
from props import PROPS, NA
from rules.registry import RULES
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
i, j = s.index(a) + len(a), s.index(b)
out = []
for q in sorted(PROPS, key=lambda q: q["id"]):
    if q["id"] in dict(NA): continue
    out.append("### %s %s\n\nDecided by: %s.\nBounds: %s.\nBeyond tests: %s.\nRules:\n" % (q["id"], q["title"], q["technique"], q["note"].rstrip("."), q["why"].rstrip(".")))
    for r in RULES[q["id"]]:
        d = inspect.signature(r).parameters.get("rule")
        out.append("- `%s` %s" % (r.__name__, d.default if d is not None and isinstance(d.default, str) else (r.__doc__ or "").strip()))
    out.append("")
out.append("### Not applicable\n")
out += ["%s: %s\n" % (k, r) for k, r in NA] or ["None of the listed properties: each was phrased at the strength that its rules decide.\n"]
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
