#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from DESIGN.in.md, the check modules and seeded/*/meta.json."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from properties import PROPS
t = open(os.path.join(V, "DESIGN.in.md")).read()
rows = []
for p in PROPS:
    f = os.path.join(V, "vp/checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    m = importlib.import_module("vp.checks." + p["id"].lower())
    rows.append("### %s %s\n\n%s\n\n* Method: %s.\n* Cases: %s\n* Assumptions and bounds: %s.\n* Why tests cannot: %s\n* Size: %d cases quick (at most %d s), %d thorough (at most %d s).\n" % (
        p["id"], p["title"], p["statement"], p["technique"], m.RULE + ".", "; ".join(m.ASSUMPTIONS), p["why"], m.CASES["quick"], m.TIME["quick"], m.CASES["thorough"], m.TIME["thorough"]))
t = t.replace("PROPERTY-TABLE", "\n".join(rows))
c = ["| planted bug | property | needs | caught by | missed by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    ch = m.get("checks", {})
    c.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], ", ".join(k for k, v in ch.items() if v) or "-", ", ".join(k for k, v in ch.items() if not v) or "-"))
t = t.replace("CATCH-TABLE", "\n".join(c))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
