#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, lib/methods.py and the table of seeds (tools/caught.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import methods, registry
t = "| property | level | engine | contracts |\n|---|---|---|---|\n"
for p in sorted(methods.M): t += "| %s %s | %s | %s | %s |\n" % (p, registry.PROPS[p]["title"], methods.M[p][0], methods.M[p][1], methods.M[p][2])
c = json.load(open(os.path.join(V, "tools", "caught.json")))
s = "| change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    s += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), c.get(d, "?"))
open(os.path.join(V, "DESIGN.md"), "w").write(open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("@TABLE@", t).replace("@SEEDS@", s))
