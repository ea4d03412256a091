#!/usr/bin/env python3
"""spec/ExactGeomPlain.tla: the definitions of spec/ExactGeom.tla under names without Java override."""
import os, re
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
s = open(d + "/ExactGeom.tla").read()
for n in re.findall(r"^(?:RECURSIVE )?(\w+)\(", s, re.M):
    s = re.sub(r"\b%s\b" % n, "P" + n, s) if not re.search(r"\bP%s\b" % n, s) else s
s = s.replace("MODULE ExactGeom", "MODULE ExactGeomPlain")
s = re.sub(r"\(\* Exact integer.*?\*\)", "(* The definitions of ExactGeom under names that have no override (written by tools/mkplain.py). *)", s, flags=re.S)
open(d + "/ExactGeomPlain.tla", "w").write(s)
