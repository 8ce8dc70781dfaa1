#!/usr/bin/env python3
"""Refreshes the table of planted bugs of DESIGN.md. Arguments : ID=Pxx,Pyy  the checks that caught a bug (kept in tools/caught.json)"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); F = V + "/tools/caught.json"
c = json.load(open(F)) if os.path.exists(F) else {}
for a in sys.argv[1:]: i, k = a.split("="); c[i] = sorted(set(c.get(i, [])) | set(k.split(",")))
json.dump(c, open(F, "w"), indent=0, sort_keys=True)
t = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); t += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(c.get(i, [])) or "not caught")
s = open(V + "/DESIGN.md").read(); A, B = "<!-- seeds -->\n", "<!-- end -->\n"
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE\n", A + B)
s = s[:s.index(A) + len(A)] + t + s[s.index(B):]; open(V + "/DESIGN.md", "w").write(s)
