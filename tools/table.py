#!/usr/bin/env python3
"""table.py: rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/DESIGN.md"; s = open(p).read(); mark = "<!-- planted -->\n"
rows = sorted((json.load(open(m))["property"], m.split("/")[-2], json.load(open(m))) for m in glob.glob(V + "/seeded/*/meta.json"))
t = "".join(f"| {i} | {p_} | {m['what_it_breaks']} | {m['needs']} |\n" for p_, i, m in rows)
open(p, "w").write(s.split(mark)[0] + mark + "| planted bug | caught by | breaks | needs |\n|---|---|---|---|\n" + t)
