#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "| bug | caught by | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    t += "| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"))
s = open(V + "/DESIGN.md").read()
if "@SEEDS@" in s: s = s.replace("@SEEDS@", t)
else: s = re.sub(r"\| bug \| caught by \| needs \|\n(\|.*\n)+", lambda m: t, s)
open(V + "/DESIGN.md", "w").write(s)
