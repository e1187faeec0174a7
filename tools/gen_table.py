#!/usr/bin/env python3
"""Rewrites the table of planted bugs in /verif/DESIGN.md from /verif/seeded."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
t = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    t.append(f"| {d.split('/')[1]} | {m['needs']} | {m['property']} |")
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- table[^>]*-->\n).*?(\n<!-- end -->)", lambda m: m[1] + "\n".join(t) + m[2], s, flags=re.S)
open("DESIGN.md", "w").write(s)
