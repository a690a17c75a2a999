"""rewrites section 7 of DESIGN.md from seeded/*/meta.json (run by hand)"""
import json, glob
t = "| planted bug | property (its check catches it) | what breaks |\n|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    t += f"| {d.split('/')[1]} | {m['property']} | {m['what_it_breaks']} |\n"
h = "## 7. Table of planted bugs\n"
s = open("DESIGN.md").read()
open("DESIGN.md", "w").write(s[: s.index(h)] + h + "\n" + t)
