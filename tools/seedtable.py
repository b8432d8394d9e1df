"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os
s = open("/verif/DESIGN.md").read()
i = s.index("| bug | property | needs | breaks |")
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    c = lambda t: t.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], c(m["needs"]), c(m["what_it_breaks"])))
rest = s[i:].split("\n")
while rest and rest[0].startswith("|"):
    rest.pop(0)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(rows + rest))
