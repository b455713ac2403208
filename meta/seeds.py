"""Refresh the table of planted bugs in DESIGN.md."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"]))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| id \| property \| what it breaks \|\n\|---\|---\|---\|\n)(?:@@SEEDS@@\n|(?:\| s.*\n)*)", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
