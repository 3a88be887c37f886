"""Write the table of planted bugs into DESIGN.md (between the two markers)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
missed = {}
p = os.path.join(root, "tools", "missed.json")
if os.path.exists(p):
    missed = json.load(open(p))
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    what = re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "/")
    rows.append("| %s | %s | %s |" % (d, missed.get(d, m["property"]), what))
t = "| planted change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
a, b = "<!-- planted:begin -->\n", "<!-- planted:end -->"
s = s[: s.index(a) + len(a)] + t + s[s.index(b):]
open(f, "w").write(s)
