"""Print the table of planted bugs (from seeded/*/meta.json) and put it in DESIGN.md
between the two markers.  Documentation only: no check uses it."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    one = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                one(m["what_it_breaks"]), m.get("caught_by", m["property"])))
t = "| planted bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
d = open(root + "/DESIGN.md").read()
B, E = "<!-- seeds:begin -->", "<!-- seeds:end -->"
if "@@SEEDTABLE@@" in d:
    d = d.replace("@@SEEDTABLE@@", B + "\n" + E)
i, j = d.index(B), d.index(E)
d = d[:i + len(B)] + "\n" + t + "\n" + d[j:]
open(root + "/DESIGN.md", "w").write(d)
print(len(rows))
