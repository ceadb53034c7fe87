"""Assemble DESIGN.md: the hand written head and tail plus one section per property (lib/design/*.md)."""
import os, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "lib/design")
out = open(os.path.join(D, "00-head.md")).read()
out += "## Properties\n\n"
for f in sorted(glob.glob(os.path.join(D, "[A-Z]*.md"))): out += open(f).read().rstrip() + "\n\n"
caught = json.load(open(os.path.join(D, "caught.json")))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, 'not run yet')} |")
out += open(os.path.join(D, "99-tail.md")).read().replace("SEEDTABLE", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
