"""Appends the table of planted bugs to DESIGN.md (everything after the marker line is rewritten)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, "tools", "bugs.json")))      # id -> [result, note]
rows = ["| id | breaks | needs | quick check |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    r = res.get(i, ["not run", ""])
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], r[0] + (" (%s)" % r[1] if r[1] else "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
k = s.index("beside it.\n\n") + len("beside it.\n\n")
open(p, "w").write(s[:k] + "\n".join(rows) + "\n")
