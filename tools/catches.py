"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (between its two markers)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
t = "<!-- planted -->\n| planted bug | caught by the quick check of | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
p = H + "/DESIGN.md"
s = open(p).read()
s = s.replace("@PLANTED@", t) if "@PLANTED@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
