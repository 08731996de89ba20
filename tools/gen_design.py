"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeded -->", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (d.split("/")[-2], m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
rows.append("<!-- /seeded -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("SEEDED-TABLE", t) if "SEEDED-TABLE" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
