"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (key caught_by: checks that were seen to report it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
