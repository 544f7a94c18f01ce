"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (run after adding one)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/")))
t = open(V + "/DESIGN.md").read()
new = ("<!-- bugs -->\n%d changes, each applied alone to a clean tree; every one passes the existing tests and is caught by the quick\n"
       "check of the property named (exit 1, VIOLATION).\n\n| change | caught by | what it breaks |\n|---|---|---|\n%s\n<!-- /bugs -->" % (len(rows), "\n".join(rows)))
t = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: new, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
