"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {"c01-absolute-tolerance", "c05-floored-eigenvalues", "c08-close-distance",
         "c09-projection-shortcut", "c25-many-samples", "c20-fresh-estimator",
         "c25-texture-floor", "c30-long-columns", "c28-displayed-iteration",
         "c08-shared-spectrum",
         "c33-shared-workspace", "c33-points-kept", "c20-shallow-copy"}
MARK = "<!-- table of planted bugs, written by tools/mktable.py -->\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index(MARK)] + MARK
s += "\n| planted bug | caught by | what it breaks | manifests with |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    s += "| %s%s | %s | %s | %s |\n" % (
        i, " (*)" if i in FIRST else "", m["property"],
        m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
s += "\n(*) missed when first planted; the check was strengthened.\n"
open(p, "w").write(s)
