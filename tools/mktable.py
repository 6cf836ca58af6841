"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|-----|-----------|-------|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                                         " ".join(m["needs"].split()).replace("|", "\\|")))
p = here + "/DESIGN.md"
s = open(p).read()
block = "<!-- planted: tools/mktable.py -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = re.sub(r"@TABLE@|<!-- planted.*?<!-- end -->", lambda _: block, s, flags=re.S)
open(p, "w").write(s)
