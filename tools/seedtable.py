"""writes the table of planted bugs into DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = dict(C12="R/T", C13="P", C14="P", C15="P", C16="P", C17="P", C18="R/T", C19="R/T", C21="R")
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    p = m["property"]
    rows.append("| %s | %s | %s quick (%s) |" % (os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "/"), p, by.get(p, "T")))
f = here + "/DESIGN.md"
s = open(f).read()
b, e = "<!-- SEEDS -->", "<!-- /SEEDS -->"
if e not in s:
    s = s.replace(b, b + "\n" + e)
s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: b + "\n" + "\n".join(rows) + "\n" + e, s, flags=re.S)
open(f, "w").write(s)
