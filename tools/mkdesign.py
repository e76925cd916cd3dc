"""Fills the lists of repairs and planted bugs into DESIGN.md (between the markers)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]
fixes = "\n".join("* " + e[len("fixed: property="):] for e in fx)
rows = ["| change | caught by | needs |", "|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
for tag, text in (("FIXES", fixes), ("SEEDS", "\n".join(rows))):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, text, tag), s, flags=re.S)
open(p, "w").write(s)
