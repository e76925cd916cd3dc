"""Append 'fixed' entries: addfixed.py Cxx <commit> [<commit>...] (texts are the commits' subjects)."""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
for c in sys.argv[2:]:
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, t = s.split(" ", 1)
    e = "fixed: property=%s %s %s" % (sys.argv[1], h, t.replace("fix: ", ""))
    if e not in d["fixed"]:
        d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
