"""Fill the generated parts of DESIGN.md from DESIGN.in.md: python3 tool/mkdesign.py"""
import json, os, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = open(R + "/DESIGN.in.md").read()
fx = json.load(open(R + "/known_findings.json"))["fixed"]
t = t.replace("@@FIXED@@", "\n".join("* " + str(x).replace("fixed: property=", "") for x in fx))
rows = ["| planted change | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
t = t.replace("@@SEEDS@@", "\n".join(rows))
rows = ["| property | obligations | discharged | undecided | functions |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(R + "/evidence")):
    if d.startswith("C") and d.endswith(".json"):
        e = json.load(open(R + "/evidence/" + d))
        c = e.get("coverage", {})
        rows.append("| %s | %s | %s | %s | %s |" % (d[:-5], c.get("obligations"), c.get("discharged"), c.get("undecided_count", c.get("undecided")), c.get("functions_count", c.get("functions"))))
t = t.replace("@@COUNTS@@", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(t)
