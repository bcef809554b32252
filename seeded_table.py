"""Appends the table of planted bugs to DESIGN.md (between the markers)."""
import json, os
rows = ["## Planted bugs", "Each is caught by the check of its own property (and by those in brackets, where tried).", "", "| bug | what it breaks | needs |", "|---|---|---|"]
also = {"C04b": "C14"}
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % d))
    rows.append("| %s%s | %s | %s |" % (d, " (%s)" % also[d] if also.get(d) else "", m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = open("/verif/DESIGN.md").read().split("## Planted bugs")[0]
open("/verif/DESIGN.md", "w").write(s + "\n".join(rows) + "\n")
