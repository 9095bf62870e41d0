#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_body.md followed by the table of planted changes."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
out = open(here + "/design_body.md").read()
out += "| change | caught by | what it needs | what it breaks |\n|---|---|---|---|\n"
def row(d):
    m = json.load(open(d))
    return "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"])
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    out += row(d)
out += "\nChanges to lines that a repair of ours wrote (`planted_on_fixes/`, same layout):\n\n| change | caught by | what it needs | what it breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(root + "/planted_on_fixes/*/meta.json")):
    out += row(d)
out += "\n" + open(here + "/design_tail.md").read()
open(root + "/DESIGN.md", "w").write(out)
