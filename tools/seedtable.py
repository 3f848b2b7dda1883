#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
# planted bugs the checks did not catch when they were first run, and what was done
MISSED = {
    "refused-puback-stays": "missed; acknowledgements with error reasons added",
    "cut-in-remaining-length": "missed; sub-check `start` added",
    "pubcomp-from-application": "missed; sub-check `ignored` added",
    "server-expiry-zero": "missed; expiry in CONNACK biased to 0 and the maximum",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append((m["property"], i, m["needs"], MISSED.get(i, "caught")))
rows.sort()
t = "| property | planted bug | needs | first run |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
