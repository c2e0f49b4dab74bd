#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"signal-fd0": "descriptor 0 now generated", "signal-blocked-second": "handler blocked on a full pipe now generated", "signal-bus-log": "every fatal signal on every kind of log descriptor",
          "sock-connect-leak": "names with several addresses, first ones refused"}
if os.path.exists(V + "/tools/missed.json"): MISSED.update(json.load(open(V + "/tools/missed.json")))
print("| id | caught by | what it breaks | needs |\n|----|----|----|----|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    f = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    x = f(m["what_it_breaks"]) + (" (first missed: %s)" % MISSED[d] if d in MISSED else "")
    print("| %s | %s | %s | %s |" % (d, m["property"], x, f(m["needs"])))
