#!/usr/bin/env python3
"""Generates MANIFEST.json from the properties and the drivers that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "harness", "drivers", i.lower() + ".py")):
        spec, note = NOTES.get(i, ["", ""])
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification %s: TLC model checking, TLC-generated scenarios replayed into the real code, and TLC trace validation of recorded executions" % spec,
                           level="model_checking",
                           level_note=note or "Specification exhaustively checked within small bounds; the binding to the code is by replay of the specification's histories and validation of randomised recorded traces, so it is evidence for the explored histories, not a proof. Trusts TLC, numpy, and the driver's encoding of results."))
    else:
        na.append(dict(property=i, reason="specification and conformance driver not built yet"))
json.dump(dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na,
               notes="TLA+ specification in spec/, harness in harness/; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
