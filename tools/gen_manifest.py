#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties, src/checks.json and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(here + "/src/checks.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {
 "N01": "Crash points during in-place modification (swapping axes, moving, clearing) are outside what the code promises: files are rewritten, moved and removed one by one without any ordering or recovery step, so enumerating them would only document that no guarantee exists. Adding chunks and appending slices, where a guarantee does hold, is C28.",
 "N02": "Convergence of the numerical result to the exact solution of Maxwell's equations is a statement about real analysis over a continuum of step sizes; it has no finite state space that could be enumerated.",
}
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
            technique=c.get("technique", "bounded exhaustive exploration of the real code (every operation sequence and input within the bounds) against a reference model"),
            level="model_checking",
            level_note=c.get("note", "Exhaustive within the stated bounds on the compiled code of the current tree; values come from small alphabets; trusts the reference model in the harness, the compiler and the host file system.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The harness for this property is not built yet.")))
json.dump(dict(version=1, setup_cmd="mkdir -p build evidence && chmod +x check", checks=checks, not_applicable=na,
   notes="All checks compile their harness (src/<id>.cc) against the library in /repo's working tree; no hooks are needed. DESIGN.md describes every space that is enumerated."), open(here + "/MANIFEST.json", "w"), indent=1)
