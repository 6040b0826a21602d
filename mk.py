#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in properties_text.py and props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties_text import TEXT, NA  # noqa: E402
from props import PROPS  # noqa: E402

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in TEXT:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
                            "why_tests_cant": p["tests"],
                            "anchors": {"files": sorted({m[1].split(":")[0] for m in p["anchors"]}), "mechanism": [{"name": a, "where": b} for a, b in p["anchors"]]}}) + "\n")
TECH = "contract-based deductive verification of the real code (verification conditions generated from /repo's source, inferred invariants re-proved, z3/cvc5)"
checks, na = [], []
for p in TEXT:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        n, nb = len(P.get("contracts", [])), len(P.get("bounded", []))
        note = P.get("note") or (f"{n} functions under contract, every obligation discharged on each run from /repo's current source for all inputs and iterations; "
                                 "floats are extended reals without rounding, library calls are assumed contracts (listed in the evidence)"
                                 + (f"; {nb} bounded stand-in(s) for surrounding code outside the verified subset, labelled bounded" if nb else "") + ".")
        tech = TECH if n else "runtime evaluation of the contract on generated inputs (bounded stand-in; the code is outside the verified subset)"
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": tech, "level": P["level"], "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract for it has been completed; see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md; known_findings.txt lists fixed and open findings."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
