#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/levels.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(R, "tools", "levels.json")))
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    d = lv.get(p)
    if d is not None:
        # proof: every obligation of the statement is discharged on the unchanged tree
        level = d.get("level", "proof")
        technique = d.get("technique", "contract-based deductive verification of the real "
                          "functions (pyvc verification conditions, z3 and cvc5), with the same "
                          "contracts run in CPython")
        note = ("Every obligation is discharged for all reaction networks and all iterations, "
                "no bound, over mathematical reals in place of floating point. " if level == "proof"
                else "") + d.get("note", "") + \
            " Trusted: the pyvc generator, its library models, z3 and cvc5; the concrete runs " \
            "look for an input that shows a failed obligation."
    else:
        level = "exploration"
        technique = ("contracts of the real functions checked on generated inputs in CPython "
                     "(bounded stand-in for deduction)")
        note = ("Bounded: the postcondition of the statement, written as an independent oracle, is "
                "evaluated on every generated case of the run; not proved.")
    checks.append(dict(property=p, quick_cmd="python3 checks/check.py %s quick" % p,
                       thorough_cmd="python3 checks/check.py %s thorough" % p,
                       technique=technique, level=level, level_note=" ".join(note.split())))
json.dump(dict(version=1, setup_cmd="python3 tools/selfcheck.py", checks=checks,
               not_applicable=[]), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
