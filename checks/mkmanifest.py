#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = "TLA+ specification checked with TLC: exhaustive universe of programs plus random ones, run on the real code and trace-validated"
PROGN = ("TLC enumerates a finite universe of template programs for this property and evaluates the property, stated over syntax, on the specification of rendering; "
         "the real code runs the same programs and larger seeded random ones and every rendering is trace-validated against the specification. Bounded by those universes and samples; "
         "trusts TLC and the harness's tokenizer.")
T = {p: (PROG, PROGN) for p in "C01 C02 C03 C04 C05 C06 C09 C10 C11 C13 C14 C16 C17 C19".split()}
try:
    from manifest_extra import T2
    T.update(T2)
except ImportError:
    pass
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in ids if p in T],
     "not_applicable": [{"property": p, "reason": NA.get(p, "The check for this property is not built yet.")} for p in ids if p not in T],
     "notes": "No hooks in /repo are needed: nodes, contexts and writers are all part of the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
