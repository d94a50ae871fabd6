"""writes MANIFEST.json from properties.jsonl and engine/plan.py"""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine.plan import NOTES, PARTIAL, PLAN  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
TRUST = ("Trusted: z3, CPython 3.12, the engine in engine/ (AST rewriting in load.py, symbolic proxies, state generalisation), the installed "
         "expression library (executed, not specified). Environment assumptions are listed in the evidence file.")
for p in props:
    i = p["id"]
    c = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}"}
    if i in PLAN:
        c["technique"] = ("contract-based deductive verification of the real code: per-operator contracts (ghost automata) and inductive invariants, "
                          "obligations discharged by z3 over CPython's own execution of the functions on symbolic values; "
                          "bounded concrete histories run beside it")
        c["level"] = "proof"
        c["level_note"] = (NOTES.get(i, "") + (" Part not proved (bounded only): " + PARTIAL[i] + "." if i in PARTIAL else "") + " " + TRUST).strip()
    else:
        c["technique"] = "bounded stand-in on the real code (contracts not yet discharged for this property)"
        c["level"] = "exploration"
        c["level_note"] = "concrete histories of the real code up to the stated bounds; nothing is proved for this property"
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "engine/: the verifier and the contracts (engine/units); runtime/: bounded stand-ins; see DESIGN.md"},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
