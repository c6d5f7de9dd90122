"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification (contracts on the C++ functions, obligations generated from clang's AST, discharged by z3/cvc5); the same contracts evaluated on runs of the compiled code as bounded stand-in"
MACH = " Floats are reals and ints mathematical integers in the proofs; the grid size, the number of cells, parcels and iterations are unbounded."
NOTE = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    n = NOTE.get(p, {})
    if n.get("na"):
        na.append({"property": p, "reason": n["na"]})
        continue
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T, "level": n.get("level", "other"),
                   "level_note": n.get("note", "contracts evaluated on runs (bounded)") + MACH})
json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q dv conc check.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
