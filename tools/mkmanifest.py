#!/usr/bin/env python3
"""Write MANIFEST.json from the contract modules present"""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C35": "a statistical accuracy claim over noise: no pre/postcondition in "
           "a deductive program logic expresses or decides it (the data-flow "
           "and algebraic parts are decided under C01-C13)",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for d in props:
  i = d["id"]
  f = os.path.join(H, "contracts", i.lower() + ".py")
  if i in NA or not os.path.exists(f):
    na.append({"property": i,
               "reason": NA.get(i, "no contract written yet (work in "
                                   "progress)")})
    continue
  consts = {}
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
      try:
        consts[n.targets[0].id] = ast.literal_eval(n.value)
      except ValueError:
        pass
  note = consts.get("NOTE", "")
  checks.append({
      "property": i,
      "quick_cmd": f"python3 run.py {i}",
      "thorough_cmd": f"python3 run.py {i} --tier thorough",
      "technique": "contract-based deductive verification: obligations "
                   "generated from /repo's source (lifted mechanically) and "
                   "discharged by z3/cvc5; counterexamples replayed on the "
                   "real code; bounded concrete runs of the same contracts "
                   "as labelled stand-in",
      "level": consts.get("LEVEL", "proof"),
      "level_note": (note + " " if note else "") +
      "floats as reals; numpy/scipy/sklearn by contract (trusted base in "
      "the evidence)" + ("; bounded only: " + "; ".join(consts["BOUNDED"])
                         if consts.get("BOUNDED") else ""),
  })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": na}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
  json.dump(m, f, indent=1)
  f.write("\n")
print(len(checks), "checks", len(na), "n/a")
