#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md + tables from evidence/ and seeded/"""
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(H, "tools", "design_body.md")).read().rstrip(), "",
       "## 7. Planted bugs", "",
       "Each is in `seeded/<id>` with its demonstration; all were confirmed "
       "(stable tests pass, demonstration fails) with `tools/plant.py`, and the "
       "check of its property reports it.", "",
       "| bug | property | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
  d = json.load(open(f))
  n = os.path.basename(os.path.dirname(f))
  out.append(f"| {n} | {d['property']} | {d['what_it_breaks']} |")
out += ["", "## 8. Functions under contract", "",
        "From the evidence of a run on the committed tree (bounded cases are "
        "concrete executions, never counted as proved).", ""]
for f in sorted(glob.glob(os.path.join(H, "evidence", "C*.json"))):
  d = json.load(open(f))
  c = d["coverage"]
  by = ", ".join(f"{k} {v}" for k, v in sorted(c["discharged_by_backend"].items()))
  out.append(f"* **{d['property']}** {len(c['verification_conditions'])} VCs, "
             f"{c['discharged']}/{c['obligations']} obligations ({by}); "
             f"{c['evaluations']} bounded cases: " +
             ", ".join("`" + x.replace(":", ".") + "`"
                       for x in c["functions_under_contract"]))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
