#!/usr/bin/env python3
"""replay.py FILE: run the input of a replay file against /repo again"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1], encoding="utf-8"))
if d["kind"] != "input":
  print(json.dumps(d, indent=1))
  sys.exit(1)
with tempfile.TemporaryDirectory() as t:
  a, b = os.path.join(t, "in.json"), os.path.join(t, "out.json")
  json.dump([{"case": d["case"], "input": d["input"]}], open(a, "w"))
  env = dict(os.environ, MPLBACKEND="Agg", SDL_VIDEODRIVER="dummy",
             SDL_AUDIODRIVER="dummy", OMP_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", VERIF_RAW_REPLAY="1")
  subprocess.run(["/opt/venv/bin/python",
                  os.path.join(HERE, "battery", "main.py"), d["property"], b,
                  a], env=env, cwd=t, check=False)
  r = json.load(open(b))
for f in r["failures"]:
  print(f["message"])
sys.exit(1 if r["failures"] else 0)
