#!/usr/bin/env python3
"""Nothing to build: check that the tools are there"""
import os
import subprocess
import sys
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "evidence", "replays"), exist_ok=True)
for c in (["/opt/veriftools/pyvenv/bin/python", "-c", "import z3"],
          ["/opt/venv/bin/python", "-c", "import numpy, scipy, sklearn"]):
  if subprocess.run(c, check=False).returncode:
    sys.exit(f"missing: {c}")
print("ok")
