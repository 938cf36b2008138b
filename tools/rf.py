#!/usr/bin/env python3
"""rf.py [NAME...]: run the checks on behaviour-preserving rewrites

tools/refactors.py holds R = [(name, "C01 C02", [(file, old, new), ...])].
Each rewrite is applied to a scratch copy of /repo, where the checks must
stay quiet; undecided obligations are shown (they weaken the check)."""
import concurrent.futures as cf
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(__file__))
import refactors


def one(r):
  name, props, edits = r
  d = pathlib.Path(tempfile.mkdtemp(prefix="rf"))
  try:
    subprocess.run(f"cp -a /repo/. {d}/", shell=True, check=True)
    for f, o, n in edits:
      s = (d / f).read_text()
      if s.count(o) != 1:
        return f"{name}: BAD EDIT ({s.count(o)}) {o[:60]!r}"
      (d / f).write_text(s.replace(o, n))
    out = []
    for p in props.split():
      x = subprocess.run([sys.executable, "/verif/run.py", p], text=True,
                         capture_output=True, cwd="/verif",
                         env=dict(os.environ, VERIF_REPO=str(d)))
      lines = x.stdout.strip().splitlines()
      keep = [l for l in lines if "UNDECIDED" in l.upper() or "VIOLATION" in l
              or "FAILED" in l or "ERROR" in l]
      ok = x.returncode == 0 and ", 0 undecided" in lines[-1]
      out.append(f"{name} {p}: {'ok' if ok else 'QUIET' if x.returncode == 0 else 'ALARM'}"
                 + ("" if ok else "\n    " + "\n    ".join(
                     l[:230] for l in (keep[:6] + lines[-1:]))))
    return "\n".join(out)
  finally:
    shutil.rmtree(d)


def main():
  sel = [r for r in refactors.R
         if not sys.argv[1:] or any(a in r[0] for a in sys.argv[1:])]
  with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for s in ex.map(one, sel):
      print(s, flush=True)


main()
