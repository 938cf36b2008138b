#!/usr/bin/env python3
"""plant.py ID PROP FILE: create /verif/seeded/ID from stdin

stdin is a python literal dict: old, new (text replacement, or list of pairs),
demo (python source), needs, breaks.  The change is kept only when the demo
passes without it and fails with it; --tests also runs the stable tests."""
import ast
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import shutil


def run(cmd, **k):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
  id_, prop, file = sys.argv[1:4]
  spec = ast.literal_eval(sys.stdin.read())
  d = pathlib.Path(tempfile.mkdtemp(prefix="plant"))
  try:
    run(f"cp -a /repo/. {d}/")
    f = d / file
    s = f.read_text()
    pairs = spec["edits"] if "edits" in spec else [(spec["old"], spec["new"])]
    for o, n in pairs:
      assert s.count(o) == 1, (s.count(o), o)
      s = s.replace(o, n)
    f.write_text(s)
    out = pathlib.Path("/verif/seeded") / id_
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(run("git diff", cwd=d).stdout)
    (out / "demo.py").write_text(spec["demo"].strip() + "\n")
    (out / "demo.sh").write_text(
        "#!/bin/bash\nexport MPLBACKEND=Agg PYTHONPATH=$PWD "
        "PYTHONDONTWRITEBYTECODE=1\n"
        "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(out / "demo.sh", 0o755)
    (out / "meta.json").write_text(json.dumps(
        {"property": prop, "needs": spec["needs"],
         "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
    a = run(f"bash {out}/demo.sh", cwd="/repo", timeout=290)
    b = run(f"bash {out}/demo.sh", cwd=d, timeout=290)
    print(id_, "clean:", a.returncode, "patched:", b.returncode,
          (b.stderr.strip().splitlines() or [""])[-1][:150])
    ok = a.returncode == 0 and b.returncode != 0
    if a.returncode:
      print(a.stderr[-800:])
    if ok:
      base = json.load(open("/opt/vp/BASELINE.json"))
      t = run(
          f". /opt/vp/env.sh; cd {d}; export PYTHONPATH={d}; "
          "/opt/venv/bin/python -m pytest -q -p no:cacheprovider "
          "--timeout=300 -n 4 -o junit_family=xunit2 "
          f"--junitxml={d}/junit.xml tests; "
          f"/usr/bin/python3 /opt/vp/results.py {d}/out.json "
          f"junit:{d}/junit.xml", executable="/bin/bash")
      res = json.load(open(d / "out.json"))
      bad = [x for x in base["stable"] if x not in res["passed"]]
      print("  tests failing:", bad[:4])
      ok = not bad
    r = subprocess.run(["python3", "/verif/run.py", prop],
                       env={**os.environ, "VERIF_REPO": str(d)},
                       capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("  check:", r.returncode, v[:2],
          "CAUGHT" if r.returncode == 1 and v else "MISSED")
    print("  KEPT" if ok else "  NOT VALID")
    if not ok:
      shutil.rmtree(out)
  finally:
    shutil.rmtree(d)


main()
