#!/usr/bin/env python3
"""Check one property: run.py ID  (VERIF_TIER, VERIF_SEED from the
environment).  Generates and discharges the obligations of every contract of
the property from /repo's current source, and runs the same contracts on
concrete inputs against the real code (replay, cross-check, bounded
stand-in)."""
import concurrent.futures
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(VT):
  VT = "python3-vt"
REAL = "/opt/venv/bin/python"
if os.environ.get("_VC_INNER") != "1":
  import shutil
  env = dict(os.environ, _VC_INNER="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0")
  exe = VT if os.path.exists(VT) else shutil.which("python3-vt")
  os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def worker(prop, idx):
  from pyvc import api
  sys.setrecursionlimit(20000)
  importlib.import_module("contracts." + prop.lower())
  from pyvc import core
  core.STATS.update(queries=0, solver_s=0.0)
  return api.run_vc(api.REGISTRY[prop][idx])


def battery_start(prop, tier, seed, extra=None):
  """Concrete run of the contracts on the real code"""
  env = dict(os.environ)
  env.pop("_VC_INNER", None)
  env.update(MPLBACKEND="Agg", SDL_VIDEODRIVER="dummy",
             SDL_AUDIODRIVER="dummy", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             VERIF_TIER=tier, VERIF_SEED=str(seed), PYGAME_HIDE_SUPPORT_PROMPT="1",
             PYTHONHASHSEED="0", VERIF_REPO=repo())
  out = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
  out.close()
  cmd = [REAL, os.path.join(HERE, "battery", "main.py"), prop, out.name]
  if extra:
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump(extra, f)
    f.close()
    cmd.append(f.name)
  with tempfile.NamedTemporaryFile("w", suffix=".log", delete=False) as log:
    p = subprocess.Popen(cmd, env=env, cwd=tempfile.gettempdir(), stdout=log,
                         stderr=subprocess.STDOUT, start_new_session=True)
  return p, out.name, log.name, cmd


def battery_wait(h, timeout):
  p, out, log, cmd = h
  try:
    p.wait(timeout)
  except subprocess.TimeoutExpired:
    import signal
    os.killpg(p.pid, signal.SIGKILL)
    p.wait()
  try:
    with open(out, encoding="utf-8") as f:
      r = json.load(f)
  except ValueError:
    with open(log, encoding="utf-8", errors="replace") as f:
      r = {"error": f.read()[-3000:] or f"exit {p.returncode}"}
  for n in (out, log, *cmd[4:]):
    try:
      os.unlink(n)
    except OSError:
      pass
  return r


def repo():
  return os.environ.get("VERIF_REPO", "/repo")


def main():
  prop = sys.argv[1]
  tier = os.environ.get("VERIF_TIER", "quick")
  if "--tier" in sys.argv:
    tier = sys.argv[sys.argv.index("--tier") + 1]
  seed = int(os.environ.get("VERIF_SEED", "1"))
  verbose = "-v" in sys.argv
  t0 = time.time()
  hb = battery_start(prop, tier, seed)
  from pyvc import api, axioms
  from pyvc.core import Opts
  try:
    mod = importlib.import_module("contracts." + prop.lower())
  except ModuleNotFoundError:
    mod = None
  vcs = api.REGISTRY.get(prop, [])
  results = []
  only = None
  if "--vc" in sys.argv:
    only = sys.argv[sys.argv.index("--vc") + 1]
  jobs = [i for i, v in enumerate(vcs) if only is None or only in v.name]
  if jobs:
    n = min(7, len(jobs))
    with concurrent.futures.ProcessPoolExecutor(n) as ex:
      fs = [ex.submit(worker, prop, i) for i in jobs]
      for i, f in zip(jobs, fs):
        try:
          results.append(f.result())
        except Exception as e:  # the worker died (memory): undecided
          results.append({"vc": vcs[i].name, "functions": vcs[i].functions,
                          "replay": vcs[i].replay, "paths": 0, "secs": 0,
                          "obligations": [], "covers": [], "crash": None,
                          "undecided": [f"worker: {type(e).__name__}: {e}"],
                          "queries": 0, "solver_s": 0})
  bat = battery_wait(hb, 1500 if tier == "thorough" else 420)
  obs = [(r, o) for r in results for o in r["obligations"]]
  bad = [(r, o) for r, o in obs if o["status"] not in ("proved", "suspect")]
  sus = [(r, o) for r, o in obs if o["status"] == "suspect"]
  undecided = [(r["vc"], u) for r in results for u in r["undecided"]] + [
      (r["vc"], o["reason"]) for r, o in sus]
  vacuous = [r["vc"] for r in results
             if not r["undecided"] and not r["obligations"]]
  replayed = []
  # replay the verifier's counterexamples on the real code
  rep = [{"case": r["replay"], "input": o["inputs"], "obligation": o["name"],
          "vc": r["vc"]} for r, o in bad + sus
         if r["replay"] and o.get("inputs") and "_error" not in o["inputs"]]
  if rep:
    rr = battery_wait(battery_start(prop, tier, seed, rep), 300)
    replayed = rr.get("failures", [])
  fails = replayed + bat.get("failures", [])
  known = load_known(prop)
  new_fails, old_fails = [], []
  for f in fails:
    (old_fails if any(k["key"] == f.get("key") and k["case"] == f["case"]
                      for k in known) else new_fails).append(f)
  os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
  code = 0
  lines = []
  for k in known:
    if any(f.get("key") == k["key"] for f in old_fails):
      lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
  viol = 0
  if new_fails:
    f = new_fails[0]
    path = write_replay(prop, {"kind": "input", **f, "obligations_failed": [
        dict(o) for r, o in bad][:10]})
    lines.append(f"VIOLATION property={prop} replay={path}")
    code, viol = 1, len(new_fails)
  elif bad:
    r, o = bad[0]
    path = write_replay(prop, {
        "kind": "obligation", "case": o["name"], "vc": r["vc"],
        "obligations_failed": [dict(o) for r, o in bad][:20]})
    lines.append(f"VIOLATION property={prop} replay={path} "
                 "no-failing-input-found")
    code, viol = 1, len(bad)
  elif "error" in bat or vacuous and only is None or (
      undecided and not bat.get("evaluations")):
    lines.append(f"ERROR property={prop} battery={bat.get('error')} "
                 f"vacuous={vacuous}")
    code = 3
  evidence(prop, tier, seed, results, obs, bat, undecided, replayed, viol,
           time.time() - t0, mod, known)
  for l in lines:
    print(l)
  if verbose or code or undecided:
    for r in results:
      no = len(r["obligations"])
      ok = sum(o["status"] == "proved" for o in r["obligations"])
      print(f"  [{r['secs']:7.2f}s] {ok}/{no} obligations, {r['paths']} paths:"
            f" {r['vc']}")
      for o in r["obligations"]:
        if o["status"] != "proved":
          print(f"      {o['status'].upper()}: {o['name']} -- "
                f"{o.get('reason', '')[:700 if verbose else 300]}")
          if verbose:
            print("         formula:", o.get("formula", "")[:600])
            print("         inputs:", json.dumps(o.get("inputs"))[:600])
      for u in r["undecided"]:
        print(f"      UNDECIDED: {u}")
      if verbose and r["crash"]:
        print(r["crash"])
      nc = [c for c in r["covers"] if c[1] != "sat"]
      if verbose and nc:
        print("      covers:", nc)
    print("  battery:", json.dumps({k: v for k, v in bat.items()
                                    if k != "failures"})[:1500])
    for f in fails[:5]:
      print("   FAIL:", json.dumps(f)[:1200])
  print(f"{prop}: {len(obs) - len(bad)}/{len(obs)} obligations discharged, "
        f"{len(undecided)} undecided, battery {bat.get('evaluations', 0)} "
        f"cases, {time.time() - t0:.1f} s")
  sys.exit(code)


def load_known(prop):
  out = []
  try:
    with open(os.path.join(HERE, "known_findings.jsonl"),
              encoding="utf-8") as f:
      for l in f:
        l = l.strip()
        if l and not l.startswith("#") and not l.startswith("fixed:"):
          d = json.loads(l)
          if d["property"] == prop:
            out.append(d)
  except FileNotFoundError:
    pass
  return out


def write_replay(prop, d):
  d = {"property": prop, **d,
       "how": "python3 /verif/replay.py <this file> re-runs the input "
              "against /repo"}
  s = json.dumps(d, indent=1, sort_keys=True, default=str)
  h = hashlib.sha1(s.encode()).hexdigest()[:10]
  path = os.path.join(HERE, "evidence", "replays", f"{prop}-{h}.json")
  with open(path, "w", encoding="utf-8") as f:
    f.write(s)
  return path


def evidence(prop, tier, seed, results, obs, bat, undecided, replayed, viol,
             wall, mod, known):
  from pyvc import axioms
  obs = [(r, o) for r, o in obs if o["status"] != "suspect"]
  done = [o for _, o in obs if o["status"] == "proved"]
  by = {}
  for o in done:
    b = o.get("backend") or "z3"
    by[b] = by.get(b, 0) + 1
  level = getattr(mod, "LEVEL", "proof") if mod else "exploration"
  base = [
      "pyvc (the VC generator in /verif/pyvc): AST instrumentation, symbolic "
      "Python semantics, path exploration",
      "contracts of numpy/scipy/sklearn/math functions (pyvc/nparr.py, "
      "pyvc/fakes.py), cross-checked on concrete inputs by the battery",
      "z3 and cvc5",
      "floats treated as real numbers with NaN (no rounding, no overflow, no "
      "infinities); numpy integers as unbounded integers",
      *("axiom: " + d for d in axioms.DOC),
      *getattr(mod, "TRUSTED", [])
  ]
  cov = {
      "obligations": len(obs),
      "discharged": len(done),
      "checker_cmd": f"python3 run.py {prop}",
      "trusted_base": base,
      "functions_under_contract": sorted(
          {f for r in results for f in r["functions"]}),
      "discharged_by_backend": by,
      "solver_queries": sum(r["queries"] for r in results),
      "solver_s": round(sum(r["solver_s"] for r in results), 2),
      "paths": sum(r["paths"] for r in results),
      "verification_conditions": [
          {"vc": r["vc"], "obligations": len(r["obligations"]),
           "discharged": sum(o["status"] == "proved"
                             for o in r["obligations"]),
           "paths": r["paths"], "secs": r["secs"],
           "reachable": sum(c[1] == "sat" for c in r["covers"]),
           "undecided": r["undecided"]} for r in results],
      "undecided": [f"{a}: {b}" for a, b in undecided],
      "bounded_stand_in": {
          "label": "BOUNDED: concrete executions of the contracts on the "
                   "real code; never counted as proved",
          **{k: v for k, v in bat.items() if k != "failures"}},
      "bounded_only": getattr(mod, "BOUNDED", []),
      "evaluations": bat.get("evaluations", 0),
      "distinct_nontrivial": bat.get("distinct", 0),
      "rule": "random and corner inputs of each case; distinct = different "
              "JSON input",
      "samples": bat.get("samples", [])[:3],
      "counterexamples_replayed": len(replayed),
  }
  if level != "proof" and not obs:
    for k in ("obligations", "discharged"):
      cov.pop(k)
  e = {"property": prop, "tier": tier, "seed": seed, "level": level,
       "coverage": cov, "wall_s": round(wall, 2), "violations": viol,
       "assumptions": list(getattr(mod, "ASSUMES", []))}
  with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w",
            encoding="utf-8") as f:
    json.dump(e, f, indent=1, default=str)


if __name__ == "__main__":
  main()
