"""Concrete side of the contracts: run the cases of one property against the
real code.  argv: PROPERTY OUT.json [REPLAY.json]"""
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402


def dec(x):
  """JSON -> Python/numpy"""
  if isinstance(x, dict):
    if "nd" in x:
      d = np.dtype(x["dtype"])
      flat = []

      def walk(v, depth):
        if depth == 0:
          flat.append(dec(v))
        else:
          for e in v:
            walk(e, depth - 1)

      walk(x["nd"], len(x["shape"]))
      return np.array(flat, dtype=d).reshape(x["shape"])
    if set(x) == {"f"} and isinstance(x["f"], str):
      return float(x["f"])
    if set(x) == {"re", "im"}:
      return complex(x["re"], x["im"])
    return {k: dec(v) for k, v in x.items()}
  if isinstance(x, list):
    return [dec(v) for v in x]
  return x


def enc(x):
  """Python/numpy -> JSON"""
  if isinstance(x, np.ndarray):
    return {"nd": [enc(v) for v in x] if x.ndim else enc(x.item()),
            "dtype": x.dtype.str, "shape": list(x.shape)} if x.ndim <= 1 else {
                "nd": _nest(x), "dtype": x.dtype.str, "shape": list(x.shape)}
  if isinstance(x, np.generic):
    return enc(x.item())
  if isinstance(x, complex):
    return {"re": x.real, "im": x.imag}
  if isinstance(x, float) and (x != x or x in (float("inf"), -float("inf"))):
    return {"f": repr(x)}
  if isinstance(x, dict):
    return {k: enc(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [enc(v) for v in x]
  return x


def _nest(x):
  return [_nest(v) if v.ndim else enc(v.item()) for v in x] \
      if x.ndim > 1 else [enc(v) for v in x]


def run_check(check, inp):
  """None or a failure message"""
  try:
    r = check(**dec(inp))
    return r
  except Exception as e:  # pylint: disable=W0703
    tb = traceback.extract_tb(e.__traceback__)
    if isinstance(e, AssertionError) and tb[-1].filename.startswith(HERE):
      return f"contract violated: {e} (battery line {tb[-1].lineno}: "\
             f"{tb[-1].line})"
    if any(f.filename.startswith(REPO + os.sep) for f in tb):
      w = [f for f in tb if f.filename.startswith(REPO + os.sep)][-1]
      return f"unexpected {type(e).__name__}: {e} at "\
             f"{os.path.relpath(w.filename, REPO)}:{w.lineno}"
    if isinstance(e, (LookupError, ValueError, ArithmeticError)) or \
        isinstance(e, TypeError) and "NoneType" in str(e):
      # the result is not what the contract says, so much so that it cannot
      # be read
      w = [f for f in tb if f.filename.startswith(HERE)][-1]
      return f"contract violated: unreadable result, {type(e).__name__}: {e} " \
             f"(battery line {w.lineno}: {w.line})"
    raise


def main():
  prop, out = sys.argv[1], sys.argv[2]
  tier = os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  res = {"evaluations": 0, "distinct": 0, "failures": [], "samples": [],
         "cases": {}}
  try:
    mod = importlib.import_module("battery." + prop.lower())
  except ModuleNotFoundError as e:
    if "battery" not in str(e):
      res["failures"].append({"case": "import", "input": {}, "key": "import",
                              "message": f"import failed: {e}"})
    json.dump(res, open(out, "w", encoding="utf-8"))
    return
  except Exception as e:  # pylint: disable=W0703
    tb = traceback.extract_tb(e.__traceback__)
    if any(f.filename.startswith(REPO + os.sep) for f in tb):
      res["failures"].append({"case": "import", "input": {}, "key": "import",
                              "message": f"import failed: {e!r}"})
      json.dump(res, open(out, "w", encoding="utf-8"))
      return
    raise
  if len(sys.argv) > 3:
    for r in json.load(open(sys.argv[3], encoding="utf-8")):
      case = mod.CASES.get(r["case"])
      if case is None:
        continue
      conv = getattr(mod, "FROM_MODEL", {}).get(r["case"])
      try:
        inp = conv(r["input"]) if conv else r["input"]
        if inp is None:
          continue
        msg = run_check(case[1], inp)
      except Exception as e:  # the model does not fit the case's input
        print("replay:", r.get("obligation"), type(e).__name__, e)
        continue
      res["evaluations"] += 1
      if msg:
        res["failures"].append({
            "case": r["case"], "input": inp, "message": msg,
            "key": key_of(mod, r["case"], inp, msg),
            "from": "solver counterexample of: " + str(r.get("obligation"))})
    json.dump(res, open(out, "w", encoding="utf-8"))
    return
  budget = getattr(mod, "BUDGET", 25.0) * (8 if tier == "thorough" else 1)
  seen = set()
  names = list(mod.CASES)
  for ci, name in enumerate(names):
    gen, check, n = mod.CASES[name][:3]
    if tier == "thorough":
      n *= 10
    rng = np.random.default_rng([seed, sum(map(ord, name))])
    tc = time.time()
    share = max(2.0, (t0 + budget - tc) / (len(names) - ci))
    cnt = 0
    nf = 0
    for i in range(n):
      inp = gen(rng, i)
      if inp is None:
        break
      inp = enc(inp)
      js = json.dumps(inp, sort_keys=True)
      if js not in seen:
        seen.add(js)
      msg = run_check(check, json.loads(js))
      cnt += 1
      if i == 0 and len(js) < 1500:
        res["samples"].append({"case": name, "input": inp})
      if msg:
        k = key_of(mod, name, inp, msg)
        if not any(f["key"] == k and f["case"] == name
                   for f in res["failures"]):
          res["failures"].append({"case": name, "input": inp, "key": k,
                                  "message": msg})
          nf += 1
        if nf >= 3:
          break
      if time.time() - tc > share and i >= min(n, 3):
        break
    res["cases"][name] = {"runs": cnt, "s": round(time.time() - tc, 2)}
    res["evaluations"] += cnt
  res["distinct"] = len(seen)
  res["wall_s"] = round(time.time() - t0, 2)
  with open(out, "w", encoding="utf-8") as f:
    json.dump(res, f)


def key_of(mod, case, inp, msg):
  f = getattr(mod, "KEY", None)
  return f(case, inp, msg) if f else msg.split("(battery")[0][:120]


if __name__ == "__main__":
  main()
