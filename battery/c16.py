"""Concrete contracts of the A-weighting"""
import numpy as np

from battery.util import SHAPES, close, out_rules, same
from sample import psycho


def ref_curve(f):
  f = np.asarray(f, float)
  return 12194**2 * f**4 / ((f**2 + 20.6**2) * np.sqrt(
      (f**2 + 107.7**2) * (f**2 + 737.9**2)) * (f**2 + 12194**2))


def g_curve(rng, i):
  f = [1000.0, 1.0, 20.6, 12194.0, 44100.0, 0.0][i] if i < 6 else float(
      10**rng.uniform(-2, 5))
  return {"f": f if rng.random() < .5 else -f, "db": bool(i % 2)}


def curve(f, db):
  f = float(f)
  if abs(f) > 1e7:
    return
  with np.errstate(all="ignore"):
    lin = psycho.a_weighting(f, db=False)
    close(lin, ref_curve(f), "linear weight", 1e-6)
    close(lin, psycho.a_weighting(-f, db=False), "even")
    assert 0 <= lin < 1, f"weight {lin} outside [0, 1)"
    if f and db:
      d = psycho.a_weighting(f)
      close(d, 20 * np.log10(ref_curve(f) / ref_curve(1000)), "dB weight",
            1e-6, 1e-6)
      same(d, psycho.a_weighting(f, db=True), "db is the default")


def ref(**_):
  assert psycho.a_weighting(1000) == 0, "not 0 dB at 1 kHz"
  assert psycho.a_weighting(1000.0) == 0, "not 0 dB at 1 kHz"


def g_out(rng, i):
  sh = SHAPES[i % len(SHAPES)]
  x = 10**rng.uniform(0, 4.5, sh or (1,))
  out = ["none", "other", "self"][(i // 7) % 3]
  if out != "self" and rng.random() < .4:
    x = x.astype(int) + 1
  return {"x": x if sh else x[0], "db": bool((i // 21) % 2), "out": out}


def out(x, db, out, **_):
  with np.errstate(all="ignore"):
    if np.any(np.abs(np.asarray(x, float)) > 1e7):
      return
    out_rules(lambda v, **k: psycho.a_weighting(v, db=db, **k), x, out,
              f"a_weighting db={db}")


CASES = {
    "curve": (g_curve, curve, 200),
    "ref": (lambda r, i: {}, ref, 1),
    "out": (g_out, out, 168),
}
