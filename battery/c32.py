"""Concrete contracts of the bisection"""
import numpy as np

from sample.utils import dsp


def _run(f, lo, hi, steps):
  xs = []

  def g(x):
    xs.append(x)
    return f(x)

  kw = {} if steps is None else {"steps": steps}
  a, b = min(lo, hi), max(lo, hi)
  s = np.sign(f(lo)) * np.sign(f(hi))
  try:
    r = dsp.dychotomic_zero_crossing(g, lo, hi, **kw)
  except ValueError:
    assert s > 0, "error although the signs are not the same"
    return
  assert s <= 0, "no error although the signs are the same"
  n = 16 if steps is None else steps
  assert len(xs) <= n + 2, f"{len(xs)} evaluations in {n} steps"
  assert all(a <= x <= b for x in xs), "evaluated outside the limits"
  assert a <= r <= b, "result outside the limits"
  if f(r) == 0:
    return
  # both signs occur within the documented distance
  d = (b - a) / 2**(n + 1) * (1 + 1e-9) + 1e-12 * max(abs(a), abs(b))
  near = [x for x in xs if abs(x - r) <= d]
  assert any(f(x) <= 0 for x in near) and any(
      f(x) >= 0 for x in near), \
      f"no sign change within {d} of {r} ({n} steps)"


def g_search(rng, i):
  kind = ["poly", "step", "table", "const", "tiny"][i % 5]
  lo, hi = rng.normal(size=2) * 10**rng.uniform(-2, 2)
  return {"kind": kind, "lo": float(lo), "hi": float(hi),
          "steps": [None, 0, 1, 2, 7, 16, 20][rng.integers(7)],
          "c": rng.normal(size=4).tolist(), "at": float(rng.random())}


def case(kind="poly", lo=0., hi=1., steps=3, c=(1, 1, 1, 1), at=.3,
         values=None, **_):
  if lo == hi:
    return
  t = lo + (hi - lo) * at
  if kind == "poly":
    f = lambda x: float(np.polyval(c, x))
  elif kind == "step":
    f = lambda x: 1. if x > t else -2.
  elif kind == "table":
    f = lambda x: -3. if x < t else 0. if x < t + abs(hi - lo) / 8 else 1.
  elif kind == "const":
    f = lambda x: float(np.sign(round(c[0])))
  else:
    f = lambda x: (x - t) * 1e-200 + c[0] * 1e-201
  _run(f, lo, hi, steps)


def search(lo=0., hi=1., steps=3, values=(), **_):
  """The function of a counterexample"""
  def num(s):
    a, _, b = str(s).replace("?", "").partition("/")
    return float(a) / float(b or 1)

  if not 0 <= steps <= 30 or lo == hi:
    return
  tab = {num(a): num(b) for a, b in values or ()}
  ks = sorted(tab) or [lo]

  def f(x):
    return tab.get(float(x), tab[min(ks, key=lambda k: abs(k - x))]
                   if tab else -1.)

  _run(f, lo, hi, int(steps))


CASES = {
    "case": (g_search, case, 600),
    "search": (lambda rng, i: None, search, 0),
}
