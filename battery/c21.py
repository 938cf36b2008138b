"""C21: beat regression"""
import itertools
import warnings
from unittest import mock

import numpy as np

from battery.util import close, same
from sample import beatsdrop
from sample.beatsdrop import regression as m
from sample.utils import dsp

warnings.simplefilter("ignore")
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")


def gen_bounds(rng, i):
  n = int([2, 3, 20, 0, 1][i % 5] if i % 3 else 2)
  a = rng.normal(-20, 20, n)
  if i % 4 == 1:
    a[:] = a[:1] if n else 0
  if i % 7 == 2 and n:
    a[int(rng.integers(n))] = -np.inf
  if i % 11 == 3:
    a[:] = -np.inf
  f = rng.uniform(100, 110, n)
  if i % 6 == 1:
    f[:] = 440
  x = [float(v) for v in (*rng.uniform(0, 2, 2), *rng.uniform(90, 120, 2),
                          *rng.uniform(.1, 3, 2), *rng.uniform(-9, 9, 2))]
  if i % 5 == 4:
    x[0] = 0.0
  return dict(n=n, t=np.arange(n, dtype=float), a=a, f=f,
              **{"x" + k: v for k, v in zip(NAMES, x)})


def check_bounds(n, t, a, f, **kw):
  x = tuple(kw.get("x" + k, 0.0) for k in NAMES)
  t, a, f = (np.asarray(v, float) for v in (t, a, f))
  if np.any(np.abs(a[np.isfinite(a)]) > 2000):
    return
  old = [np.copy(v) for v in (t, a, f)]
  if n < 2:
    try:
      m.BeatRegression._default_bounds(t, a, f, x, m.BeatRegression())
    except ValueError:
      return
    raise AssertionError(f"bounds for a track of {n} points")
  lo, hi = m.BeatRegression._default_bounds(t, a, f, x, m.BeatRegression())
  for u, v in zip((t, a, f), old):
    same(u, v)
  assert len(lo) == len(hi) == 8, "number of bounds"
  for k, l, h in zip(NAMES, lo, hi):
    assert l <= h, f"{k}: bounds {l}, {h} out of order"
  assert min(lo[:2]) >= 0, f"negative amplitudes allowed: {lo[:2]}"
  assert min(lo[4:6]) > 0, f"decays allowed from {lo[4:6]}"
  for j in (0, 1, 2, 3, 7):
    if j < 2 and x[j] < 0:
      continue
    assert lo[j] <= x[j] <= hi[j], \
        f"{NAMES[j]}={x[j]} is not between {lo[j]} and {hi[j]}"


class Fun:
  """An arbitrary residual function"""

  def __init__(self, seed):
    self.w = np.random.default_rng(seed).normal(size=(5, 8))

  def __call__(self, q):
    return np.sin(self.w @ np.asarray(q, float))


def gen_fit(rng, i):
  x = [float(v) for v in rng.uniform(0, 3, 8)]
  kw = {}
  for k, v in zip(NAMES, x):
    kw.update({"x" + k: v, "l" + k: v - 1, "h" + k: v + 1,
               "o" + k: v + float(rng.uniform(-.9, .9))})
  if i % 3 == 2:
    k = NAMES[int(rng.integers(8))]
    kw["x" + k] = kw["h" + k] + .5 if i % 2 else kw["l" + k] - .5
  return dict(kw, cls=["BeatRegression", "DualBeatRegression"][i % 2],
              seed=int(i), dis=bool(i % 5))


def check_fit(cls="DualBeatRegression", seed=0, dis=True, **kw):
  try:
    x, lo, hi, out = (tuple(float(kw[c + k]) for k in NAMES) for c in "xlho")
  except KeyError:
    return
  fun = Fun(seed)
  opt = dict(disambiguate=dis) if cls.startswith("Dual") else {}
  r = getattr(m, cls)(params_init=lambda *a: x, bounds=lambda *a: (lo, hi),
                      **opt)
  t, a, f = np.arange(5.), -np.arange(5.), np.full(5, 440.)
  got = []

  class Result:
    pass

  def ls(fun, x0, bounds, **k):
    got.append((fun, x0, bounds, k))
    o = Result()
    o.x = np.array(out)
    return o

  with mock.patch.object(type(r), "_residual_fn", lambda *a: fun), \
      mock.patch.object(m.optimize, "least_squares", ls):
    if not all(l <= v <= h for l, v, h in zip(lo, x, hi)):
      try:
        r.fit(t, a, f)
      except ValueError:
        assert not got, "an unfeasible point is fitted"
        return
      raise AssertionError(f"the unfeasible point {x} is no error")
    if not all(l < v < h for l, v, h in zip(lo, x, hi)):
      return
    assert r.fit(t, a, f, max_nfev=7) is r, "result of fit"
  assert len(got) == 1 and got[0][0] is fun, "what is optimised"
  close(got[0][1], x, "starting point")
  close(got[0][2], (lo, hi), "bounds")
  assert got[0][3].get("max_nfev") == 7, "options"
  p = np.asarray(r.params_)
  cross = np.array([out[j] for j in (0, 1, 3, 2, 4, 5, 7, 6)])
  s = [np.sum(fun(q)**2) for q in (out, cross)]
  if cls.startswith("Dual") and dis:
    want = np.array(out) if s[0] <= s[1] else cross
  else:
    want = np.array(out)
  close(p, want, "parameters")
  b, ref = r.beat_, beatsdrop.ModalBeat(*want)
  u = np.linspace(0, 1, 9)
  close(b.compute(u, ("x",))[0], ref.compute(u, ("x",))[0], "beat")


def gen_sort(rng, i):
  x = rng.uniform(0, 2, 8)
  if i % 5 == 0:
    x[:2], x[4:6] = x[0], x[4]
  return dict({"x" + k: float(v) for k, v in zip(NAMES, x)},
              descending=bool(i % 2), **(dict(
                  key0=float(rng.normal()), key1=float(rng.normal()))
                                         if i % 3 == 0 else {}))


def check_sort(descending=False, key0=None, key1=None, **kw):
  x = tuple(kw["x" + k] for k in NAMES)
  if key0 is None:
    r = m.sort_params(x, descending=descending)
    e = [x[j]**2 * x[4 + j] / 4 for j in (0, 1)]
  else:
    r = m.sort_params(x, key=lambda q: (key0, key1), descending=descending)
    e = [key0, key1]
  swap = tuple(x[j] for j in (1, 0, 3, 2, 5, 4, 7, 6))
  assert tuple(r) in (x, swap), f"{x} sorted to {r}"
  if abs(e[0] - e[1]) > 1e-12 * abs(e[0]):
    assert tuple(r) == (x if (e[0] < e[1]) != descending else swap), \
        f"{x} sorted to {r}"


def gen_real(rng, i):
  fb = float(rng.uniform(3, 9))
  return dict(a0=float(rng.uniform(.2, 1)), a1=float(rng.uniform(.2, 1)),
              f0=500 + fb, f1=500 - fb, d0=float(rng.uniform(.4, 1)),
              d1=float(rng.uniform(.4, 1)),
              p0=0.0, p1=float(rng.uniform(-3, 3)), dual=bool(i % 2))


def check_real(dual=True, **q):
  q = [q[k] for k in NAMES]
  t = np.arange(200) / 100
  am, fm = beatsdrop.ModalBeat(*q).compute(t, ("am", "fm"))
  a, f = dsp.a2db(am), np.abs(fm) / (2 * np.pi)
  r = (m.DualBeatRegression if dual else m.BeatRegression)()
  r.fit(t, a, f, max_nfev=30)
  lo, hi = r.bounds_
  for k, l, x, h in zip(NAMES, lo, r.initial_params_, hi):
    assert l <= x <= h, f"{k}: start {x} not between {l} and {h}"
  out = r.result_.x
  for k, l, x, h in zip(NAMES, lo, out, hi):
    assert l <= x <= h, f"{k}: fitted {x} not between {l} and {h}"
  p = np.asarray(r.params_)
  close(p[[0, 1, 4, 5]], out[[0, 1, 4, 5]], "amplitudes and decays")
  cross = out[[0, 1, 3, 2, 4, 5, 7, 6]]
  assert np.array_equal(p, out) or dual and np.array_equal(p, cross), \
      f"{p} from {out}"
  if dual:
    s = [np.sum(r.res_fn_(v)**2) for v in (p, out, cross)]
    assert s[0] <= min(s[1:]) * (1 + 1e-9), f"residuals {s}"


CASES = {
    "bounds": (gen_bounds, check_bounds, 500),
    "fit": (gen_fit, check_fit, 300),
    "sort": (gen_sort, check_sort, 200),
    "real": (gen_real, check_real, 16),
}
