"""Concrete contracts of the hinge model"""
from types import SimpleNamespace
from unittest import mock

import numpy as np
from scipy import optimize
from sklearn import base

from battery.util import SHAPES, close, out_rules, same
from sample import hinge as hm

H = hm.HingeRegression


def g_hinge(rng, i):
  sh = SHAPES[i % len(SHAPES)]
  x = rng.normal(size=sh) * 5
  out = ["none", "other", "self"][(i // 7) % 3]
  if out == "none" and rng.random() < .3:
    x = np.round(x).astype(int)
  return {"x": x, "a": float(rng.normal()), "k": float(rng.normal()),
          "q": float(rng.normal()), "out": out}


def hinge(x, a, k, q, out="none", **_):
  a, k, q = float(a), float(k), float(q)
  x = x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x
  f = lambda v, **o: hm.hinge_function(v, a, k, q, **o)
  old = np.copy(x)
  want = k * np.minimum(old, a) + q
  out_rules(f, x, out, "hinge")
  if np.ndim(x) and out == "none":
    close(f(x), want, "k min(x, a) + q")


def g_bounds(rng, i):
  n = int(rng.integers(0, 7))
  x = np.sort(rng.uniform(0, 3, n))
  if i % 6 == 1:
    x = np.full(n, 1.5)
  k, q = float(rng.normal() * 30), float(rng.normal() * 40)
  if i % 5 == 0:
    k = 0.0
  y = k * x + q + (0 if i % 4 == 0 else rng.normal(size=n))
  if i % 8 == 0:
    y = np.full(n, q)
  return {"x": x.reshape(-1, 1) if i % 2 else x, "y": y, "k": k, "q": q}


def bounds(x, y, k, q, **_):
  if max([abs(k), abs(q), *np.abs(x).ravel(), *np.abs(y).ravel()]) > 1e12:
    return
  ox, oy = x.copy(), y.copy()
  h = H()
  try:
    lo, hi = h.bounds(x, y, k, q)
  except ValueError:
    assert len(x) < 2, "bounds rejected"
    return
  assert len(x) >= 2, "short data accepted"
  for i, n in enumerate("akq"):
    assert lo[i] < hi[i], f"empty interval for {n}: {lo[i], hi[i]}"
  assert np.all(lo[0] <= x) and np.all(x <= hi[0]), "knee interval"
  if k:
    assert np.sign(lo[1]) == np.sign(hi[1]) == np.sign(k), "slope sign"
    close(sorted([lo[1], hi[1]]), sorted([k, 8 * k]), "slope interval")
  close(q - lo[2], hi[2] - q, "intercept interval not centred", 1e-6, 1e-6)
  st = h.coeffs_init(x, y, k, q)
  assert len(st) == 3
  for i, n in enumerate("akq"):
    assert lo[i] <= st[i] <= hi[i], f"start {n} outside the bounds"
  same(st[1], k)
  same(st[2], q)
  same(x, ox)
  same(y, oy)


def residual(x, y, p, **_):
  if len(x) < 2:
    return
  r = H._residual(x, y)(p)
  close(r, p[1] * np.minimum(x.ravel(), p[0]) + p[2] - y, "residual", 1e-6,
        1e-6)


def g_res(rng, i):
  n = int(rng.integers(2, 8))
  return {"x": rng.normal(size=(n, 1)), "y": rng.normal(size=n),
          "p": rng.normal(size=3)}


def _patched():
  real = optimize.least_squares
  rec = []

  def ls(*a, **k):
    k.update(zip(("fun", "x0"), a))
    rec.append(dict(k))
    r = real(**k)
    rec.append(r)
    return r

  names = [(o, n) for o in (optimize, hm) for n, v in vars(o).items()
           if v is real]
  return rec, [mock.patch.object(o, n, ls) for o, n in names]


def fit(x, y, **_):
  if len(x) < 2 or np.max(np.abs(x)) > 1e6 or np.max(np.abs(y)) > 1e6:
    return
  rec, ps = _patched()
  for q in ps:
    q.start()
  try:
    h = H().fit(x, y, max_nfev=3)
  finally:
    for q in ps:
      q.stop()
  assert len(rec) == 2, "one optimisation"
  k, r = rec
  lr = h.linear_regressor
  K, Q = float(np.squeeze(lr.coef_)), float(np.squeeze(lr.intercept_))
  close(k["bounds"][0], H._default_bounds(x, y, K, Q)[0], "lower bounds")
  close(k["bounds"][1], H._default_bounds(x, y, K, Q)[1], "upper bounds")
  close(k["x0"], H._default_coeffs_init(x, y, K, Q), "start")
  assert k["method"] == "dogbox" and k["max_nfev"] == 3, "options"
  par = np.array([.5, -2, 1])
  close(k["fun"](par), par[1] * np.minimum(x.ravel(), par[0]) + par[2] - y,
        "residual")
  for n, i in (("a_", 0), ("k_", 1), ("q_", 2)):
    same(getattr(h, n), r.x[i], n)
  close(h.predict(x.ravel()),
        r.x[1] * np.minimum(x.ravel(), r.x[0]) + r.x[2], "prediction")


class Lin(base.BaseEstimator):

  def fit(self, x, y):
    self.got = x, y
    self.s_, self.i_ = np.array([-3.0]), np.array(2.0)
    return self


def own(x, y, **_):
  if len(x) < 2 or np.max(np.abs(x)) > 1e6 or np.max(np.abs(y)) > 1e6:
    return
  calls = []
  lo = np.array([-100, -200, -300.]) - 2 * np.max(np.abs(y))
  hi = -lo

  def ci(*a):
    calls.append(a)
    return .25, -4., 3.

  def bo(*a):
    calls.append(a)
    return lo, hi

  rec, ps = _patched()
  for q in ps:
    q.start()
  try:
    lr = Lin()
    h = H(lr, "s_", "i_", "trf", ci, bo).fit(x, y)
  finally:
    for q in ps:
      q.stop()
  assert lr.got[0] is x and lr.got[1] is y, "regressor data"
  assert len(calls) == 2, "given callables used"
  for c in calls:
    assert c[0] is x and c[1] is y and c[2] == -3 and c[3] == 2, "linear fit"
  close(rec[0]["x0"], [.25, -4, 3], "start")
  close(rec[0]["bounds"][0], lo)
  close(rec[0]["bounds"][1], hi)
  assert rec[0]["method"] == "trf", "method"
  close(h.coeffs_, rec[1].x)


def g_fit(rng, i):
  n = int(rng.integers(2, 30))
  x = np.sort(rng.uniform(0, 2, n)).reshape(-1, 1)
  k, q, a = -rng.uniform(1, 60), rng.uniform(-60, 0), rng.uniform(0, 2)
  return {"x": x, "y": k * np.minimum(x.ravel(), a) + q +
          rng.normal(size=n) * [0, 1][i % 2]}


CASES = {"hinge": (g_hinge, hinge, 200), "bounds": (g_bounds, bounds, 300),
         "residual": (g_res, residual, 50), "fit": (g_fit, fit, 40),
         "own": (g_fit, own, 20)}
