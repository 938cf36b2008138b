"""Concrete contracts of parameter mapping and matrix assembly"""
import numpy as np
from sklearn import base

from battery.util import close, same
from sample import _training, sample as sm
from sample.beatsdrop import sample as bs

FITTED = []


class Reg(base.BaseEstimator):

  def __init__(self, K=-1.0, Q=0.0, tag=None):
    self.K, self.Q, self.tag = K, Q, tag

  def fit(self, x, y):
    FITTED.append((self, x, y))
    self.k_ = self.slope_ = self.K
    self.q_ = self.level_ = self.Q
    if self.tag == "renamed":
      self.k_ = self.q_ = 12345.0
    return self


def track(t, mag, freq, K, Q, names=False, mean=False, F=1.5, **_):
  K, Q, F = float(K), float(Q), float(F)
  if K == 0 or abs(K) > 1e5 or abs(Q) > 1e3 or len(t) < 1:
    return
  reg = Reg(np.float64(K), np.float64(Q), "renamed" if names else None)
  kw, got = {}, []
  if names:
    kw.update(regressor_k="slope_", regressor_q="level_")
  if not mean:

    def fr(f):
      got.append(f)
      return F

    kw["freq_reduce"] = fr
  m = sm.SAMPLE(regressor=reg, **kw)
  FITTED.clear()
  ot, om = t.copy(), mag.copy()
  r = m._fit_track(0, t, {"freq": freq, "mag": mag, "phase": mag,
                          "start_frame": 3})
  assert len(r) == 1 and len(r[0]) == 3, "one mode"
  f, d, a = r[0]
  assert len(FITTED) == 1 and FITTED[0][0] is not reg, "clone"
  same(FITTED[0][1], ot.reshape(-1, 1), "time column")
  same(FITTED[0][2], om, "magnitudes")
  if mean:
    close(f, np.mean(freq), "frequency")
  else:
    assert f == F and got[0] is freq, "frequency"
  for s in (0, .1, 1.0, 2.5):
    lev = 20 * (np.log10(a) + np.log10(np.e) * (-2 * s / d))
    close(lev, K * s + Q, "level", 1e-6, 1e-6)
  same(t, ot)
  same(mag, om)


def g_track(rng, i):
  n = int(rng.integers(1, 9))
  return {"t": np.sort(rng.uniform(0, 2, n)), "mag": rng.normal(size=n),
          "freq": rng.uniform(50, 5e3, n), "K": -float(10**rng.uniform(-2, 3)),
          "Q": float(rng.uniform(-90, 10)), "names": bool(i % 2),
          "mean": bool((i // 2) % 2)}


def compose(**_):
  m = sm.SAMPLE()
  log = []
  m._preprocess_track = lambda i, x, t: log.append((i, x, t)) or (1, 2, 3)
  m._fit_track = lambda i, t, track: log.append((i, t, track)) or "r"
  assert m._track_preprocess_and_fit(7, "x", "t") == "r"
  assert m._track_preprocess_and_fit(i=7, x="x", t="t") == "r"
  assert log == [(7, "x", "t"), (1, 2, 3)] * 2, log


def progress(n, **_):
  if n > 1000:
    return
  fa = _training.FitArgs()
  assert list(fa.starmap_progress(lambda a, b: (a, b), [
      (i, -i) for i in range(n)], n)) == [(i, -i) for i in range(n)]
  assert list(fa.starmap_progress(lambda a: a, ((i,) for i in range(n)))
              ) == list(range(n))


class Sin(base.BaseEstimator):

  def time_frames(self, x):
    return np.zeros((3, 4))

  def fit(self, x, y=None, **kw):
    self.x = x
    return self

  @property
  def tracks_(self):
    return self.tr


def _matrix(C, cols, nrow, x):
  m = C(sinusoidal=Sin())
  m.sinusoidal.tr = [{"id": k} for k in range(len(cols))]
  x = np.array(x, dtype=float)
  calls = []

  def one(i, x_, t):
    assert x_ is x and t is m.sinusoidal.tr[i], "arguments"
    calls.append(i)
    return tuple(map(tuple, cols[i]))

  m._track_preprocess_and_fit = one
  assert m.fit(x) is m
  assert m.sinusoidal.x is x
  assert calls == list(range(len(cols))), "each track once, in order"
  want = [c for t in cols for c in t if np.all(np.isfinite(c))]
  want = np.array(want).T if want else np.empty((nrow, 0))
  assert m.param_matrix_.shape == want.shape, m.param_matrix_.shape
  same(m.param_matrix_, want, "parameter matrix")
  for j, n in enumerate(("freqs_", "decays_", "amps_", "phases_")[:nrow]):
    same(getattr(m, n), want[j], n)


def g_mat(nrow, mx):

  def g(rng, i):
    n = int(rng.integers(0, 6)) if i > 2 else i
    cols = []
    for _ in range(n):
      t = rng.normal(size=(int(rng.integers(1, mx + 1)), nrow))
      if rng.random() < .35:
        t[rng.integers(len(t)), rng.integers(nrow)] = rng.choice(
            [np.nan, np.inf, -np.inf])
      cols.append(t)
    return {"cols": cols, "x": rng.normal(size=5)}

  return g


def matrix(cols=None, x=(0.,), **_):
  if cols is not None:
    _matrix(sm.SAMPLE, cols, 3, x)


def matrix4(cols=None, x=(0.,), **_):
  if cols is not None:
    _matrix(bs.SAMPLEBeatsDROP, cols, 4, x)


def rows(P, v, **_):
  m = bs.SAMPLEBeatsDROP()
  m.param_matrix_ = P.copy()
  names = ("freqs_", "decays_", "amps_", "phases_")
  for j, n in enumerate(names):
    same(getattr(m, n), P[j], n)
  for j, n in enumerate(names[:3]):
    want = m.param_matrix_.copy()
    want[j] = v
    setattr(m, n, v)
    same(m.param_matrix_, want, n)


def g_rows(rng, i):
  n = int(rng.integers(0, 5))
  return {"P": rng.normal(size=(4, n)), "v": rng.normal(size=n)}


CASES = {"track": (g_track, track, 100), "compose": (lambda r, i: {}, compose,
                                                     1),
         "progress": (lambda r, i: {"n": i}, progress, 5),
         "matrix": (g_mat(3, 1), matrix, 60),
         "matrix4": (g_mat(4, 2), matrix4, 60), "rows": (g_rows, rows, 20)}
