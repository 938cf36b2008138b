"""Concrete contracts of the evaluation losses"""
import functools
from multiprocessing.pool import ThreadPool

import numpy as np
from scipy import signal

from battery.util import close, same
from sample.evaluation import metrics

DT = ["f8", "f4", "i8", "i4", "i2", "u1", "u2", "u4", "b"]
SH = [(0,), (1,), (7,), (3, 4), (2, 1, 3)]


def _vec(rng, dt, sh):
  if dt == "b":
    return rng.random(sh) < .5
  if dt[0] == "f":
    return rng.normal(size=sh).astype(dt)
  if dt[0] == "i":
    return rng.integers(-100, 100, sh).astype(dt)
  return rng.integers(0, 200, sh).astype(dt)


def g_lp(rng, i):
  sh = SH[rng.integers(len(SH))]
  a, b = (DT[rng.integers(len(DT))] for _ in range(2))
  if i < len(DT)**2:
    a, b = DT[i % len(DT)], DT[i // len(DT)]
  q = [1, 2, 3, 1.5, 1.0, float(rng.uniform(1, 5))][rng.integers(6)]
  return {"x": _vec(rng, a, sh), "y": _vec(rng, b, sh), "q": q}


def ref_lp(x, y, q):
  d = np.abs(np.asarray(x, float) - np.asarray(y, float))
  return float(np.sum(d**q)**(1 / q))


def lp(x, y, q=1, **_):
  x, y = np.asarray(x), np.asarray(y)
  if x.shape != y.shape or not 1 <= q <= 50:
    return
  if x.size and max(np.max(np.abs(np.asarray(v, float)))
                    for v in (x, y)) > 1e5:
    return
  old = x.copy(), y.copy()
  kw = {} if q == 1 else {"p": q}
  r = metrics.lp_distance(x, y, **kw)
  close(float(r), ref_lp(x, y, q), f"p-distance ({x.dtype}, {y.dtype})",
        1e-4 if "f4" in (x.dtype.str[1:], y.dtype.str[1:]) else 1e-9)
  assert r >= 0
  close(float(metrics.lp_distance(y, x, **kw)), float(r), "symmetry", 1e-5)
  assert metrics.lp_distance(x, x, **kw) == 0
  assert metrics.lp_distance(x, x.copy(), **kw) == 0
  same(x, old[0])
  same(y, old[1])


def g_spectral(rng, i):
  n = int(rng.choice([16, 32, 50]))
  d = {"x": rng.normal(size=rng.integers(60, 200)), "n": n, "given": i % 3}
  d["y"] = rng.normal(size=d["x"].size)
  d["olap"] = float(rng.choice([0., .5, .75, .3]))
  d["alpha"] = [None, 0., .3][rng.integers(3)]
  d["floor"] = float(rng.choice([-60, -20, -.5, 0, -100]))
  d["q"] = float(rng.choice([1, 2, 1.5]))
  d["W"] = n - int(rng.integers(0, 6))
  return d


def ref_spectral(x, y, n, w, olap, alpha, floor, q, **kw):
  def stft(v):
    return np.abs(signal.stft(v, window=w, nperseg=len(w), nfft=n,
                              noverlap=int(olap * len(w)), **kw)[2])

  a, b = stft(x), stft(y)
  db = lambda v: 20 * np.log10(np.maximum(v, 10**(floor / 20)))
  if alpha is None:
    alpha = 1 / max(1, -floor)
  return ref_lp(a, b, q) + alpha * ref_lp(db(a), db(b), q)


def spectral(x=None, y=None, n=16, given=0, olap=.75, alpha=None, floor=-60.,
             q=1., W=16, **_):
  if x is None or y is None:
    rng = np.random.default_rng(5)
    x, y = rng.normal(size=(2, 90))
    n = W = 16
  x, y = np.asarray(x, float), np.asarray(y, float)
  if x.shape != y.shape or x.size < 60 or not 4 <= W <= n <= 256 or \
      not 0 <= olap < 1 or abs(floor) > 200:
    return
  old = x.copy(), y.copy()
  if given == 0:
    close(metrics.lin_log_spectral_loss(x, y, n=n), ref_spectral(
        x, y, n, signal.get_window("hamming", n), .75, None, -60, 1),
          "default options", 1e-7)
  else:
    if given == 1:
      w = np.linspace(.1, 1, W)
      kw = {"w": w}
    else:
      w = signal.get_window("hann", W)
      kw = {"wtype": "hann", "wsize": W}
    close(metrics.lin_log_spectral_loss(
        x, y, n=n, olap=olap, alpha=alpha, norm_p=q, floor_db=floor,
        detrend="linear", **kw),
          ref_spectral(x, y, n, w, olap, alpha, floor, q, detrend="linear"),
          "spectral loss", 1e-7)
  same(x, old[0])
  same(y, old[1])


def base(x, y, e=0., *, n=1, alpha=.5, calls=None):
  if calls is not None:
    calls.append(n)
  return n * alpha + x * y + e * n * n


def g_multi(rng, i):
  return {"ns": rng.integers(0, 100, i % 6).tolist(),
          "al": rng.uniform(size=i % 6), "how": ["sequential", "pool"][i % 2],
          "x": float(rng.normal()), "y": float(rng.normal()),
          "e": float(rng.normal())}


def multi(ns=(3, 5, 5), al=(.5, .25, 2.), how="sequential", x=2., y=3., e=4.,
          **_):
  ns = [int(v) for v in np.ravel(ns)][:20]
  al = np.ravel(al)[:len(ns)]
  if len(al) != len(ns):
    return
  st = [{"n": n, "alpha": a} for n, a in zip(ns, al)]
  want = sum(base(x, y, e, **s) for s in st)
  pool = ThreadPool(3) if how == "pool" else None
  kw = {"pool": pool} if pool else {}
  if how == "njobs":
    kw = {"njobs": 2}
  calls = None if how == "njobs" else []
  try:
    loss = metrics.MultiScaleSpectralLoss(functools.partial(
        base, calls=calls), iter(st))
    for k in (1, 2):
      close(float(loss(x, y, e, **kw)), want, "sum over scales", 1e-9)
      assert calls is None or sorted(calls) == sorted(ns * k), calls
    close(float(loss(x, y, e, alpha=.125, **kw)), sum(base(
        x, y, e, n=n, alpha=.125) for n in ns), "options of the call", 1e-9)
    close(float(metrics.multiscale_spectral_loss(
        x, y, e, spectral_loss=base, stfts=st, **kw)), want,
          "sum over scales (function)", 1e-9)
  finally:
    if pool:
      pool.terminate()


def defaults(**_):
  assert metrics.multiscale_spectral_loss(
      0., 0., spectral_loss=base) == sum(2**i * .5 for i in range(6, 12))
  rng = np.random.default_rng(3)
  x, y = rng.normal(size=(2, 3000))
  close(metrics.multiscale_spectral_loss(x, y), sum(ref_spectral(
      x, y, 1 << i, signal.get_window("hamming", 1 << i), .75, None, -60, 1)
                                                    for i in range(6, 12)),
        "default losses", 1e-7)


def njobs(**_):
  multi(how="njobs")


CASES = {
    "lp": (g_lp, lp, 200),
    "spectral": (g_spectral, spectral, 60),
    "multi": (g_multi, multi, 24),
    "njobs": (lambda rng, i: {}, njobs, 1),
    "defaults": (lambda rng, i: {}, defaults, 1),
}
