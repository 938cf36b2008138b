"""Concrete contracts of peak refinement"""
import numpy as np

from battery.util import close, same
from sample.sms import dsp


def true_peaks(x, t=None):
  return np.array([k for k in range(1, len(x) - 1)
                   if x[k] > x[k - 1] and x[k] > x[k + 1] and
                   (t is None or x[k] > t)], dtype=int)


def check(pl, mx, px, r):
  assert len(r) == (2 if px is None else 3), "number of results"
  for j, k in enumerate(pl):
    co = np.polyfit([-1, 0, 1], mx[k - 1:k + 2], 2)
    x = -co[1] / 2 / co[0]
    close(r[0][j], k + x, "position", 1e-6, 1e-6)
    close(r[1][j], np.polyval(co, x), "magnitude", 1e-6, 1e-6)
    assert abs(r[0][j] - k) <= .5 + 1e-9, "moved more than half a bin"
    assert r[1][j] >= mx[k] - 1e-9, "below the sample"
    if px is not None:
      f = int(np.floor(r[0][j]))
      w = px[f] + (px[min(f + 1, len(px) - 1)] - px[f]) * (r[0][j] - f)
      close(r[2][j], w, "phase", 1e-6, 1e-6)
  for a in r:
    assert np.shape(a) == np.shape(pl), "one value per peak"


def gen(rng, i):
  n = int(rng.integers(3, 40))
  mx = rng.normal(size=n) * 20
  if i % 3 == 0:
    mx = rng.integers(-4, 4, n).astype(float)
  if i % 5 == 0:  # a peak close to a neighbour's level
    mx[n // 2] = mx[n // 2 - 1] + 1e-3
  px = rng.normal(size=n) * 3 if i % 2 else None
  return {"mx": mx, "px": px, "t": float(rng.normal() * 10)}


def refine(mx, px, ploc=None, **_):
  pl = true_peaks(mx) if ploc is None else ploc
  if len(pl) and not (pl.min() > 0 and pl.max() < len(mx) - 1 and
                      np.all(mx[pl] > mx[pl - 1]) and
                      np.all(mx[pl] > mx[pl + 1])):
    return
  o = mx.copy(), pl.copy()
  r = dsp.peak_refine(pl, mx, px) if px is not None else dsp.peak_refine(pl,
                                                                         mx)
  check(pl, mx, px, r)
  same(mx, o[0])
  same(pl, o[1])


def both(mx, px=None, t=None, **_):
  r = dsp.peak_detect_interp(mx, px, t)
  check(true_peaks(mx, t), mx, px, r)


CASES = {"refine": (gen, refine, 300), "both": (gen, both, 300)}
