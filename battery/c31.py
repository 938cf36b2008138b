"""Concrete contracts of normalisation, maxima, flux and onsets"""
import numpy as np
from scipy import signal

from battery.util import close, same
from sample.utils import dsp


def g_normalize(rng, i):
  n = int(rng.integers(2, 20))
  x = rng.integers(-9, 9, n) if i % 3 == 1 else rng.uniform(-3, 3, n)
  if i % 7 == 3:
    x = x + 20
  return {"x": x, "mode": ["peak", "rms", "range"][i % 3 if i % 2 else
                                                   i // 2 % 3],
          "out": ["none", "other", "self"][i // 5 % 3]}


def normalize(x=None, mode="peak", out="none", **_):
  if x is None or x.size < 1:
    return
  x = np.array(x)
  f = x.astype(float)
  if mode == "peak" and not np.any(f) or mode == "range" and np.ptp(f) == 0:
    return
  if x.dtype.kind != "f" and out == "self":
    out = "none"
  kw = {}
  if out == "other":
    kw["out"] = np.full(x.shape, 7.)
  elif out == "self":
    kw["out"] = x
  r = dsp.normalize(x, mode=mode, **kw)
  if kw:
    same(kw["out"], r, "out holds the result")
  if out != "self":
    same(x, f.astype(x.dtype), "input unmodified")
  if mode == "peak":
    exp = f / np.max(np.abs(f))
  elif mode == "range":
    exp = (f - f.min()) / (f.max() - f.min())
  else:
    exp = (f - f.mean()) / (f.std() or 1)
  assert np.shape(r) == x.shape
  close(r, exp, f"normalize {mode}")
  if mode == "peak":
    same(dsp.normalize(f), dsp.normalize(f, mode="peak"), "default mode")


def naive_max(x, key, w):
  n = len(x)
  return np.array([
      w <= i < n - w and all(x[i] >= key[j] for j in range(i - w, i + w + 1))
      for i in range(n)
  ])


def g_max(rng, i):
  w = int(rng.integers(1, 4))
  n = int(rng.integers(2 * w + 1, 2 * w + 20))
  x = rng.integers(-2, 3, n) if i % 2 else rng.normal(size=n)
  d = {"x": x.astype(float), "w": w, "n": n, "land": i % 4 == 0}
  if i % 3 == 0:
    d["key"] = rng.integers(-2, 3, n + (i % 5)).astype(float)
  if i % 4 < 2:
    d["o"] = rng.integers(0, 2, n) > 0
  return d


def local_maxima(x=None, w=1, key=None, o=None, land=False, **_):
  if w < 1 or x is None or x.size < 2 * w + 1 or x.size > 200:
    return
  x0 = np.copy(x)
  if key is not None and key.size < x.size:
    return
  k0 = None if key is None else np.copy(key)
  exp = naive_max(x, x if key is None else key, w)
  kw = {} if key is None else {"key": key}
  if o is not None:
    o = np.asarray(o, bool)
    kw["out"] = o.copy()
    if land:
      exp = exp & o
      kw["logical_and"] = True
  r = dsp.local_maxima(x, w=w, **kw)
  same(r, exp, "local maxima")
  assert r.dtype == bool
  same(x, x0, "input unmodified")
  if o is not None:
    same(kw["out"], r, "out")
  if key is not None:
    same(key, k0, "key unmodified")
  else:
    same(dsp.local_maxima(x), naive_max(x, x, 1), "default radius")


def g_flux(rng, i):
  x = rng.normal(size=(int(rng.integers(1, 6)), int(rng.integers(2, 9))))
  if i % 2:
    x = x + 1j * rng.normal(size=x.shape)
  return {"x": x}


def flux(x=None, **_):
  if x is None or x.ndim != 2 or x.shape[1] < 2 or x.shape[0] < 1:
    return
  x0 = np.copy(x)
  r = dsp.spectral_flux_from_tf(x)
  close(r, np.array([
      sum(max(abs(x[f, t + 1]) - abs(x[f, t]), 0) for f in range(len(x)))
      for t in range(x.shape[1] - 1)
  ]), "flux")
  same(x, x0, "input unmodified")


def g_flux_sig(rng, i):
  return {"x": rng.normal(size=int(rng.integers(64, 300))),
          "nperseg": int(2**rng.integers(3, 6))}


def flux_sig(x=None, nperseg=16, **_):
  if x is None or x.size < 2 * nperseg:
    return
  *_, z = signal.stft(x, nperseg=nperseg)
  close(dsp.spectral_flux(x, nperseg=nperseg), dsp.spectral_flux_from_tf(z),
        "flux of the transform")
  a = dsp.spectral_flux(x, lambda y, nperseg: (1, y[:nperseg], np.reshape(
      y[:8], (2, 4))), nperseg=nperseg)
  close(a, dsp.spectral_flux_from_tf(np.reshape(x[:8], (2, 4))), "last output")


def naive_env(x, alpha):
  g, out = 0, []
  for f in x:
    g = max(f, alpha * g + (1 - alpha) * f)
    out.append(g)
  return np.array(out)


def g_env(rng, i):
  return {"x": rng.normal(size=int(rng.integers(0, 12))),
          "alpha": float(rng.choice([0, .5, .75, 1, 1.5]))}


def envelope(x=None, alpha=0., **_):
  x0 = np.copy(x)
  close(dsp._onset_selection_g(x, alpha=alpha), naive_env(x, alpha),
        "envelope")
  same(x, x0, "input unmodified")


def naive_avg(x, w, m, delta):
  n = len(x)
  return np.array([
      (np.mean(x[i - m * w:i + w + 1]) if m * w <= i < n - w else 0) + delta
      for i in range(n)
  ])


def g_win(rng, i):
  w, m = int(rng.integers(1, 4)), int(rng.integers(0, 4))
  n = (m + 1) * w + 1 + int(rng.integers(0, 20))
  x = rng.normal(size=n)
  if i % 2:
    x[rng.integers(0, n, 3)] += 5
  return {"x": x, "w": w, "m": m, "alpha": float(rng.uniform(0, 1)),
          "delta": float(rng.choice([0, .3, 1.5]))}


def ok_win(x, w, m):
  return x is not None and w >= 1 and m >= 0 and 200 > x.size >= max(
      (m + 1) * w + 1, 2 * w + 1)


def average(x=None, w=1, m=1, delta=0., **_):
  if not ok_win(x, w, m):
    return
  x0 = np.copy(x)
  close(dsp._onset_selection_m(x, w=w, m=m, delta=delta),
        naive_avg(x, w, m, delta), "local average")
  same(x, x0, "input unmodified")


def selection(x=None, w=3, m=3, alpha=.75, delta=1.5, **_):
  if not ok_win(x, w, m) or np.ptp(x) < 1e-3:
    return
  x0 = np.copy(x)
  z = (x - np.mean(x)) / np.std(x)
  g = np.concatenate([[0], naive_env(z, alpha)[:-1]])
  a = naive_avg(z, w, m, delta)
  sure = (np.abs(z - g) > 1e-9) & (np.abs(z - a) > 1e-9)
  r = dsp.onset_selection(x, w=w, m=m, alpha=alpha, delta=delta)
  exp = (z >= g) & (z >= a) & naive_max(x, x, w)
  same(r[sure], exp[sure], "selected onsets")
  assert r.dtype == bool
  same(x, x0, "input unmodified")


def g_det(rng, i):
  X = int(rng.integers(1, 400))
  n = int(rng.integers(1, 40))
  return {"x": rng.normal(size=X), "f": rng.normal(size=n),
          "s": rng.integers(0, 4, n) == 0}


def detection(x=None, f=None, s=None, **_):
  if x is None or f is None or s is None or x.size < 1 or f.size < 1:
    return
  s = np.asarray(s, bool)
  calls = []
  old = dsp.onset_selection

  def fake(*a, **k):
    calls.append((a, k))
    return s

  dsp.onset_selection = fake
  try:
    r = dsp.onset_detection(x, lambda y, opt: f, w=5, m=4, alpha=.25,
                            delta=2.5, opt=3)
  finally:
    dsp.onset_selection = old
  (a, k), = calls
  k = dict(zip(("x", "w", "m", "alpha", "delta"), a), **k)
  assert k["x"] is f and (k["w"], k["m"], k["alpha"],
                          k["delta"]) == (5, 4, .25, 2.5)
  exp = np.zeros(x.size, bool)
  for j in np.flatnonzero(s):
    exp[j * x.size // f.size] = True
  same(r, exp, "onset positions")


def g_e2e(rng, i):
  return {"seed": int(rng.integers(1 << 30))}


def end_to_end(seed=0, **_):
  rng = np.random.default_rng(seed)
  x = rng.normal(size=2000) * .01
  x[700:] += np.sin(np.arange(1300) * .3)
  kw = {"nperseg": 64}
  r = dsp.onset_detection(x, delta=1., **kw)
  f = dsp.spectral_flux(x, **kw)
  s = dsp.onset_selection(f, delta=1.)
  assert r.shape == x.shape and r.dtype == bool
  same(np.flatnonzero(r), np.unique(np.flatnonzero(s) * x.size // f.size),
       "onsets")


CASES = {
    "normalize": (g_normalize, normalize, 150),
    "local_maxima": (g_max, local_maxima, 150),
    "flux": (g_flux, flux, 60),
    "flux_sig": (g_flux_sig, flux_sig, 30),
    "envelope": (g_env, envelope, 60),
    "average": (g_win, average, 80),
    "selection": (g_win, selection, 150),
    "detection": (g_det, detection, 100),
    "end_to_end": (g_e2e, end_to_end, 10),
}
