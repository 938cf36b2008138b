"""Concrete contracts of bin conversions, Lomb-Scargle and detrending"""
from fractions import Fraction

import numpy as np
from scipy import signal
from sklearn import linear_model

from battery.util import SHAPES, close, out_rules, same
from sample.utils import dsp


def g_bin2f(rng, i):
  sh = SHAPES[i % len(SHAPES)]
  x = rng.integers(-5, 3000, sh) if i % 2 else rng.uniform(0, 2000, sh)
  return {"x": x if sh else x.item() if hasattr(x, "item") else x,
          "out": ["none", "other", "self"][i % 3],
          "nfft": int(rng.integers(1, 3000)), "fs": float(rng.choice(
              [1, 8000, 44100, rng.uniform(.1, 1e5)]))}


def bin2f(x, out="none", nfft=16, fs=2., **_):
  if np.asarray(x).dtype.kind == "i" and out == "self":
    out = "other"
  if isinstance(x, list):
    x = np.asarray(x)
  old = np.copy(x)
  out_rules(lambda v, **k: dsp.bin2f(v, nfft, fs, **k), x, out, "bin2f")
  close(dsp.bin2f(old, nfft=nfft, fs=fs), old * fs / nfft, "b fs/n")
  close(dsp.bin2f(old, nfft), old / nfft, "unit rate")


def g_bins(rng, i):
  # exactly representable cases
  n = int(2**rng.integers(0, 12))
  return {"nfft": n, "fs": float(2.**rng.integers(-2, 16)),
          "f": float(rng.integers(-5, 4000)) / 4, "b": int(
              rng.integers(-4, 3000))}


def bins(nfft=8, fs=1., f=0., b=0, **_):
  if nfft < 1 or fs <= 0 or max(nfft, fs, abs(f), abs(b)) > 1e6 or fs < 1e-3:
    return
  close(dsp.bin2f(b, nfft, fs), b * fs / nfft, "b fs/n")
  q = Fraction(f) * nfft / Fraction(fs)
  r = dsp.f2bin(f, nfft, fs)
  assert np.asarray(r).dtype.kind == "i" and np.ndim(r) == 0
  # (away from rounding of the quotient)
  d = abs(q - round(q))
  if d > 1e-6 or float(q) == f * nfft / fs == f * (nfft / fs):
    assert r == -((-q) // 1), f"bin of {f} Hz: {r} instead of {-((-q) // 1)}"
    assert dsp.f2bin(f, nfft=nfft, fs=fs) == r


def g_f2bin(rng, i):
  return {"f": rng.integers(-5, 4000, SHAPES[1 + i % 6]) / 4,
          "nfft": int(2**rng.integers(0, 12)),
          "fs": float(2.**rng.integers(-2, 16))}


def f2bin(f=None, nfft=8, fs=1., **k):
  f = np.asarray(f if f is not None else [k.get("f", 0), k.get("g", 1)],
                 float)
  if nfft < 1 or fs <= 0 or max(nfft, fs) > 1e6 or np.any(np.abs(f) > 1e6):
    return
  old = f.copy()
  for v in (f, f.tolist(), tuple(f.tolist())):
    r = dsp.f2bin(v, nfft, fs)
    assert np.asarray(r).dtype.kind == "i"
    d = np.asarray(r) * fs / nfft
    assert np.all(d >= old * (1 - 1e-9) - 1e-9) and np.all(
        d - fs / nfft < old + 1e-9 * (1 + np.abs(old))), "smallest bin"
  same(f, old)


def g_ls(rng, i):
  n = int(rng.integers(2, 60))
  fs = float(rng.choice([1, 2, 44.1]))
  d = {"n": n, "L": int(rng.integers(3, 30)), "fs": fs, "hpf": None,
       "lpf": None, "seed": int(rng.integers(1e6))}
  if i % 2:
    d["hpf"] = float(rng.choice([0, fs / n, rng.uniform(0, fs),
                                 rng.uniform(0, fs / 4)]))
  if i % 3:
    d["lpf"] = float(rng.choice([fs / n, rng.uniform(0, fs), fs * 2,
                                 rng.uniform(0, fs)]))
  return d


def _signal(seed, L, fs):
  rng = np.random.default_rng(seed)
  t = rng.uniform(0, L / fs, L)
  if seed % 2:
    t = np.sort(t)
  return t, rng.normal(size=L) + .3


def ref_ls(t, x, n, fs, hpf, lpf, **kw):
  f = np.arange(n // 2 + 1) * fs / n
  lpf = fs if lpf is None else lpf
  out = np.zeros(f.size)
  sure = np.ones(f.size, bool)
  for k in range(f.size):
    for c in (hpf, lpf):
      if c is not None and k and abs(f[k] - c) < 1e-9 * fs:
        sure[k] = False
    if k == 0:
      out[k] = np.mean(x)**2 if not hpf else 0
    elif (hpf is None or f[k] >= hpf) and f[k] < lpf:
      out[k] = signal.lombscargle(t, x, f[k:k + 1] * 2 * np.pi, **kw)[0]
  return out, f, sure


def ls(n=8, nfft=None, L=8, fs=1., hpf=None, lpf=None, seed=0, **_):
  n = nfft or n
  if not (1 <= n <= 200 and 3 <= L <= 50 and .01 < fs < 1e5) or any(
      v is not None and not 0 <= v < 1e6 for v in (hpf, lpf)):
    return
  t, x = _signal(seed, L, fs)
  old = t.copy(), x.copy()
  kw = {k: v for k, v in (("hpf", hpf), ("lpf", lpf)) if v is not None}
  for norm in (True, False):
    o, f, sure = ref_ls(t, x, n, fs, hpf, lpf, normalize=norm)
    a, w = dsp.lombscargle_as_fft(t, x, n, fs, normalize=norm, **kw)
    close(w, f, "frequencies")
    assert a.shape == o.shape, a.shape
    close(a[sure], o[sure], "Lomb-Scargle spectrum", 1e-6, 1e-9)
  same(t, old[0])
  same(x, old[1])


def corners(**_):
  """Corner frequencies on exact bins"""
  t, x = _signal(3, 20, 1.)
  a = dsp.lombscargle_as_fft(t, x, 16, 16., hpf=2., lpf=5.)[0]
  full = dsp.lombscargle_as_fft(t, x, 16, 16.)[0]
  want = np.where((np.arange(9) >= 2) & (np.arange(9) < 5), full, 0)
  close(a, want, "pass band [hpf, lpf)")
  close(full[0], np.mean(x)**2, "zero frequency")


def g_autocorr(rng, i):
  real, power = bool(i & 1), bool(i & 2)
  S = int(rng.integers(2, 20))
  a = rng.normal(size=S) + 1j * rng.normal(size=S)
  if power:
    a = np.abs(a)
  elif i % 3 == 0:
    a = a.real
  d = {"a": a, "real": real, "power": power, "n": None, "nfft": None}
  if i % 5 in (1, 2, 3):
    d["n"] = int(rng.integers(1, 30))
  if i % 5 in (2, 3):
    d["nfft"] = int(rng.integers(1, 60))
  return d


def autocorr(a, real=True, power=False, n=None, nfft=None, **_):
  a = np.asarray(a)
  if a.ndim != 1 or a.size < 2 or any(
      v is not None and not 1 <= v < 500 for v in (n, nfft)):
    return
  old = a.copy()
  kw = {k: v for k, v in (("n", n), ("nfft", nfft)) if v is not None}
  if not real:
    kw["real"] = False
  if power:
    kw["power"] = True
  n = n or (2 * (a.size - 1) if real else a.size)
  s = old if power else np.abs(old)**2
  want = (np.fft.irfft if real else np.fft.ifft)(s, nfft or n)[:n]
  close(dsp.fft2autocorrelogram(a, **kw), want, "autocorrelogram")
  same(a, old)


def circular(**_):
  """The circular autocorrelation of a signal"""
  for n in (8, 9, 64):
    x = np.random.default_rng(n).normal(size=n)
    c = np.array([np.dot(x, np.roll(x, -k)) for k in range(n)])
    close(dsp.fft2autocorrelogram(np.fft.rfft(x), n=n), c, "one-sided")
    close(dsp.fft2autocorrelogram(np.fft.fft(x), real=False), c + 0j,
          "two-sided")


def g_lsac(rng, i):
  d = g_ls(rng, 0)
  d["n"] = [None, int(rng.integers(1, 30))][i % 2]
  d["nfft"] = int(rng.integers(2, 60)) if i % 4 == 1 else None
  d["hpf"] = float(rng.choice([0., .21 * d["fs"]]))
  return d


def lsac(n=None, nfft=None, L=8, fs=1., hpf=None, seed=0, **_):
  if not (3 <= L <= 50 and .01 < fs < 1e5) or any(
      v is not None and not 1 <= v <= 300 for v in (n, nfft)) or (
          hpf or 0) < 0:
    return
  t, x = _signal(seed, L, fs)
  kw = {k: v for k, v in (("n", n), ("nfft", nfft)) if v is not None}
  if n is None:
    n = int(np.ceil(t.max() * fs))
  nfft = nfft or 2 * n
  o, _, sure = ref_ls(t, x, nfft, fs, hpf or None, None)
  if not sure.all():
    return
  close(dsp.lombscargle_autocorrelogram(t, x, fs=fs, hpf=hpf or None, **kw),
        np.fft.irfft(o, nfft)[:n], "autocorrelogram", 1e-6, 1e-9)


class Model:

  def __init__(self, flat):
    self.flat = flat

  def fit(self, x, y):
    self.x, self.y = np.array(x), np.array(y)
    return self

  def predict(self, x):
    r = np.sin(np.asarray(x)) + 2
    return r[:, 0] if self.flat else r


def g_detrend(rng, i):
  L = int(rng.integers(1, 12)) if i > 8 else 1 + i // 3
  return {"y": rng.normal(size=L) if i % 2 else rng.integers(-9, 9, L),
          "t": rng.normal(size=L) if i % 3 else None, "flat": i % 4 < 2}


def detrend(y=None, t=None, flat=False, **_):
  y = np.asarray(y)
  if y.ndim != 1 or not y.size:
    return
  old = y.copy()
  kw = {}
  x = np.arange(y.size)
  if t is not None:
    kw["x"] = x = np.asarray(t)
  m = Model(flat)
  r = dsp.detrend(y, model=m, **kw)
  close(r, old - (np.sin(x) + 2), "signal minus trend")
  close(np.ravel(m.x), x, "times")
  close(np.ravel(m.y), old, "fitted signal")
  assert m.x.ndim == 2, "one row per sample"
  lm = linear_model.LinearRegression().fit(x.reshape(-1, 1), old)
  close(dsp.detrend(y, **kw), old - lm.predict(x.reshape(-1, 1)),
        "linear trend", 1e-6, 1e-7)
  same(y, old)


def nd(dims=2, **_):
  for s in {0: [()], 2: [(3, 1), (1, 1), (2, 3)], 3: [(1, 1, 1)]}.get(
      dims, [()]):
    try:
      dsp.detrend(np.ones(s))
    except ValueError:
      continue
    assert False, f"signal of shape {s} accepted"


CASES = {
    "bin2f": (g_bin2f, bin2f, 60),
    "bins": (g_bins, bins, 400),
    "f2bin": (g_f2bin, f2bin, 40),
    "ls": (g_ls, ls, 150),
    "corners": (lambda rng, i: {}, corners, 1),
    "autocorr": (g_autocorr, autocorr, 200),
    "circular": (lambda rng, i: {}, circular, 1),
    "lsac": (g_lsac, lsac, 60),
    "detrend": (g_detrend, detrend, 80),
    "nd": (lambda rng, i: {"dims": [0, 2, 3][i]}, nd, 3),
}
