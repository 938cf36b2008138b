"""Concrete contracts of the zero-phase transform"""
import numpy as np

from battery.util import close, same
from sample.sms import dsp, sm

EPS = np.finfo(float).eps


def spectra(x, w, n, tol=1e-14):
  W = w.size
  h = W // 2
  b = np.zeros(n)
  for k in range(-h, W - h):
    b[k % n] = x[h + k] * w[h + k]
  X = np.fft.rfft(b)
  mod = np.abs(X)
  return X, mod, tol


def dft(x, w, n, tol=None, **_):
  if n < w.size or w.size < 1 or x.size != w.size or n > 2**20:
    return
  if np.max(np.abs(x), initial=0) > 1e9 or np.max(np.abs(w), initial=0) > 1e9:
    return
  kw = {} if tol is None else {"tol": tol}
  xo, wo = x.copy(), w.copy()
  mx, px = dsp.dft(x, w, n, **kw)
  X, mod, t = spectra(xo, wo, n, 1e-14 if tol is None else tol)
  assert mx.shape == (n // 2 + 1,) and px.shape == (n // 2 + 1,), "shape"
  scale = max(1e-300, float(np.max(mod)))
  # a sensible comparison away from rounding noise
  noise = 1e-12 * scale
  sure = mod > max(1e3 * noise, 10 * EPS)
  want = 20 * np.log10(np.maximum(mod, EPS))
  close(mx[sure], want[sure], "magnitude", 1e-6, 1e-5)
  assert np.all(np.isfinite(mx)), "magnitude not finite"
  assert np.all(mx >= 20 * np.log10(EPS) - 1e-9), "magnitude floor"
  low = mod + noise < min(EPS, t)
  close(mx[low], want[low], "floored magnitude")
  # the phase modulo 2 pi
  ok = mod > max(1e3 * noise, 10 * t)
  d = np.exp(1j * px[ok]) - X[ok] / mod[ok]
  assert np.all(np.abs(d) < 1e-5), "phase"
  z = (mod + noise) < t
  assert np.all(np.abs(np.exp(1j * px[z]) - 1) < 1e-6), "phase of null bins"
  if t > 1e-7 and np.all(z | ok):
    want = np.unwrap(np.where(z, 0, np.angle(X)))
    if np.all(np.abs(np.abs(np.diff(np.where(z, 0, np.angle(X)))) - np.pi)
              > 1e-3):
      close(px, want, "unwrapped phase", 1e-6, 1e-5)
  same(x, xo, "frame modified")
  same(w, wo, "window modified")


def g_dft(rng, i):
  W = int(rng.integers(1, 12))
  n = int(W + rng.integers(0, 12)) if i % 3 else int(2**np.ceil(np.log2(W)))
  x = rng.normal(size=W)
  if i % 7 == 0:
    x = np.zeros(W)
  if i % 7 == 1:
    x = np.cos(2 * np.pi * rng.integers(0, W) / W * np.arange(W))
  d = {"x": x, "w": np.hamming(W) + .1 if i % 2 else rng.normal(size=W),
       "n": max(n, W)}
  if i % 4 == 3:
    d["tol"] = float(10**rng.uniform(-14, 0))
  return d


def window(w, **_):
  s = np.sum(w)
  if abs(s) < 1e-9 * max(1, float(np.max(np.abs(w), initial=0))):
    return
  old = w.copy()
  m = sm.SinusoidalModel(w=w)
  close(m._normalized_window, old / s, "normalised window")
  same(m.w, old, "window modified")


def frames(w, x, nfft, H, **_):
  if nfft < w.size or H < 1:
    return
  m = sm.SinusoidalModel(w=w, n=nfft, tracker__h=H)
  m.w_ = m._normalized_window
  got = list(m.dft_frames(x))
  fr = [np.array(f) for f in m.time_frames(x)]
  assert len(got) == len(fr), "one spectrum per frame"
  for (a, b), f in zip(got, fr):
    c, d = dsp.dft(f, m.w_, nfft)
    same(a, c, "magnitude")
    same(b, d, "phase")


def fit(w, x, nfft, H, **_):
  """The window in use during analysis has unit sum"""
  m = sm.SinusoidalModel(w=w, n=nfft, tracker__h=H, tracker__fs=100,
                         intermediate__save=True)
  m.fit(x)
  close(np.sum(m.w_), 1.0, "unit sum")
  st = m.intermediate["stft"] if len(x) >= w.size else []
  for i, (mx, _) in enumerate(st):
    c, _ = dsp.dft(x[i * H:i * H + w.size], w / np.sum(w), nfft)
    same(mx, c, "frame spectrum")


def g_fr(rng, i):
  W = int(rng.integers(1, 9))
  return {"w": rng.uniform(.1, 1, W), "x": rng.normal(
      size=int(rng.integers(0, 30))), "nfft": W + int(rng.integers(0, 9)),
          "H": int(rng.integers(1, 6))}


CASES = {
    "dft": (g_dft, dft, 400),
    "window": (lambda r, i: {"w": r.normal(size=int(r.integers(1, 20)))},
               window, 100),
    "frames": (g_fr, frames, 100),
    "fit": (g_fr, fit, 60),
}
