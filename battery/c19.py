"""C19: mel filterbanks and mel spectra"""
import numpy as np
from sample import psycho
from scipy import signal

from battery.util import close


def tri(v, l, c, r):
  up, dn = (v - l) / (c - l), (r - v) / (r - c)
  return np.maximum(0, np.minimum(up, dn))


def ok_axis(freqs):
  return np.ndim(freqs) == 1 and np.size(freqs) and np.all(
      np.isfinite(freqs))


def steps(x, lo=0):
  x = np.asarray(x, float)
  return np.all(np.isfinite(x)) and np.all(np.diff(x) > 1e-3) and np.all(
      np.abs(x) < 1e6)


def check(res, freqs, l, c, r):
  filts, cf = res
  assert np.shape(filts) == (len(c), np.size(freqs)), f"shape {filts.shape}"
  close(cf, c, "centre frequencies")
  for i in range(len(c)):
    close(filts[i], tri(np.asarray(freqs, float), l[i], c[i], r[i]),
          f"filter {i}", atol=1e-6)
  assert np.all(filts >= 0) and np.all(filts <= 1), "weights in [0, 1]"


def gen_corners(rng, i):
  n, k = int(rng.integers(1, 30)), int(rng.integers(3, 8))
  fl = np.cumsum(rng.uniform(0.1, 50, k))
  f = rng.uniform(0, fl[-1] * 1.2, n)
  f[:min(n, k)] = fl[:min(n, k)]
  return {"freqs": np.sort(f) if i % 2 else f, "flim": fl, "as_list": i % 3}


def corners(freqs=None, flim=None, as_list=0, **_):
  freqs, flim = np.asarray(freqs, float), np.asarray(flim, float)
  if flim.ndim != 1 or flim.size < 3 or not steps(flim) or not ok_axis(freqs):
    return
  old = flim.copy(), freqs.copy()
  fl = [flim, list(flim), tuple(flim)][as_list]
  check(psycho.mel_triangular_filterbank(freqs, flim=fl), freqs, flim[:-2],
        flim[1:-1], flim[2:])
  assert np.array_equal(flim, old[0]) and np.array_equal(freqs, old[1])


def gen_centres(rng, i):
  d = gen_corners(rng, i)
  d["flim"] = d["flim"][:int(rng.integers(1, d["flim"].size + 1))]
  return d


def bw(c):
  return 1.5 + 0.25 * abs(c)


def centres(freqs=None, flim=None, as_list=0, **_):
  freqs, flim = np.asarray(freqs, float), np.asarray(flim, float)
  if flim.ndim != 1 or flim.size < 1 or not steps(flim) or not ok_axis(freqs):
    return
  fl = [flim, list(flim), tuple(flim)][as_list]
  b = np.array([bw(c) for c in flim])
  check(psycho.mel_triangular_filterbank(freqs, flim=fl, bandwidth=bw), freqs,
        flim - b, flim, flim + b)


def gen_number(rng, i):
  n = int(rng.integers(2, 40))
  lo = float(rng.choice([0, 20, 55.5]))
  d = {"freqs": np.linspace(lo, lo + float(rng.uniform(50, 9000)), n),
       "nf": int(rng.integers(1, 9)), "bw": bool(rng.integers(2)),
       "fn": bool(rng.integers(2))}
  if rng.integers(2):
    d["lo"], d["hi"] = lo + 3, lo + float(rng.uniform(20, 5000))
    d["mid"] = [None, 0., d["hi"]][int(rng.integers(3))]
  return d


def number(freqs=None, nf=1, bw=False, fn=False, lo=None, hi=None, mid=None,
           **_):
  freqs = np.asarray(freqs, float)
  if not ok_axis(freqs) or not 1 <= nf < 1000:
    return
  kw = {}
  if lo is not None:
    kw["flim"] = (lo, hi) if mid is None else (lo, mid, hi)
  else:
    lo, hi = freqs[0], freqs[-1]
  if not (0 <= lo and lo + 1e-2 < hi < 1e6):
    return
  t = (psycho.hz2mel, psycho.mel2hz)
  if fn:
    kw["freq_transform"] = t = (lambda x: np.square(x) / 7 + 2 * np.asarray(x),
                                lambda y: np.sqrt(7 * np.asarray(y) + 49) - 7)
  a, b = float(t[0](lo)), float(t[0](hi))
  c = np.array([float(t[1](a + (b - a) * k / (nf + 1)))
                for k in range(nf + 2)])
  if bw:
    kw["bandwidth"] = lambda x: 2 + 0.1 * abs(x)
    m = c[1:-1]
    l, r = m - 2 - 0.1 * m, m + 2 + 0.1 * m
  else:
    l, m, r = c[:-2], c[1:-1], c[2:]
    if not steps(c):
      return
  check(psycho.mel_triangular_filterbank(freqs, nf, **kw), freqs, l, m, r)


def gen_none(rng, i):
  return {"number": bool(i % 2), "nf": -int(rng.integers(0, 4)),
          "bandwidth": bool(rng.integers(2)), "nl": int(rng.integers(0, 3)),
          "limits": bool(rng.integers(2))}


def none(number=False, nf=0, bandwidth=False, nl=0, limits=True, empty=False,
         **_):
  f = np.linspace(0, 100, 11)
  kw = {}
  if number:
    kw["n_filters"] = min(0, max(-100, nf))
    if bandwidth:
      kw["bandwidth"] = lambda x: 1
    if limits:
      kw["flim"] = (10, 20)
  elif limits and not empty:
    kw["flim"] = np.arange(min(2, max(0, nl))) + 3.
  elif bandwidth or empty:
    kw["flim"], kw["bandwidth"] = (), lambda x: 1
  try:
    r = psycho.mel_triangular_filterbank(f, **kw)
  except ValueError:
    return
  assert False, f"no error, {np.shape(r[0])}"


def gen_spectrum(rng, i):
  nf, n, t = (int(x) for x in rng.integers(1, 9, 3))
  return {"stft": rng.normal(size=(n, t)) + 1j * rng.normal(size=(n, t)),
          "fb": rng.uniform(0, 1, (nf, n)),
          "power": [None, 1, 2, 0.5, 3., -1.][i % 6], "default": bool(i % 5 == 4),
          "given": bool(i % 3)}


def spectrum(stft=None, fb=None, power=2, default=False, given=True, **_):
  stft, fb = np.asarray(stft), np.asarray(fb)
  if stft.ndim != 2 or not stft.size or fb.ndim != 2 or not fb.size or \
      fb.shape[1] != stft.shape[0] or isinstance(
          power, float) and not 0.1 < abs(power) < 20:
    return
  if default:
    power = 2
  freqs = np.linspace(0, 500, stft.shape[0]) + np.arange(stft.shape[0])
  old = stft.copy(), fb.copy()
  kw = {} if default else {"power": power}
  if given:
    mel, c = psycho.stft2mel(stft, freqs, filterbank=fb, **kw)
    assert c is None
  else:
    if stft.shape[0] < 2:
      return
    mel, c = psycho.stft2mel(stft, freqs, n_filters=3, flim=(1, 400), **kw)
    fb, ec = psycho.mel_triangular_filterbank(freqs, n_filters=3,
                                              flim=(1, 400))
    close(c, ec, "centre frequencies")
  assert np.array_equal(stft, old[0]), "STFT modified"
  if given:
    assert np.array_equal(fb, old[1]), "filterbank modified"
  with np.errstate(all="ignore"):
    if power is None:
      e = fb @ old[0]
    else:
      e = np.sum(fb[:, :, None] * np.abs(old[0])[None]**float(power),
                 1)**(1 / power)
  assert np.iscomplexobj(mel) == (power is None), "kind of the result"
  g = np.isfinite(e)
  close(mel[g], e[g], "mel spectrum", atol=1e-6)


def gen_spectrogram(rng, i):
  return {"x": rng.normal(size=int(rng.integers(80, 300))),
          "nper": [None, 32][i % 2], "power": [2, 1, None][i % 3]}


def spectrogram(x=None, nper=None, power=2, **_):
  if x is None:
    x = np.cos(np.arange(200.) ** 1.5)
  kws = {"fs": 1000} if nper is None else {"nperseg": nper, "fs": 1000}
  c, t, mel = psycho.mel_spectrogram(x, kws, power=power, n_filters=4,
                                     flim=(20, 450))
  f, et, st = signal.stft(x, **kws)
  em, ec = psycho.stft2mel(st, f, power=power, n_filters=4, flim=(20, 450))
  close(c, ec, "centres")
  close(t, et, "times")
  close(mel, em, "mel spectrogram")


CASES = {
    "corners": (gen_corners, corners, 80),
    "centres": (gen_centres, centres, 80),
    "number": (gen_number, number, 120),
    "none": (gen_none, none, 40),
    "spectrum": (gen_spectrum, spectrum, 90),
    "spectrogram": (gen_spectrogram, spectrogram, 12),
}
