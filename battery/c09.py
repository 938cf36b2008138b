"""Concrete contract of track preparation"""
import numpy as np

from battery.util import close, same
from sample import sample as sp
from sample.sms import mm, sm


def gen(rng, i):
  n = int(rng.integers(2, 9))
  mag = rng.normal(size=n) * 20 - 40
  mag[rng.random(n) < [0, .4][i % 2]] = np.nan
  if i % 23 == 0:
    mag[:] = np.nan
  fr, ph = rng.uniform(20, 2e4, n), rng.normal(size=n)
  if i % 3:
    fr[np.isnan(mag)] = np.nan
    ph[np.isnan(mag)] = np.nan
  return {"n": n, "W": int(rng.integers(1, 50)), "nx": int(rng.integers(0, 90)),
          "H": int(rng.integers(1, 30)), "fs": int(rng.integers(1, 50000)),
          "s": int(rng.integers(0, 40)), "padded": bool(rng.random() < .5),
          "reverse": [None, False, True][i % 3], "mag": mag, "freq": fr,
          "phase": ph, "w": None, "x": None}


def prepare(n, W, nx, H, fs, s, padded, reverse, mag, freq, phase, w=None,
            x=None, **_):
  if n < 2 or len(mag) != n or len(freq) != n or len(phase) != n:
    return
  if W < 1 or nx < 0 or W > 1e6 or nx > 1e6 or H < 1 or fs < 1 or s < 0:
    return
  mag, freq, phase = (np.array(a, dtype=float) for a in (mag, freq, phase))
  win, x = np.hamming(W), np.linspace(-1, 1, nx)
  if reverse is None:
    sin = sm.SinusoidalModel(w=win, padded=padded, tracker__h=H,
                             tracker__fs=fs)
  else:
    sin = mm.ModalModel(w=win, padded=padded, tracker__h=H, tracker__fs=fs,
                        tracker__reverse=reverse)
  mod = sp.SAMPLE(sinusoidal=sin)
  t = {"start_frame": s, "freq": freq, "mag": mag, "phase": phase}
  old = {k: np.copy(v) for k, v in t.items()}
  ox = x.copy()
  r = mod._preprocess_track(7, x, t)
  assert len(r) == 3 and r[0] == 7, "index, time axis, track"
  ok = ~np.isnan(old["mag"])
  time = (np.arange(n) + s)[ok] * float(H) / fs
  if not padded:
    time = time + W / 2 / fs
  if reverse:
    time = nx / fs - time
  close(r[1], time, "playback times", 1e-9, 1e-9)
  assert set(r[2]) == set(t), "entries"
  close(r[2]["freq"], old["freq"][ok], "frequencies", 1e-12)
  close(r[2]["phase"], old["phase"][ok], "phases", 1e-12)
  close(r[2]["mag"], old["mag"][ok] + 20 * np.log10(2), "magnitudes", 1e-12)
  assert r[2]["start_frame"] == s, "start frame"
  assert t["freq"] is freq and t["mag"] is mag and t["phase"] is phase, \
      "stored arrays replaced"
  for k, v in old.items():
    same(t[k], v, f"stored {k} modified")
  same(x, ox, "signal modified")


CASES = {"prepare": (gen, prepare, 300)}
