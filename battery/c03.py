"""Concrete contracts of the criteria of reported tracks"""
import itertools
import math
from fractions import Fraction

import numpy as np

from battery.c01 import KEYS, state
from sample.sms import mm, sm


def g_length(rng, i):
  return {"fs": int(rng.choice([8000, 44100, 48000, 10])),
          "h": int(rng.choice([1, 3, 64, 500])),
          "min_sine_dur": float(rng.choice([0, .01, .04, .5, .125, 1, 2.5])),
          "strip": float(rng.choice([0, .5, .04, 1, 2.25]))}


def frames(t, fs, h):
  """ceil(t * fs / h), None where rounding matters"""
  e = Fraction(t) * fs / h
  r = math.ceil(e)
  if min(abs(e - r), abs(e - r + 1)) < 1e-6 and e != r:
    return None
  return r


def length(fs=44100, h=500, min_sine_dur=.04, strip=0., **_):
  e = frames(min_sine_dur, fs, h)
  for c in (sm.SineTracker, mm.ModalTracker):
    t = c(fs=fs, h=h, min_sine_dur=min_sine_dur)
    assert abs(t.frame_rate - fs / h) < 1e-9 * fs / h, "frame rate"
    if e is not None:
      assert t.min_sine_len == max(2, e), \
          f"least length {t.min_sine_len}, expected {max(2, e)}"
  e = frames(strip, fs, h)
  t = mm.ModalTracker(fs=fs, h=h, strip_t=strip)
  if e is not None:
    assert t.strip_n == e, f"strip {t.strip_n} frames, expected {e}"
  assert mm.ModalTracker(fs=fs, h=h).strip_n is None


def g_track(rng, i):
  n = int(rng.integers(1, 8))
  s = rng.choice([-1, 1]) * (i % 3 > 0)
  f = float(rng.choice([100., 440., 16000., 50.]))
  mag = -20. + s * np.arange(n) + (rng.normal(0, .3, n) if i % 4 == 3 else 0)
  if i % 5 == 4:
    # a line with noise that fits leave out: same end values
    mag = -20. - 2. * np.arange(n) + 9 * np.sin(np.arange(n) * 2.5)
  v = mag[-1] if i % 2 else mag[0]
  fr = f + (rng.normal(0, 1, n) if i % 4 == 1 else np.zeros(n))
  if i % 7 == 2:
    fr[rng.integers(n)] += float(rng.choice([-7, 7]))
  return {"kind": "sine" if i % 8 == 7 else "modal", "n": n,
          "freq": fr,
          "mag": mag, "phase": rng.uniform(-3, 3, n), "reverse": bool(i % 2),
          "lo": [None, f, f - 1, f + .5][i // 2 % 4],
          "hi": [None, f, f + 1, f - .5][i // 8 % 4 if i % 3 else 0],
          "threshold": float(v + rng.choice([-10, -1, -.01, .01, 1])),
          "min_len": int(rng.integers(2, 5))}


def track(kind="modal", n=1, freq=None, mag=None, phase=None, reverse=False,
          lo=None, hi=None, threshold=-90., min_len=2, start=0, **_):
  if freq is None or mag is None or n > 200 or n < 1:
    return
  freq, mag, phase = (np.resize(np.asarray(a, dtype=float), n)
                      for a in (freq, mag, np.zeros(1) if phase is None or
                                not len(phase) else phase))
  tr = {"start_frame": np.array(start), "freq": freq, "mag": mag,
        "phase": phase}
  old = {k: np.array(v) for k, v in tr.items()}
  kw = dict(fs=1, h=1, min_sine_dur=min_len)
  if kind == "sine":
    t = sm.SineTracker(**kw)
    assert bool(t.track_ok(tr)) == (n >= max(2, min_len)), \
        f"{n} frames, least {min_len}"
    return
  t = mm.ModalTracker(reverse=reverse, frequency_bounds=(lo, hi),
                      peak_threshold=threshold, **kw)
  r = bool(t.track_ok(tr))
  for k, v in tr.items():
    assert np.array_equal(v, old[k]), "the track is modified"
  ok = n >= max(2, min_len)
  if ok:
    y = mag[::-1] if reverse else mag
    x = np.arange(n) - (n - 1) / 2
    s = np.sum(x * y) / np.sum(x * x)
    q = np.mean(y) - s * (n - 1) / 2
    mf = np.mean(freq)
    scale = 1e-9 * (1 + np.max(np.abs(y)))
    if abs(s) < scale:
      if not np.all(y == y[0]):
        return
    if abs(q - threshold) < scale and not np.all(y == y[0]):
      return
    if any(b is not None and mf != b and abs(mf - b) < 1e-9 * (1 + abs(b))
           for b in (lo, hi)):
      return
    ok = (lo is None or mf >= lo) and (hi is None or mf <= hi) and \
        s <= scale and q >= threshold - scale
  assert r == ok, f"kept: {r}, criteria met: {ok}"


def g_reported(rng, i):
  return {"modal": bool(i % 4), "reverse": bool(i % 2), "fs": 8, "h": 4,
          "strip": None if i % 3 == 0 else float(rng.integers(0, 8)) / 4,
          "seed": i, "frame": int(rng.integers(6, 12)),
          "finished": int(rng.integers(0, 5)), "active": int(
              rng.integers(0, 5))}


def reported(modal=True, reverse=False, fs=8, h=4, strip=None, seed=0,
             frame=10, finished=2, active=2, **_):
  if finished > 50 or active > 50 or finished < 0 or active < 0:
    return
  rng = np.random.default_rng(seed)
  frame = max(frame, 6)
  kw = dict(fs=fs, h=h)
  t = mm.ModalTracker(reverse=reverse, strip_t=strip, **kw) if modal else \
      sm.SineTracker(**kw)
  names = state(t)
  if names is None:
    return

  def make(end, start=None):
    n = int(rng.integers(1, 6))
    return {"start_frame": max(0, end - n), **{
        k: list(rng.uniform(20, 200, min(n, end))) for k in KEYS}}

  fin = [{k: np.array(v) for k, v in make(int(rng.integers(
      1, frame))).items()} for _ in range(finished)]
  act = [make(frame) for _ in range(active)]
  t.tracks_ = list(fin)
  setattr(t, names[0], list(act))
  setattr(t, names[1], frame)
  crit = lambda tr: len(tr["freq"]) % 2 == 0
  t.track_ok = crit
  n = None if strip is None or not modal else frames(strip, fs, h)
  if strip is not None and modal and n is None:
    return
  model = (mm.ModalModel if modal else sm.SinusoidalModel)(tracker=t)
  exp = []
  for tr, ok in itertools.chain(((x, True) for x in fin),
                                ((x, crit(x)) for x in act)):
    o = tr["start_frame"]
    if modal and reverse:
      o = frame - (o + len(tr["mag"]))
    if ok and (n is None or o <= n):
      exp.append(tr)
  for got in (list(t.all_tracks_), model.tracks_):
    assert len(got) == len(exp), f"{len(got)} reported, expected {len(exp)}"
    for a, b in zip(got, exp):
      for k in (*KEYS, "start_frame"):
        assert np.array_equal(a[k], b[k]), "reported tracks or their order"
  assert len(t.tracks_) == finished and len(getattr(t, names[0])) == active, \
      "reporting modifies the tracker"


CASES = {"length": (g_length, length, 60), "track": (g_track, track, 600),
         "reported": (g_reported, reported, 120)}
