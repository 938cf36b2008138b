"""Concrete contracts of birth, continuation and end of tracks"""
import numpy as np

from battery.c01 import KEYS, clean, g_frame, run, state
from sample.sms import dsp, mm, sm


def frame(**inp):
  """What one frame does to a tracker in any state"""
  a = clean(**inp)
  if a is None:
    return
  o = run(**a)
  if o is None:
    return
  t, names, old, tracks, active, r, (pf, pm, pp) = o
  assert r is t, "the tracker is not returned"
  ids = [id(x) for x in tracks]
  cont = [j for j, (b, x) in enumerate(zip(old, tracks))
          if len(x["freq"]) > len(b["freq"])]
  end = [j for j in range(len(old)) if j not in cont]
  key = lambda x: (int(x["start_frame"]), *(
      tuple(np.ravel(x[k]).tolist()) for k in KEYS))
  got = sorted(map(key, t.tracks_))
  exp = sorted(key(old[j]) for j in end if len(old[j]["freq"]) > 1)
  assert got == exp, f"stored {got}, ended and accepted {exp}"
  kept = [ids.index(id(x)) for x in active if id(x) in ids]
  assert kept == cont, f"still active {kept}, continued {cont}"
  new = active[len(cont):]
  assert all(id(x) not in ids for x in new), "order of active tracks"
  key = lambda x, j: tuple(x[k][j] for k in KEYS)
  used = [key(tracks[j], -1) for j in cont]
  free = []
  for p in zip(pf, pm, pp):
    if p in used:
      used.remove(p)
    else:
      free.append(p)
  room = max(0, a["max_n_sines"] - len(cont))
  exp = free[:room]
  assert [key(x, 0) for x in new] == exp, \
      f"new tracks {[key(x, 0) for x in new]}, expected {exp}"
  for x in new:
    assert x["start_frame"] == a["frame"], "start frame of a new track"
    assert all(len(x[k]) == 1 for k in KEYS), "a new track has one value"
  assert getattr(t, names[1]) == a["frame"] + 1, "frames are not counted"
  if a["active"] <= a["max_n_sines"]:
    assert len(active) <= a["max_n_sines"], "too many active tracks"


def g_history(rng, i):
  return {"seed": i, "frames": int(rng.integers(1, 12)),
          "max_n_sines": int(rng.integers(1, 6)), "modal": bool(i % 2)}


def history(seed=0, frames=3, max_n_sines=4, modal=False, **_):
  """Invariants of the state after every frame from a reset tracker"""
  rng = np.random.default_rng(seed)
  t = (mm.ModalTracker if modal else sm.SineTracker)(
      max_n_sines=max_n_sines, freq_dev_offset=12, freq_dev_slope=.01,
      min_sine_dur=0)
  names = state(t)
  if names is None:
    return
  if seed % 3 == 0:
    setattr(t, names[0], [{"start_frame": 0, "freq": [1.], "mag": [1.],
                           "phase": [1.]}])
    setattr(t, names[1], 7)
    t.tracks_ = [1]
  assert t.reset() is t, "reset does not return the tracker"
  act = lambda: getattr(t, names[0])
  assert t.tracks_ == [] and act() == [] and getattr(t, names[1]) == 0, \
      "a reset tracker is not empty"
  assert t.n_active_tracks == 0
  for k in range(frames):
    n = int(rng.integers(0, 5))
    t(np.sort(rng.integers(2, 30, n) * 10.), rng.uniform(-60, 0, n),
      rng.uniform(-3, 3, n))
    assert getattr(t, names[1]) == k + 1, "frames are not counted"
    assert len(act()) <= max_n_sines, "too many active tracks"
    assert t.n_active_tracks == len(act())
    for x in act():
      assert len({len(x[q]) for q in KEYS}) == 1, "lengths differ"
      assert x["start_frame"] + len(x["freq"]) == k + 1, \
          "an active track does not end at the last frame"


def g_fit(rng, i):
  return {"reverse": [None, False, True][i % 3], "seed": i,
          "modal": bool(i % 2)}


def fit(reverse=None, seed=0, modal=False, **_):
  rng = np.random.default_rng(seed)
  log = []

  class Tracker(sm.SineTracker):

    def reset(self):
      log.append("reset")
      return super().reset()

    def __call__(self, f, m, p):
      log.append((f.copy(), m.copy(), p.copy()))
      return super().__call__(f, m, p)

  t = Tracker(fs=8000, h=int(rng.integers(20, 60)))
  if reverse is not None:
    t.reverse = reverse
  n = int(rng.integers(150, 400))
  x = np.sin(np.arange(n) * rng.uniform(.2, 2)) * np.exp(
      -np.arange(n) / 200) + rng.normal(0, .01, n)
  x *= rng.uniform(0, 1, n // 50 + 1)[np.arange(n) // 50] > .5
  old = x.copy()
  mod = (mm.ModalModel if modal else sm.SinusoidalModel)(
      w=np.hanning(101), n=128, t=-80, tracker=t, padded=bool(seed % 2))
  assert mod.fit(x) is mod, "the model is not returned"
  assert np.array_equal(x, old), "the sound is modified"
  assert log[0] == "reset" and log.count("reset") == 1, "reset"
  exp = []
  for mx, px in mod.dft_frames(x[::-1].copy() if reverse else x):
    loc, m, p = dsp.peak_detect_interp(mx, px, -80)
    exp.append((loc * 8000 / 128, m, p))
  got = log[1:]
  assert len(got) == len(exp), f"{len(got)} frames given, {len(exp)} analysed"
  for k, (a, b) in enumerate(zip(got, exp)):
    for u, v in zip(a, b):
      assert np.shape(u) == np.shape(v) and np.allclose(u, v), \
          f"frame {k}: {u}, expected {v}"


CASES = {"frame": (g_frame, frame, 400), "history": (g_history, history, 200),
         "fit": (g_fit, fit, 18)}
