"""Concrete contracts of the random beat generator"""
import numpy as np

from battery.util import close, same
from sample import psycho
from sample.evaluation import random as sr

NAMES = ("f_min", "f_max", "f_a", "f_b", "amp_min", "decay_min", "decay",
         "beat_min", "beat_max", "beat_a", "beat_b", "delta_min", "delta_max",
         "delta_a", "delta_b", "snr")


def config(kw, width=True):
  """The configuration, if it is one that the property is about"""
  c = {k: float(kw[k]) for k in NAMES if k in kw}
  g = sr.BeatsGenerator(**c)
  if not all(np.isfinite(v) and abs(v) < 1e6 for v in c.values()):
    return None
  if min(g.f_min, g.beat_min) < 1e-3 or min(
      g.f_a, g.f_b, g.beat_a, g.beat_b, g.delta_a, g.delta_b) < .05 or \
      g.beat_min > g.beat_max or g.decay < g.decay_min or \
      not 0 <= g.delta_min <= g.delta_max or abs(g.snr) > 200 or \
      abs(g.amp_min) > 200:
    return None
  if width:
    B = psycho.hz2bark
    if g.f_max - g.f_min < 2 * g.beat_max or B(
        g.f_min + g.beat_max) + g.delta_max > B(g.f_max) or B(
            g.f_min) + g.delta_max > B(g.f_max - g.beat_max):
      return None
  return c


def g_config(rng, i):
  if i % 7 == 0:
    return {"seed": int(rng.integers(2**31))}
  while True:
    f = float(10**rng.uniform(1, 3))
    fM = f * float(10**rng.uniform(.3, 1.6))
    bM = float(rng.uniform(.1, .5) * (fM - f)) if i % 2 else float(
        rng.uniform(1, 25))
    dm = float(rng.uniform(0, 2))
    c = {"f_min": f, "f_max": fM, "beat_max": bM, "beat_min": float(
        bM * rng.uniform(.05, 1)), "delta_min": dm, "delta_max": float(
            dm + rng.uniform(0, 3)), "decay_min": float(rng.uniform(0, 1)),
         "snr": float(rng.uniform(-60, 90)), "amp_min": float(
             rng.uniform(-60, 0)), "seed": int(rng.integers(2**31))}
    c["decay"] = float(c["decay_min"] + rng.uniform(0, 2))
    for k in ("f", "beat", "delta"):
      for q in "ab":
        c[f"{k}_{q}"] = float(10**rng.uniform(-1, 1))
    if config(c):
      return c


def tol(v):
  return 1e-9 * (1 + abs(v))


def freqs(seed=0, **kw):
  c = config(kw)
  if c is None:
    return
  g = sr.BeatsGenerator(seed=int(seed), **c)
  for f in g.freqs(size=24) + [g.freqs()]:
    assert np.shape(f) == (3,), "three partials"
    assert np.min(f) >= g.f_min - tol(g.f_min), ("below the minimum", f)
    assert np.max(f) <= g.f_max + tol(g.f_max), ("above the maximum", f)
    d = [abs(f[i] - f[j]) for i, j in ((0, 1), (0, 2), (1, 2))]
    assert any(g.beat_min - 1e-7 <= x <= g.beat_max + 1e-7 for x in d), (
        "beat frequency", d)


def decays(seed=0, **kw):
  c = config(kw, False)
  if c is None:
    return
  g = sr.BeatsGenerator(seed=int(seed), **c)
  for d in g.decays(size=10) + [g.decays()]:
    assert np.shape(d) == (3,)
    assert np.min(d) >= g.decay_min, ("below the minimum", d)


def amps(seed=0, **kw):
  c = config(kw, False)
  if c is None:
    return
  for only in (False, True):
    g = sr.BeatsGenerator(seed=int(seed), onlybeat=only, **c)
    close(g.sine_amp + g.noise_amp, 1, "amplitudes sum to one", 1e-9)
    for a in g.amps(size=10) + [g.amps()]:
      assert np.shape(a) == (3,)
      assert np.min(a) >= 0, ("negative amplitude", a)
      close(np.sum(a), g.sine_amp, "sum of the amplitudes", 1e-9)
      assert not only or a[2] == 0, "only the beat"


def twosides(seed=0, a=2., b=2., left=0., right=1., positive=.5, **_):
  a, b = float(a), float(b)
  if not (.05 < a < 1e3 and .05 < b < 1e3) or not left <= right:
    return
  g = sr.BeatsGenerator(seed=int(seed))
  for x in g.beta_twosides(a, b, size=20) + [g.beta_twosides(a, b)]:
    assert -1 <= x <= 1, ("outside of [-1, 1]", x)
  e = 1e-12 * (1 + abs(left) + abs(right))
  for x in g.beta_twosides(a=a, b=b, left=left, right=right, positive=1,
                           size=10):
    assert left - e <= x <= right + e, x
  if left >= 0:
    xs = g.beta_twosides(a=a, b=b, left=left, right=right, positive=positive,
                         size=30)
    assert all(left - e <= abs(x) <= right + e for x in xs), xs


def g_twosides(rng, i):
  l = float(rng.uniform(-2, 2))
  return {"seed": int(rng.integers(2**31)), "a": float(10**rng.uniform(-1, 1)),
          "b": float(10**rng.uniform(-1, 1)), "left": l,
          "right": float(l + rng.uniform(0, 3)),
          "positive": float(rng.uniform(0, 1))}


def repeated(n=3, **_):
  if n > 200:
    return
  calls = []

  @sr._repeated_samples
  def f(x, y=0):
    calls.append((x, y))
    return len(calls)

  assert f(1, y=2) == 1 and calls == [(1, 2)]
  assert f(1, y=2, size=None) == 2
  calls.clear()
  r = f(3, size=n)
  assert list(r) == list(range(1, n + 1)) and calls == [(3, 0)] * n, r


def seed(seed=0, warm=0, **kw):
  c = config(kw, False)
  if c is None:
    return
  for own in (False, True):
    for only in (False, True):
      outs = []
      for _ in range(2):
        g = sr.BeatsGenerator(onlybeat=only, **c, **(
            {"rng": np.random.default_rng(int(seed))} if own else
            {"seed": int(seed)}))
        if warm:
          g.amps(size=2)
          g.noise(5)
        with np.errstate(all="ignore"):
          outs.append(g.audio(dur=.01, fs=8000.))
      (x, f, ps), (y, f2, qs) = outs
      assert f == f2 == 8000.
      for a, b, nm in zip(ps, qs, ("frequencies", "decays", "amplitudes",
                                   "phases")):
        same(a, b, nm)
      same(x, y, "audio")
      assert np.shape(x) == (80,)
  a = sr.BeatsGenerator(seed=int(seed), **c).decays()
  b = sr.BeatsGenerator(seed=int(seed) + 1, **c).decays()
  assert c.get("decay") == c.get("decay_min", 0) or not np.array_equal(a, b), \
      "the seed is ignored"


CASES = {"freqs": (g_config, freqs, 150), "decays": (g_config, decays, 60),
         "amps": (g_config, amps, 60), "twosides": (g_twosides, twosides, 60),
         "repeated": (lambda rng, i: {"n": i}, repeated, 8),
         "seed": (lambda rng, i: {**g_config(rng, i), "warm": i % 2}, seed,
                  20)}
