"""C22: beat decisions"""
import warnings
from unittest import mock

import numpy as np

from battery.util import close, same
from sample import sample as ss
from sample.beatsdrop import decision as m
from sample.beatsdrop import sample as bs
from sample.beatsdrop import ModalBeat

warnings.simplefilter("ignore")
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")
EPS = 2.0**-52


class Regression:

  def __init__(self, x):
    self.x, self.fits = x, []

  def fit(self, t, a, f):
    self.fits.append((t, a, f))
    self.params_ = self.x
    return self


def octuple(rng, i=0):
  x = rng.normal(0, 1, 8)
  if i % 3 == 1:
    x[:4] *= 10.0 ** rng.integers(-18, 1, 4)
  if i % 3 == 2:
    x[3] = x[2] + EPS * float(rng.normal(0, 2))
  if i % 7 == 3:
    x[int(rng.integers(4))] = [0, np.nan, np.inf][i % 3]
  if i % 11 == 5:
    x[0] = EPS * [1, -1, 2, -2, .5][i % 5]
  return {k: float(v) for k, v in zip(NAMES, x)}


def two(x):
  a0, a1, f0, f1, d0, d1, p0, p1 = x
  return [(f0, d0, a0, p0), (f1, d1, a1, p1)]


def modes(r, want, msg):
  assert len(r) == len(want), f"{msg}: {len(r)} modes"
  for g, e in zip(r, want):
    assert len(g) == 4, f"{msg}: mode {g}"
    close([float(v) for v in g], [float(v) for v in e], msg, rtol=0, atol=0)


def gen_output(rng, i):
  return dict(octuple(rng), f=1.5, d=2.5, a=float(rng.normal()))


def check_output(f=1., d=2., a=3., **q):
  x = [q.get(k, 0.0) for k in NAMES]
  for c in (m.BeatDecisor, m.AlmostNotABeatDecisor):
    modes(c().output_beat_params(x), two(x), "beat")
    modes(c().output_beat_params(np.array(x)), two(x), "beat")
    modes(c().output_params((f, d, a)), [(f, d, a, 0)], "single")


def gen_decide(rng, i):
  return dict(octuple(rng, i), th=[1., 1., 1e10, 0., -1., 1e15][i % 6],
              i=int(rng.integers(0, 5)), save=bool(i % 2))


def check_decide(th=1.0, i=0, save=True, **q):
  if any(k not in q for k in NAMES[:4]) or i > 1000 or i < 0:
    return
  x = np.array([q.get(k, 0.0) for k in NAMES])
  reg = Regression(x)
  reg.params_ = x
  d = m.AlmostNotABeatDecisor(th=th, intermediate__save=save)
  r = d.decide_beat(i, None, None, reg, None)
  v = np.abs([x[2] - x[3], x[0], x[1]])
  want = all(e > th * EPS for e in v)
  assert bool(r) == want, f"decision {r} for {x[:4]}, threshold {th}"
  if save:
    close(d.intermediate["test"][i], v, "stored test")
    assert len(d.intermediate["test"]) == i + 1, "storage index"
  else:
    assert not d.intermediate.get_state(), "stored without asking"
  if th == 1.0:
    assert bool(m.AlmostNotABeatDecisor().decide_beat(
        i, None, None, reg, None)) == want, "default threshold"
  assert not m.BeatDecisor().decide_beat(i, None, None, reg, None), \
      "the base decision is a beat"


def gen_track(rng, i):
  return dict(octuple(rng, i), decision=bool(rng.integers(2)), i=i % 4,
              fit=bool(i % 2), save=bool(i % 3), f=1., d=2., a=3.,
              cls=["decided", "BeatDecisor", "AlmostNotABeatDecisor"][i % 3])


def check_track(decision=False, i=0, fit=True, save=True, f=1., d=2., a=3.,
                cls="decided", **q):
  x = [q.get(k, 0.0) for k in NAMES]
  i = min(max(int(i), 0), 50)
  seen = []

  class Decided(m.BeatDecisor):

    def decide_beat(self, i, t, track, beatsdrop, params):
      seen.append(dict(i=i, t=t, track=track, beatsdrop=beatsdrop,
                       params=params))
      return decision

  c = Decided if cls == "decided" else getattr(m, cls)
  t = np.arange(4.)
  tr = dict(mag=np.arange(4.) - 9, freq=np.full(4, 99.), start_frame=2)
  reg = Regression(x)
  if not fit:
    reg.params_ = x
  de = c(intermediate__save=save)
  r = de.track_params(i, t, tr, reg, (f, d, a), **(dict(fit=True) if fit else
                                                   {}))
  if cls == "decided":
    beat = decision
    assert len(seen) == 1 and seen[0]["track"] is tr and \
        seen[0]["beatsdrop"] is reg and seen[0]["t"] is t and \
        seen[0]["i"] == i, "what is decided"
  else:
    beat = cls != "BeatDecisor" and all(
        abs(v) > EPS for v in (x[0], x[1], x[2] - x[3]))
  modes(r, two(x) if beat else [(f, d, a, 0)], "modes")
  if fit:
    assert len(reg.fits) == 1, "fits"
    u = reg.fits[0]
    assert u[0] is t and u[1] is tr["mag"] and u[2] is tr["freq"], \
        "what the beat is fitted to"
  else:
    assert not reg.fits, "fitted again"
  if save:
    assert bool(de.intermediate["decision"][i]) == beat, "stored decision"
  else:
    assert not de.intermediate.get_state(), "stored without asking"


def gen_phases(rng, i):
  n = int(rng.integers(1, 6))
  P = rng.uniform(.1, 1, (4, n))
  P[0] *= 1000
  return dict(P=P, given=bool(i % 3 == 1), n_modes=None if i % 2 else 2)


def check_phases(P=None, given=False, n_modes=None, **_):
  P = np.asarray(P, float) if P is not None else np.ones((4, 2))
  if P.ndim != 2 or P.shape[0] != 4 or not P.shape[1] or P.shape[1] > 9 or \
      np.any(P[:3] <= 0):
    return
  mod = bs.SAMPLEBeatsDROP()
  mod.param_matrix_ = np.copy(P)
  t = np.arange(50) / 1000
  e = P[2]**2 * P[1]
  o = np.argsort(e)[::-1][:n_modes]
  ph = np.linspace(1, 2, P.shape[1]) if given else P[3]
  y = mod.predict(t, n_modes=n_modes, **(dict(phases=ph) if given else {}))
  want = sum(P[2, j] * np.exp(-2 * t / P[1, j]) * np.cos(
      2 * np.pi * P[0, j] * t + ph[j]) for j in o)
  ref = ss.additive_synth(t, P[0, o], P[1, o], P[2, o], phases=ph[o])
  close(y, ref, "resynthesis with the phases")
  same(mod.param_matrix_, P)
  del want


def gen_model(rng, i):
  return dict(fs=float(rng.uniform(10, 1000)), i=i % 5)


def check_model(fs=100.0, i=0, **_):
  if not isinstance(i, int):
    i = 0
  seen = []

  class Decisor(m.BeatDecisor):

    def track_params(self, i, t, track, beatsdrop, params, fit=False):
      seen.append(dict(i=i, t=t, track=track, beatsdrop=beatsdrop,
                       params=params, fit=fit))
      return (("modes",),)

  mod = bs.SAMPLEBeatsDROP(beat_decisor=Decisor(), beatsdrop__lpf=12.5)
  mod.sinusoidal.tracker.fs = fs
  own = mod.beatsdrop
  before = own.get_params()
  t, tr = np.arange(3.), dict(mag=np.zeros(3), freq=np.ones(3))
  lin = (1., 2., 3.)
  with mock.patch.object(ss.SAMPLE, "_fit_track",
                         lambda s, i, t, track: (lin,)):
    r = mod._fit_track(i, t, tr)
    s = mod._fit_track(i, t, tr)
  assert r == (("modes",),) == s and len(seen) == 2, "decided modes"
  for k in seen:
    assert k["i"] == i and k["t"] is t and k["track"] is tr, "track"
    assert k["params"] is lin and k["fit"] is True, "single partial"
    b = k["beatsdrop"]
    assert type(b) is type(own) and b is not own, "own regression"
    assert b.fs == fs and b.lpf == 12.5, "regression parameters"
  assert seen[0]["beatsdrop"] is not seen[1]["beatsdrop"], "shared regression"
  assert own is mod.beatsdrop and not hasattr(own, "params_"), "fitted model"
  after = own.get_params()
  assert all(before[k] is after[k] or before[k] == after[k] for k in before), \
      "parameters of the model"


def gen_whole(rng, i):
  return dict(fb=float(rng.uniform(4, 7)), f=float(rng.uniform(300, 800)),
              base=bool(i % 2))


def check_whole(fb, f, base):
  fs = 11025
  t = np.arange(fs) / fs
  x = ModalBeat(.5, .4, f, f + fb, .5, .6).compute(t, ("x",))[0]
  x = x + .3 * np.exp(-2 * t / .4) * np.cos(2 * np.pi * 2.3 * f * t)
  rng = np.random.default_rng(int(f))
  x = x + 1e-5 * rng.normal(size=x.size)
  kw = dict(sinusoidal__tracker__max_n_sines=8,
            sinusoidal__tracker__reverse=True, sinusoidal__t=-90,
            sinusoidal__tracker__peak_threshold=-45, sinusoidal__padded=True,
            sinusoidal__tracker__fs=fs)
  lin = ss.SAMPLE(**kw).fit(x)
  if base:
    kw["beat_decisor"] = m.BeatDecisor()
  mod = bs.SAMPLEBeatsDROP(beat_decisor__intermediate__save=True, **kw).fit(x)
  dec = [bool(d) for d in mod.beat_decisor.intermediate["decision"]]
  n = len(mod.sinusoidal.tracks_)
  assert n and len(dec) == n, f"{len(dec)} decisions for {n} tracks"
  if base:
    assert not any(dec), "a beat"
    close(mod.param_matrix_[:3], lin.param_matrix_, "linear modes")
    assert not np.any(mod.phases_), "phases of single partials"
    return
  test = mod.beat_decisor.intermediate["test"]
  k = 0
  for j, d in enumerate(dec):
    assert d == all(v > EPS for v in test[j]), "decision and test"
    if d:
      q = mod.param_matrix_[:, k:k + 2]
      close(np.abs([q[0, 0] - q[0, 1], q[2, 0], q[2, 1]]), test[j],
            "modes of the beat")
      k += 2
    else:
      close(mod.param_matrix_[:3, k], lin.param_matrix_[:, j], "single mode")
      assert mod.phases_[k] == 0, "phase of a single partial"
      k += 1
  assert k == mod.param_matrix_.shape[1], "number of modes"


CASES = {
    "output": (gen_output, check_output, 40),
    "decide": (gen_decide, check_decide, 300),
    "track": (gen_track, check_track, 200),
    "phases": (gen_phases, check_phases, 60),
    "model": (gen_model, check_model, 20),
    "whole": (gen_whole, check_whole, 2),
}
