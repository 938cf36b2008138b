"""Concrete contracts of the beat model"""
import numpy as np

from battery.util import close, out_rules
from sample import beatsdrop as bd


class Curve:
  """Amplitude with derivative; optionally accepts an output array"""

  def __init__(self, c, w, out):
    self.c, self.w = c, w
    if out:
      self.call = lambda t, out=None: np.multiply(
          self.c, np.cos(self.w * np.asarray(t)) + 1.5, out=out)
      self.dt = lambda t, out=None: np.multiply(
          -self.c * self.w, np.sin(self.w * np.asarray(t)), out=out)
    else:
      self.call = lambda t: self.c * (np.cos(self.w * np.asarray(t)) + 1.5)
      self.dt = lambda t: -self.c * self.w * np.sin(self.w * np.asarray(t))

  def __call__(self, *a, **k):
    return self.call(*a, **k)


def gen(rng, i):
  return {"f0": float(rng.uniform(-3, 5)), "f1": float(rng.uniform(-3, 5)),
          "p0": float(rng.normal() * 3), "p1": float(rng.normal() * 3),
          "a0": float(rng.normal()), "a1": float(rng.normal()),
          "kind": [["constant", "with out", "without out"][(i // 3) % 3],
                   ["constant", "with out", "without out"][i % 3]],
          "t": rng.normal(size=[3, 1, 0][i % 3]) if i % 4 else
          float(rng.normal())}


def setup(f0, f1, p0, p1, kind, a0=1.3, a1=-.7):
  amps, val, der = [], [], []
  for j, (k, a) in enumerate(zip(kind, (a0, a1))):
    if k == "constant":
      amps.append(a)
      val.append(lambda t, a=a: a + 0 * np.asarray(t))
      der.append(lambda t: 0 * np.asarray(t, dtype=float))
    else:
      c = Curve(a, 1.7 - j, k == "with out")
      amps.append(c)
      val.append(c)
      der.append(lambda t, c=c: c.dt(t))
  return bd.Beat(a0=amps[0], a1=amps[1], f0=f0, f1=f1, p0=p0,
                 p1=p1), val, der


def big(*v):
  return any(np.size(x) and np.max(np.abs(x)) > 1e3 for x in v)


def beat(f0, f1, p0, p1, kind, t, a0=1.3, a1=-.7, **_):
  t = np.asarray(t, dtype=float) if np.ndim(t) else float(t)
  if big(f0, f1, p0, p1, t, a0, a1):
    return
  b, val, der = setup(f0, f1, p0, p1, kind, a0, a1)
  am, fm = b.compute(t, ["am", "fm"])
  al = b.alpha2(t)
  A, D = [v(t) for v in val], [v(t) for v in der]
  ph = [2 * np.pi * f * t + p for f, p in ((f0, p0), (f1, p1))]
  z = sum(a * np.exp(1j * q) for a, q in zip(A, ph))
  dz = sum((d + 2j * np.pi * f * a) * np.exp(1j * q)
           for a, d, q, f in zip(A, D, ph, (f0, f1)))
  close(np.square(am), A[0]**2 + A[1]**2 + 2 * A[0] * A[1] * np.cos(
      2 * np.pi * (f0 - f1) * t + p0 - p1), "squared modulation", 1e-6, 1e-6)
  close(am, 2 * np.sqrt(np.maximum(al, 0)), "am", 1e-6, 1e-6)
  ok = np.abs(z) > 1e-2
  with np.errstate(all="ignore"):
    w = np.imag(dz / z)
  assert np.shape(fm) == np.shape(w), "one frequency per time"
  close(np.where(ok, fm, 0), np.where(ok, w, 0), "angular frequency", 1e-5,
        1e-5)


def g_signal(rng, i):
  d = gen(rng, i)
  d["t"] = np.sort(rng.uniform(0, 2, int(rng.integers(1, 7))))
  d["t"][0] = 0
  return d


def signal(f0, f1, p0, p1, t, kind=("with out", "with out"), a0=1.3, a1=-.7,
           **_):
  t = np.asarray(t, dtype=float)
  if big(f0, f1, p0, p1, t):
    return
  b, val, _ = setup(f0, f1, p0, p1, kind, a0, a1)
  x, am, pm, fm = b.compute(t, ["x", "am", "pm", "fm"])
  close(x, am * np.cos(pm), "signal")
  close(np.diff(pm), np.diff(t) * (fm[1:] + fm[:-1]) / 2, "phase", 1e-6, 1e-6)
  z = val[0](0.) * np.exp(1j * p0) + val[1](0.) * np.exp(1j * p1)
  if abs(z) > 1e-3:
    close(np.exp(1j * pm[0]), z / abs(z), "initial phase")


def decay(a, d, x, dt=False, out="none", **_):
  if d == 0 or big(np.divide(x, d)):
    return
  e = bd.ExponentialDecay(a, d)
  f = e.dt if dt else e
  out_rules(f, x, out, "exponential decay")
  if out == "none":
    v = a * np.exp(-2 * np.asarray(x) / d)
    close(f(x), -2 / d * v if dt else v, "value", 1e-9, 1e-12)


def g_decay(rng, i):
  out = ["none", "other", "self"][i % 3]
  x = rng.normal(size=[(), (4,), (0,), (2, 3)][(i // 3) % 4])
  if out == "none" and i % 2:
    x = np.round(x).astype(int)
  return {"a": float(rng.normal()), "d": float(rng.normal() + 3), "dt": bool(
      rng.random() < .5), "out": out, "x": x if x.ndim else x[()].item()}


def modal(t, **v):
  ks = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")
  if any(k not in v for k in ks) or v["d0"] == 0 or v["d1"] == 0 or big(
      t / v["d0"], t / v["d1"]):
    return
  v = {k: v[k] for k in ks}
  for b in (bd.ModalBeat(**v), bd.ModalBeat(*v.values())):
    for j in "01":
      a = v["a" + j] * np.exp(-2 * t / v["d" + j])
      close(getattr(b, "a" + j)(t), a, "amplitude")
      close(getattr(b, f"da{j}_dt")(t), -2 / v["d" + j] * a, "derivative")
      close(getattr(b, "f" + j)(t), v["f" + j], "frequency")
      close(getattr(b, "p" + j)(t), v["p" + j], "phase")


def g_modal(rng, i):
  return {"t": float(rng.normal()), **{
      f"{k}{j}": float(rng.uniform(.5, 3)) for k in "afdp" for j in (0, 1)}}


CASES = {"beat": (gen, beat, 300), "signal": (g_signal, signal, 60),
         "decay": (g_decay, decay, 150), "modal": (g_modal, modal, 60)}
