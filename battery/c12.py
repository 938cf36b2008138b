"""Concrete contracts of additive synthesis"""
import numpy as np

from battery.util import close, same
from sample import sample as sm


def ref(x, f, d, a, ph):
  y = np.zeros(len(x), complex)
  for k in range(len(f)):
    y += a[k] * np.exp(-2 * x / d[k]) * np.exp(
        1j * (2 * np.pi * f[k] * x + ph[k]))
  return y


def _sane(*arrs):
  return all(np.all(np.abs(v) < 1e3) for v in arrs)


def synth(x, f, d, a, ph=None, analytic=None, **_):
  if not _sane(x, f, d, a) or np.any(np.abs(d) < 1e-2) or len(x) < 1 or \
      np.any(x < 0) and np.any(np.abs(d) < .1):
    return
  if ph is not None and not _sane(ph):
    return
  kw = {} if analytic is None else {"analytic": analytic}
  if ph is not None:
    kw["phases"] = ph
  olds = [(v, v.copy()) for v in (x, f, d, a) + (() if ph is None else (ph,))]
  r = sm.additive_synth(x, f, d, a, **kw)
  y = ref(x, f, d, a, np.zeros(len(f)) if ph is None else ph)
  s = max(1.0, float(np.max(np.abs(y), initial=0)))
  y = y if analytic else y.real
  r = np.reshape(r, -1)
  assert np.iscomplexobj(r) == bool(analytic) or not len(f), "complex"
  close(r, y, "sum of partials", 1e-6, 1e-6 * s)
  for v, o in olds:
    same(v, o, "input modified")
  if len(f):
    y2 = sm.additive_synth(x.tolist(), f.tolist(), d.tolist(), a.tolist(),
                           **kw)
    close(np.reshape(y2, -1), y, "lists", 1e-6, 1e-6 * s)


def g(rng, i):
  n = int(rng.integers(0, 6))
  T = int(rng.integers(1, 12))
  return {"x": rng.uniform(0, 1, T), "f": rng.uniform(0, 200, n),
          "d": rng.uniform(.05, 2, n), "a": rng.normal(size=n),
          "ph": rng.uniform(-7, 7, n) if i % 2 else None,
          "analytic": [None, False, True][i % 3]}


def numbers(x, ph=None, f0=1., d0=1., a0=1., f=None, d=None, a=None, **_):
  if not _sane(x, f0, d0, a0) or abs(d0) < 1e-2 or len(x) < 1 or \
      np.any(x < 0) and abs(d0) < .1:
    return
  if ph is not None and not _sane(ph):
    return
  kw = {} if ph is None else {"phases": ph}
  r = sm.additive_synth(x, f0, d0, a0, **kw)
  q = np.zeros(1) if ph is None else np.array([ph])
  y = ref(x, [f0], [d0], [a0], q).real
  close(np.reshape(r, -1), y, "numbers", 1e-6, 1e-6 * max(1, np.max(np.abs(y))))
  r = sm.additive_synth(float(x[0]), f0, d0, a0, **kw)
  close(np.reshape(r, -1), y[:1], "one time", 1e-6,
        1e-6 * max(1, np.max(np.abs(y))))
  if ph is not None:
    v = np.array([f0, 2 * f0])
    r = sm.additive_synth(x, v, [d0] * 2, [a0] * 2, phases=ph)
    y = ref(x, v, [d0] * 2, [a0] * 2, [ph] * 2).real
    close(np.reshape(r, -1), y, "one phase of several modes", 1e-6,
          1e-6 * max(1, np.max(np.abs(y))))


def gn(rng, i):
  return {"x": rng.uniform(0, 1, int(rng.integers(1, 9))),
          "f0": rng.uniform(0, 200), "d0": rng.uniform(.05, 2),
          "a0": rng.normal(), "ph": rng.uniform(-7, 7) if i % 3 else None}


def invalid(x, f, d, a, ph, row, k, v, analytic):
  """A mode that is not a number is in the sum as any other"""
  args = [z.copy() for z in (f, d, a, ph)]
  args[row][k] = v
  with np.errstate(all="ignore"):
    r = sm.additive_synth(x, *args[:3], phases=args[3], analytic=analytic)
    y = ref(x, *args)
  r = np.reshape(r, -1)
  assert np.array_equal(np.isnan(np.real(r)), np.isnan(y.real)), (r, y)
  k = np.isfinite(y.real)
  close(np.real(r)[k], y.real[k], "other values", 1e-6, 1e-6)


def gi(rng, i):
  n = int(rng.integers(1, 5))
  row = i % 4
  return {"x": rng.uniform(0.1, 1, int(rng.integers(1, 9))),
          "f": rng.uniform(0, 200, n), "d": rng.uniform(.05, 2, n),
          "a": rng.normal(size=n), "ph": rng.uniform(-7, 7, n), "row": row,
          "k": int(rng.integers(0, n)), "v": float("inf") if row == 1 and
          i % 3 == 0 else float("nan"), "analytic": bool(i % 2)}


def bad(x=None, f=None, d=None, a=None, **_):
  x, v = np.arange(3.), np.ones(2)
  for s in ("unknown", "", "Random", "rand"):
    try:
      sm.additive_synth(x, v, v, v, phases=s)
    except ValueError:
      continue
    raise AssertionError(f"phases={s!r} accepted")


def random(x, f, d, a, seed=5, **_):
  seed = int(seed) if 0 <= seed < 2**32 else 5
  if not _sane(x, f, d, a) or np.any(np.abs(d) < .1) or np.any(x < 0):
    return
  y = [sm.additive_synth(x, f, d, a, phases="random", seed=seed)
       for _ in range(2)]
  same(y[0], y[1], "seeded phases are not reproducible")
  y = [sm.additive_synth(x, f, d, a, phases="random",
                         rng=np.random.default_rng(8)) for _ in range(2)]
  same(y[0], y[1], "phases from equal generators differ")
  ph = sm._random_phases(50, seed=seed)
  same(ph, sm._random_phases(50, seed=seed))
  assert ph.shape == (50,) and np.all(ph >= 0) and np.all(ph < 2 * np.pi)
  assert np.max(ph) > np.pi and np.min(ph) < np.pi, "full circle"
  ph = np.random.default_rng(8).uniform(0, 2 * np.pi, len(f))
  close(np.reshape(y[0], -1), ref(x, f, d, a, ph).real, "random phases",
        1e-6, 1e-6)


CASES = {"synth": (g, synth, 300), "bad": (lambda r, i: {}, bad, 1),
         "numbers": (gn, numbers, 60), "invalid": (gi, invalid, 120),
         "random": (lambda r, i: {**g(r, i), "seed": i}, random, 20)}
