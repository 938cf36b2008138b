"""Concrete contracts of mode selection and export"""
from unittest import mock

import numpy as np

from battery.util import close, out_rules, same
from sample import sample as sm
from sample.beatsdrop import sample as bs


def energy(a, d, **_):
  a, d = float(a), float(d)
  r = sm.modal_energy(a, d)
  assert not isinstance(r, np.ndarray), "scalar"
  close(r, d * a * a / 4, "energy")


def energies(a, d, out, **_):
  oa, od = a.copy(), d.copy()
  o = {"self": a, "other": np.full(a.shape, 3.0)}.get(out)
  r = sm.modal_energy(a, d, **({} if o is None else {"out": o}))
  close(r, od * oa**2 / 4, "energy")
  if o is not None:
    close(o, r, "output array")
  if out != "self":
    same(a, oa)
  same(d, od)


def g_en(rng, i):
  n = int(rng.integers(0, 7))
  return {"a": rng.normal(size=n), "d": rng.uniform(0, 2, n),
          "out": ["none", "self", "other"][i % 3]}


def model(P, lim=None):
  C = sm.SAMPLE if len(P) == 3 else bs.SAMPLEBeatsDROP
  m = C(max_n_modes=lim)
  m.param_matrix_ = P.copy()
  return m


def feat(P, o):
  return {"energies": P[1] * P[2]**2 / 4, "freqs": P[0], "decays": P[1],
          "amps": P[2]}[o]


def argsort(P, order, reverse, **_):
  m = model(P)
  g = list(m.mode_argsort_(order, reverse))
  assert sorted(g) == list(range(P.shape[1])), "not a permutation"
  f = feat(P, order)[g] if g else np.empty(0)
  tol = 1e-12 * (np.max(np.abs(f)) if len(f) else 0)
  d = np.diff(f)
  assert np.all((-d if reverse else d) >= -tol), f"not sorted by {order}"
  same(m.param_matrix_, P)
  if order == "energies" and reverse:
    assert list(m.mode_argsort_()) == g, "defaults"
  assert list(m.mode_argsort_(order=order, reverse=reverse)) == g


def sdt(P, lim=None, kw=None, **_):
  m = model(P, lim)
  kw = kw or {}
  n = P.shape[1]
  g = list(m.mode_argsort_(**kw))
  r = m.sdt_params_(**kw)
  assert r["nModes"] == n and r["nPickups"] == 1, "counts"
  assert r["activeModes"] == (n if lim is None else min(n, lim)), "active"
  for k, v in (("freqs", P[0]), ("decays", P[1])):
    assert list(r[k]) == v[g].tolist() if n else list(r[k]) == [], k
  assert len(r["gains"]) == 1
  assert list(r["gains"][0]) == (P[2][g].tolist() if n else []), "gains"
  w = np.array(r["weights"])
  assert w.shape == (n,), "weights"
  if n:
    close(w, np.full(n, w[0]), "equal weights")
    close(np.sum(w), 1.0, "weights sum to one")
  import json
  json.dumps(r)


def predict(P, lim=None, cnt=None, ph=None, **_):
  m = model(P, lim)
  got = {}

  def syn(x, freqs, decays, amps, phases=None, analytic=False, **kw):
    got.update(x=x, freqs=freqs, decays=decays, amps=amps, phases=phases,
               analytic=analytic, kw=kw)
    return "out"

  t = np.arange(3.)
  kw = {} if cnt is None else {"n_modes": cnt}
  if ph is not None:
    kw["phases"] = ph
  for o, rev in ((None, None), ("amps", True), ("decays", False)):
    ok = {} if o is None else {"order": o, "reverse": rev}
    g = list(m.mode_argsort_(**ok))
    n = cnt if cnt is not None else (P.shape[1] if lim is None else lim)
    g = np.array(g[:n], dtype=int)
    with mock.patch.object(sm, "additive_synth", syn):
      assert m.predict(t, analytic=True, **kw, **ok) == "out"
    assert got["x"] is t and got["analytic"] is True
    for j, nm in enumerate(("freqs", "decays", "amps")):
      same(got[nm], P[j][g], nm)
    if ph is not None:
      same(got["phases"], ph[g], "phases")
    elif len(P) == 4:
      same(got["phases"], P[3][g], "learned phases")
    else:
      assert got["phases"] is None
  if ph is None:
    with mock.patch.object(sm, "additive_synth", syn):
      m.predict(t, phases="random", seed=3)
    assert got["phases"] == "random" and got["kw"] == {"seed": 3}


def g_P(rng, i):
  n = i if i < 3 else int(rng.integers(0, 7))
  P = rng.uniform(.1, 3, (3 + i % 2, n))
  if n > 2 and i % 5 == 0:
    P[:, 1] = P[:, 0]
  d = {"P": P, "order": ["energies", "freqs", "amps", "decays"][i % 4],
       "reverse": bool((i // 4) % 2), "kw": [{}, {"order": "freqs", "reverse":
                                                 False}][i % 2],
       "lim": None if i % 3 == 0 else int(rng.integers(0, 9)),
       "cnt": None if i % 4 < 2 else int(rng.integers(0, 9)),
       "ph": None if i % 7 < 4 else rng.uniform(0, 6, n)}
  return d


CASES = {"energy": (lambda r, i: {"a": float(r.normal()), "d": float(
    r.uniform(0, 3))}, energy, 30), "energies": (g_en, energies, 60),
         "argsort": (g_P, argsort, 150), "sdt": (g_P, sdt, 150),
         "predict": (g_P, predict, 150)}
