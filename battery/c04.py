"""Concrete contracts of the merging of finished tracks"""
import numpy as np

from battery.c01 import KEYS, g_min, min_key, state
from sample.sms import mm


def g_merge(rng, i):
  return {"how": ["single", "average"][i % 2], "accept": i % 9 != 8,
          "seed": i, "finished": int(rng.integers(0, 6)),
          "active": int(rng.integers(1, 4)),
          "freq_dev_offset": float(rng.choice([0, 5, 10, 20])),
          "freq_dev_slope": float(rng.choice([0, .01, .1]))}


def merge(how="average", accept=True, seed=0, finished=3, active=1,
          freq_dev_offset=20., freq_dev_slope=.01, **_):
  if not (0 <= finished <= 50 and 1 <= active <= 50):
    return
  rng = np.random.default_rng(seed)
  t = mm.ModalTracker(merge_strategy=how, freq_dev_offset=freq_dev_offset,
                      freq_dev_slope=freq_dev_slope)
  names = state(t)
  if names is None:
    return
  t.track_ok = lambda tr: accept
  grid = lambda n: 100. + 5 * rng.integers(0, 9, n) + (
      rng.normal(0, 2, n) if seed % 3 else 0)

  def track(start, n, gaps):
    d = {"start_frame": start, "freq": grid(n), "mag": rng.uniform(-60, 0, n),
         "phase": rng.uniform(-3, 3, n)}
    if gaps and n > 2:
      g = np.flatnonzero(rng.random(n - 2) < .4) + 1
      for k in KEYS:
        d[k][g] = np.nan
    return d

  fin = [{k: np.array(v) for k, v in track(
      int(rng.integers(0, 9)), int(rng.integers(1, 6)), True).items()}
         for _ in range(finished)]
  act = [{k: v if k == "start_frame" else list(v) for k, v in track(
      int(rng.integers(5, 14)), int(rng.integers(1, 5)), False).items()}
         for _ in range(active)]
  i = int(rng.integers(0, active))
  new = {k: np.array(v) for k, v in act[i].items()}
  old = [{k: v.copy() for k, v in u.items()} for u in fin]
  stored = list(fin)
  t.tracks_ = stored
  left = [id(a) for j, a in enumerate(act) if j != i]
  setattr(t, names[0], act)
  r = t.deactivate(i)
  same = lambda a, b: set(a) == set(b) and all(
      np.shape(a[k]) == np.shape(b[k]) and np.array_equal(
          a[k], b[k], equal_nan=True) for k in b)
  assert same(r, new), "the track that ended"
  assert [id(a) for a in getattr(t, names[0])] == left, "active tracks"
  got = t.tracks_
  mean = lambda a: np.mean(a[~np.isnan(a)])
  diff = [
      abs(u["freq"][-1] - new["freq"][0]) if how == "single" else
      abs(mean(u["freq"]) - mean(new["freq"])) for u in old
  ]
  tol = freq_dev_offset + freq_dev_slope * new["freq"][0]
  comp = [k for k, u in enumerate(old)
          if u["start_frame"] + len(u["freq"]) < new["start_frame"]]
  m = min((diff[k] for k in comp), default=None)
  if m is not None and m != tol and abs(m - tol) < 1e-9 * (1 + tol):
    return
  near = [k for k in comp if diff[k] <= m + 1e-9]
  if accept and m is not None and m < tol:
    exps = []
    for k in near:
      u = dict(old[k])
      pad = [np.nan] * int(new["start_frame"] - u["start_frame"] -
                           len(u["freq"]))
      for q in KEYS:
        u[q] = np.array([*u[q], *pad, *new[q]])
      exps.append(old[:k] + [u] + old[k + 1:])
  else:
    exps = [old + [new] * bool(accept)]
  assert any(len(got) == len(e) and all(map(same, got, e)) for e in exps), \
      f"finished tracks {got}, before {old}, ended {new}, accepted {accept}"


def g_strategy(rng, i):
  return {"a": rng.uniform(20, 200, int(rng.integers(1, 5))),
          "b": rng.uniform(20, 200, int(rng.integers(1, 5)))}


def strategy(a=None, b=None, **_):
  if a is None or b is None or not len(a) or not len(b):
    return
  t = mm.ModalTracker(merge_strategy="other")
  try:
    t.freq_diff_function  # pylint: disable=W0104
  except KeyError:
    pass
  else:
    raise AssertionError("an unknown strategy is accepted")
  f = lambda how, x, y: mm.ModalTracker(merge_strategy=how).freq_diff_function(
      {"freq": x}, {"freq": y})
  assert np.isclose(f("single", a, b), abs(a[-1] - b[0])), "single"
  x = np.array([a[0], np.nan, *a])
  assert np.isclose(f("average", x, b), abs(np.mean([a[0], *a]) - np.mean(b))), \
      "average"


CASES = {"merge": (g_merge, merge, 600), "strategy": (g_strategy, strategy, 20),
         "min_key": (g_min, min_key, 40)}
