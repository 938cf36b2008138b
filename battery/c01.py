"""Concrete contracts of the association of peaks to tracks"""
import numpy as np

from sample.sms import mm, sm

KEYS = ("freq", "mag", "phase")


def state(t):
  """Names of the active tracks and of the frame counter"""
  t.reset()
  ls = [k for k, v in vars(t).items()
        if isinstance(v, list) and not v and k != "tracks_"]
  fs = [k for k, v in vars(t).items() if k not in t.get_params() and
        isinstance(v, int) and not isinstance(v, bool) and v == 0]
  return (ls[0], fs[0]) if len(ls) == 1 and len(fs) == 1 else None


def g_frame(rng, i):
  n, k = int(rng.integers(0, 7)), int(rng.integers(0, 6))
  mk = (lambda m: np.sort(rng.choice(40, m, replace=False)) * 5. + 20) \
      if i % 3 else lambda m: np.sort(rng.uniform(20, 200, m))
  lens = rng.integers(1, 5, k)
  fr = int(max([5, *lens])) + int(rng.integers(0, 3))
  return {"peaks": n, "pfreq": mk(n), "pmag": rng.integers(-30, 0, n) * 1.
          if i % 2 else rng.uniform(-60, 0, n),
          "pphase": rng.uniform(-3, 3, n), "active": k,
          "lens": lens, "last": rng.permutation(mk(k)) if k else np.zeros(0),
          "max_n_sines": int(rng.integers(0, 9)),
          "freq_dev_offset": float(rng.choice([0, 5, 10, 20, 40])),
          "freq_dev_slope": float(rng.choice([0, 0.01, 0.1])), "frame": fr,
          "modal": bool(i % 2), "seed": i}


def greedy(pfreq, pmag, last, tol):
  """All greedy associations {track: peak}: ties either way"""
  import itertools
  order = sorted(range(len(pmag)), key=lambda q: -pmag[q])
  groups = [list(g) for _, g in itertools.groupby(order,
                                                  key=lambda q: pmag[q])]
  res = [{}]
  for g in groups:
    new = []
    for r in res:
      for perm in itertools.permutations(g):
        opts = [dict(r)]
        for q in perm:
          nx = []
          for a in opts:
            free = [j for j in range(len(last)) if j not in a]
            d = {j: abs(last[j] - pfreq[q]) for j in free}
            m = min(d.values(), default=None)
            if m is None or not m < tol(pfreq[q]):
              nx.append(a)
            else:
              nx.extend({**a, j: q} for j in free if d[j] == m)
          opts = nx
        new.extend(opts)
    uniq = []
    for a in new:
      if a not in uniq:
        uniq.append(a)
    res = uniq
  return res


def run(peaks, pfreq, pmag, pphase, active, lens, last, max_n_sines,
        freq_dev_offset, freq_dev_slope, frame, modal, seed):
  """Give one frame to a tracker; what is active before and after"""
  t = (mm.ModalTracker if modal else sm.SineTracker)(
      max_n_sines=max_n_sines, freq_dev_offset=freq_dev_offset,
      freq_dev_slope=freq_dev_slope)
  names = state(t)
  if names is None:
    return None
  rng = np.random.default_rng(seed)
  old = []
  for k in range(active):
    n = int(lens[k])
    d = {"start_frame": frame - n}
    for q in KEYS:
      d[q] = [float(v) for v in rng.uniform(20, 200, n)]
    d["freq"][-1] = float(last[k])
    old.append(d)
  tracks = [{q: list(v) if isinstance(v, list) else v for q, v in d.items()}
            for d in old]
  setattr(t, names[0], list(tracks))
  setattr(t, names[1], frame)
  t.track_ok = lambda track: track["freq"].size > 1
  args = [np.array(a, dtype=float) for a in (pfreq, pmag, pphase)]
  r = t(*[a.copy() for a in args])
  return t, names, old, tracks, getattr(t, names[0]), r, args


def clean(peaks=0, pfreq=(), pmag=(), pphase=(), active=0, lens=None,
          last=None, max_n_sines=100, freq_dev_offset=20., freq_dev_slope=.01,
          frame=5, modal=False, seed=0, **_):
  n = int(peaks)
  pf, pm, pp = (np.resize(np.asarray(a, dtype=float), n) if len(a) else
                np.zeros(n) for a in (pfreq, pmag, pphase))
  k = int(active)
  if k > 6 or n > 7 or k < 0 or n < 0:
    return None
  lens = [1] * k if lens is None or len(lens) != k else lens
  last = np.linspace(20, 120, k) if last is None or len(last) != k else last
  frame = max(int(frame), *lens) if k else max(int(frame), 0)
  if not all(np.all(np.isfinite(a)) for a in (pf, pm, pp, last)):
    return None
  return dict(peaks=n, pfreq=pf, pmag=pm, pphase=pp, active=k, lens=lens,
              last=np.asarray(last, dtype=float), max_n_sines=int(max_n_sines),
              freq_dev_offset=float(freq_dev_offset),
              freq_dev_slope=float(freq_dev_slope), frame=frame,
              modal=bool(modal), seed=int(seed))


def frame(**inp):
  a = clean(**inp)
  if a is None:
    return
  o = run(**a)
  if o is None:
    return
  _, _, old, tracks, _, _, (pf, pm, pp) = o
  got = {}
  for j, (b, t) in enumerate(zip(old, tracks)):
    n = len(b["freq"])
    assert t["start_frame"] == b["start_frame"], "start of a track altered"
    ls = {len(t[q]) for q in KEYS}
    assert len(ls) == 1, f"fields of different lengths {ls}"
    assert ls <= {n, n + 1}, "a track received more than one peak"
    for q in KEYS:
      assert list(t[q][:n]) == b[q], f"earlier values of {q} altered"
    if ls == {n + 1}:
      v = tuple(t[q][n] for q in KEYS)
      ps = [q for q in range(len(pf)) if (pf[q], pm[q], pp[q]) == v]
      assert ps, f"track {j} received {v}, which is no peak of the frame"
      got[j] = ps
  tol = lambda f: a["freq_dev_offset"] + a["freq_dev_slope"] * f
  exp = greedy(pf, pm, a["last"], tol)
  assert any(set(e) == set(got) and all(e[j] in got[j] for j in e)
             for e in exp), f"association {got}, greedy ones are {exp}"


def g_min(rng, i):
  return {"keys": rng.integers(-4, 4, int(rng.integers(0, 8))) * 1.}


def min_key(keys=(), **_):
  keys = [float(k) for k in keys]
  r = sm.min_key(iter(range(len(keys))), lambda j: keys[j])
  if not keys:
    assert tuple(r) == (None, None), f"least of nothing: {r}"
    return
  i, x = r
  assert x == min(keys) and keys[i] == x, f"least of {keys}: {r}"


def g_df(rng, i):
  return {"freq_dev_offset": float(rng.uniform(-5, 30)),
          "freq_dev_slope": float(rng.uniform(-.1, .1)),
          "f": float(rng.uniform(0, 2e4))}


def df(freq_dev_offset=0., freq_dev_slope=0., f=0., **_):
  for c in (sm.SineTracker, mm.ModalTracker):
    r = c(freq_dev_offset=freq_dev_offset, freq_dev_slope=freq_dev_slope).df(f)
    e = freq_dev_offset + freq_dev_slope * f
    assert abs(r - e) <= 1e-9 * (1 + abs(e)), f"tolerance {r}, expected {e}"


CASES = {"frame": (g_frame, frame, 400), "min_key": (g_min, min_key, 60),
         "df": (g_df, df, 20)}
