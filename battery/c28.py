"""C28: remapping of hyper-parameters and assignment of optimised values"""
import numpy as np
from sample import optimize
from scipy import signal
from sklearn import base


def gen_remap(rng, i):
  if i < 5:
    return {"log_n": i}
  if i < 10:
    return {"log_n": 4, "nw": i - 4, "overlap": (0., .5, .9)[i % 3]}
  d = {}
  if rng.random() < 0.5:
    d["log_n"] = int(rng.integers(4, 13))
  if rng.random() < 0.3:
    d["n"] = int(rng.integers(16, 3000))
  if rng.random() < 0.5:
    d["wtype"] = ["hamming", "blackman", "hann", "boxcar"][int(rng.integers(4))]
  if rng.random() < 0.6:
    d["wsize"] = float(rng.uniform(0.1, 1))
  if rng.random() < 0.3:
    d["nw"] = int(rng.integers(1, 300))
  if rng.random() < 0.3:
    d["h"] = int(rng.integers(1, 300))
  if rng.random() < 0.6:
    d["overlap"] = float(rng.choice([0, 0.5, 0.75, 0.999, 1, -0.5,
                                     rng.uniform(0, 1)]))
  d["others"] = bool(rng.integers(2))
  return d


def remap(log_n=None, n=None, wtype=None, wsize=None, w=None, nw=None, h=None,
          overlap=None, others=True, **_):
  if log_n is not None and not 0 <= log_n <= 20 or n is not None and not \
      0 < n < 10**6 or wsize is not None and not 0 < wsize <= 1 or \
      overlap is not None and overlap > 1:
    return
  if isinstance(wtype, str) is False:
    wtype = None
  kw = {}
  for k, v in (("log_n", log_n), ("n", n), ("wtype", wtype), ("wsize", wsize),
               ("tracker__h", h), ("overlap", overlap)):
    if v is not None:
      kw["sinusoidal__" + k] = v
  if w is not None or nw is not None:
    kw["sinusoidal__w"] = np.hamming(nw) if nw is not None else np.ravel(w)
    if kw["sinusoidal__w"].size < 1:
      return
  if others:
    kw.update(max_n_modes=object(), regressor_k="abc", sinusoidal__t=-77.5,
              sinusoidal__tracker__fs=12345, sinusoidal__padded=object())
  n_ = n if n is not None else 2**log_n if log_n is not None else 2048
  size = int(n_ * (1 if wsize is None else wsize))
  if "sinusoidal__w" not in kw and size < 1:
    return
  kept = dict(kw)
  r = optimize.sample_kwargs_remapper(**kw)
  exp = {k for k in kept if k.split("__")[-1] not in (
      "log_n", "wtype", "wsize", "overlap")}
  for k in exp:
    assert r[k] is kept[k], f"{k} altered"
  if log_n is not None and n is None:
    exp.add("sinusoidal__n")
    assert r["sinusoidal__n"] == 2**log_n, f"FFT size {r['sinusoidal__n']}"
  exp |= {"sinusoidal__w", "sinusoidal__tracker__h"}
  assert set(r) == exp, f"arguments {set(r) ^ exp}"
  win = r["sinusoidal__w"]
  if "sinusoidal__w" not in kept:
    assert win.shape == (size,), f"window size {win.shape} {size}"
    ref = signal.get_window(wtype or "hamming", size)
    ref2 = signal.get_window(wtype or "hamming", size, fftbins=False)
    assert np.allclose(win, ref) or np.allclose(win, ref2), "window type"
  if h is None:
    hop = r["sinusoidal__tracker__h"]
    assert hop == int(hop) and 1 <= hop <= max(1, np.size(win)), f"hop {hop}"
    t = (1 - (0.5 if overlap is None else overlap)) * np.size(win)
    t = max(1, min(t, np.size(win)))
    assert abs(hop - t) < 1 + 1e-9, f"hop {hop} for {t}"


def gen_assign(rng, i):
  return {"ndims": int(rng.integers(1, 6)), "na": int(rng.integers(0, 7)),
          "bits": int(rng.integers(8))}


def assign(ndims=3, na=3, bits=7, **_):
  dims = {f"z{9 - i}": object() for i in range(ndims)}
  rm = (lambda **k: {f"new_{n}": v for n, v in k.items()}) if bits & 1 else None
  pre = "new_" if bits & 1 else ""
  so = optimize.SAMPLEOptimizer(remap=rm, **dims)
  assert list(so.dimensions.items()) == list(dims.items()), "dimensions"
  vals = [object() for _ in range(na)]
  extra = {"a": object()} if bits & 2 else {}
  if bits & 4:
    extra["zz"] = object()
  if na != ndims:
    try:
      so._kwargs(*vals, **extra)
    except ValueError:
      return
    assert False, "wrong number of values accepted"
  r = so._kwargs(*vals, **extra)
  exp = {pre + k: v for k, v in {**dict(zip(dims, vals)), **extra}.items()}
  assert set(r) == set(exp) and all(r[k] is exp[k] for k in exp), \
      f"arguments {r}"


MODELS = []


class Model(base.BaseEstimator):

  def __init__(self, fixed="fixed", sinusoidal__tracker__fs="old", k=0):
    self.params = {"fixed": fixed,
                   "sinusoidal__tracker__fs": sinusoidal__tracker__fs}
    self.fits, self.at = [], []
    self.k = k
    MODELS.append(self)

  def get_params(self, deep=True):
    return dict(self.params)

  def set_params(self, **kw):
    self.params.update(kw)
    return self

  def fit(self, x, **k):
    self.fits.append((x, k))
    return self

  def predict(self, t, **k):
    self.at.append(t)
    return 3 * np.cos(np.arange(np.size(t)))


def gen_optimise(rng, i):
  return {"ndims": int(rng.integers(1, 5)), "bits": int(rng.integers(64))}


def optimise(ndims=2, bits=None, **_):
  if bits is None:
    for b in range(0, 64, 5):
      optimise(3, b)
    return
  x, fs = np.sin(np.arange(50) * 1.3), 100.
  x[7] = -1.7  # the peak
  dims = {f"z{9 - i}": object() for i in range(ndims)}
  calls = []

  def loss_fn(a, b, **k):
    calls.append((a, np.array(b), k))
    return 1.25

  pre = "new_" if bits & 1 else ""
  rm = (lambda **k: {f"new_{n}": v for n, v in k.items()}) if bits & 1 else None
  lk = {"extra": object()} if bits & 2 else None
  MODELS.clear()
  model = Model()
  so = optimize.SAMPLEOptimizer(model, loss_fn=loss_fn, loss_kw=lk, remap=rm,
                                clip=bool(bits & 4), **dims)
  best = [object() for _ in range(ndims)]
  seen = []

  def point(mdl, vals, what):
    exp = {pre + k: v for k, v in zip(dims, vals)}
    exp[pre + "sinusoidal__tracker__fs"] = fs
    exp["fixed"] = "fixed"
    if pre:
      exp["sinusoidal__tracker__fs"] = "old"
    got = mdl.params
    assert set(got) == set(exp) and all(
        got[k] == exp[k] for k in exp), f"{what}: {got} instead of {exp}"
    assert len(mdl.fits) == 1 and mdl.fits[0][0] is x, "fit to the audio"

  class Res:
    pass

  def fake(f, dimensions, **k):
    seen.append((list(dimensions), k))
    for _ in range(2):
      vals = [object() for _ in range(ndims)]
      assert f(tuple(vals)) == 1.25
      mdl = MODELS[-1]
      point(mdl, vals, "evaluated point")
      a, b, kk = calls[-1]
      assert a is x and kk == (lk or {})
      assert np.allclose(mdl.at[0], np.arange(50) / fs)
      y = 3 * np.cos(np.arange(50))
      if bits & 4:
        y = np.clip(y, -np.max(np.abs(x)), np.max(np.abs(x)))
      assert np.allclose(b, y), "resynthesis"
    r = Res()
    r.x = best
    return r

  orig = optimize.skopt.gp_minimize
  optimize.skopt.gp_minimize = fake
  try:
    k, exp = {}, {}
    if bits & 8:
      k["n_calls"] = exp["n_calls"] = object()
    if bits & 16:
      k["fit_kws"] = {"option": object()}
    if bits & 32:
      k["state"] = st = Res()
      st.x_iters = exp["x0"] = object()
      st.func_vals = exp["y0"] = object()
    m, res = so.gp_minimize(x, fs, **k)
  finally:
    optimize.skopt.gp_minimize = orig
  assert res.x is best and len(seen) == 1
  assert seen[0][0] == list(dims.values()), "order of the dimensions"
  assert set(seen[0][1]) == set(exp) and all(
      seen[0][1][n] is exp[n] for n in exp), "options"
  point(m, best, "best point")
  assert m.fits[0][1] == k.get("fit_kws", {})
  assert not model.fits and model.params == {
      "fixed": "fixed", "sinusoidal__tracker__fs": "old"}


CASES = {
    "remap": (gen_remap, remap, 200),
    "assign": (gen_assign, assign, 100),
    "optimise": (gen_optimise, optimise, 60),
}
