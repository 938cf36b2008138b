"""C28: remapping of hyper-parameters and assignment of optimised values"""
from contracts.common import *  # noqa: F403

O = "sample.optimize"
NOTE = ("Window construction (scipy.signal.get_window) is assumed to give an "
        "array of the requested size for the requested type; window sizes are "
        "at least one sample and at most the FFT size, overlaps are at most "
        "one. Values that are not remapped are arbitrary objects, up to three "
        "dimensions and two additional arguments.")


def ok(p, name, c):
  p.prove(name, zbool(bool(c)))


def given(p, kw, name, f):
  if p.choose(name):
    kw[name] = f()
    return True
  return False


@vc("C28", "hyper-parameter remapper", [f"{O}:sample_kwargs_remapper"],
    replay="remap", max_paths=3000, timeout=300)
def remap(p, w):
  made = []
  WIN = fresh_fn("WINDOW", z3.IntSort(), z3.IntSort(), z3.RealSort())

  def get_window(window, Nx, fftbins=True):
    made.append((window, Nx))
    z = N.zi(Nx)
    return N.SArr((Nx,), lambda k: SReal(WIN(z, k), None, True), "f")

  lib(w, "scipy.signal.get_window", get_window)
  m = w.load(O)
  kw = {}
  n = length(p, "n", lo=1)
  log_n = given(p, kw, "sinusoidal__log_n", lambda: integer(
      p, "log_n", lo=0, hi=30))
  has_n = given(p, kw, "sinusoidal__n", lambda: n)
  nz = n.z if has_n else (2**kw["sinusoidal__log_n"]).z if log_n else \
      z3.IntVal(2048)
  wt = Token("wtype")
  if not given(p, kw, "sinusoidal__wtype", lambda: wt):
    wt = "hamming"
  has_w = given(p, kw, "sinusoidal__w", lambda: array(
      p, "w", length(p, "nw", lo=1), "f"))
  ws = z3.RealVal(1)
  if given(p, kw, "sinusoidal__wsize", lambda: real(p, "wsize")):
    ws = kw["sinusoidal__wsize"].z
    p.assume(0 < ws, ws <= 1)
  if not has_w:
    p.assume(ws * nz >= 1)
  has_h = given(p, kw, "sinusoidal__tracker__h", lambda: integer(
      p, "h", lo=1))
  ov = z3.RealVal("1/2")
  if given(p, kw, "sinusoidal__overlap", lambda: real(p, "overlap")):
    ov = kw["sinusoidal__overlap"].z
    p.assume(ov <= 1)
  if p.choose("others"):
    kw.update(max_n_modes=Token("a"), regressor_k=Token("b"),
              sinusoidal__t=Token("c"), sinusoidal__tracker__fs=Token("d"))
  r = m.sample_kwargs_remapper(**kw)
  hyper = {"sinusoidal__log_n", "sinusoidal__wtype", "sinusoidal__wsize",
           "sinusoidal__overlap"}
  exp = set(kw) - hyper
  for k in exp:
    ok(p, f"{k} passes through", k in r and r[k] is kw[k])
  if log_n and not has_n:
    exp.add("sinusoidal__n")
    p.prove("FFT size", r["sinusoidal__n"] == SInt(nz))
  exp |= {"sinusoidal__w", "sinusoidal__tracker__h"}
  ok(p, "no other argument, none missing", set(r) == exp)
  win = N.asarray(r["sinusoidal__w"])
  sz = N.zi(win.shape[0])
  if not has_w:
    ok(p, "window of the given type", win.ndim == 1 and len(
        made) >= 1 and made[-1][0] is wt if isinstance(
            wt, Token) else made[-1][0] == wt)
    p.prove("window size", z3.And(z3.ToReal(sz) <= ws * nz,
                                  ws * nz < sz + 1))
    k = integer(p, "k").z
    p.assume(0 <= k, k < sz)
    p.prove("window values", win.at(k) == SReal(WIN(sz, k)))
  if not has_h:
    h = r["sinusoidal__tracker__h"]
    p.prove("hop at least one", h >= 1)
    p.prove("hop at most the window", N.zi(h) <= sz)
    t = (1 - ov) * sz
    hz = z3.ToReal(N.zi(h))
    p.prove("hop from overlap", z3.Or(
        z3.And(t - 1 < hz, hz < t + 1), z3.And(t < 1, hz == 1),
        z3.And(t > sz, hz == sz)))


class Log:

  def __init__(self):
    self.models = []


def model_class(log, m=None):
  """A model: parameters, fit and predict are recorded"""

  class Model:

    def __init__(self, **kw):
      self.params = dict(kw)
      self.fits, self.at = [], []
      log.models.append(self)

    def get_params(self, deep=True):
      return dict(self.params)

    def set_params(self, **kw):
      self.params.update(kw)
      return self

    def fit(self, x, *a, **k):
      self.fits.append((x, a, k))
      return self

    def predict(self, t, **k):
      self.at.append((t, k))
      return N.SArr(N.asarray(t).shape, lambda i: SReal(log.Y(i), None, True),
                    "f")

  return Model


DIMS = ("dim_b", "dim_a", "dim_c")


def optimizer(p, w):
  """(module, optimiser, number of dimensions, log of remapped arguments)"""
  m = w.load(O)
  nd = 1 if p.choose("one") else 2 if p.choose("two") else 3
  log, seen = Log(), []
  log.Y = fresh_fn("Y", z3.IntSort(), z3.RealSort())
  kw = {}
  if p.choose("remapper"):
    out = {}

    def remapper(**k):
      seen.append(k)
      d = {f"new_{n}": v for n, v in k.items()}
      out.clear()
      out.update(d)
      return d

    kw["remap"] = remapper
  else:
    kw["remap"] = None
  opts = {d: Token(f"range of {d}") for d in DIMS[:nd]}
  loss = []

  def loss_fn(a, b, **k):
    loss.append((a, b, k))
    return log.result

  log.result = Token("loss")
  if p.choose("loss_kw"):
    kw["loss_kw"] = {"extra": Token("extra")}
  if p.choose("no clip"):
    kw["clip"] = False
  fixed = "fixed"
  model = model_class(log)(fixed=fixed, sinusoidal__tracker__fs="old")
  so = m.SAMPLEOptimizer(model, loss_fn=loss_fn, **kw, **opts)
  pre = "new_" if kw["remap"] else ""
  return m, so, nd, opts, log, loss, kw, pre, model, fixed


def exact(d, exp):
  return set(d) == set(exp) and all(d[k] is exp[k] for k in exp)


@vc("C28", "assignment of values to dimensions", [
    f"{O}:SAMPLEOptimizer._kwargs", f"{O}:SAMPLEOptimizer.__init__"],
    replay="assign", max_paths=3000)
def assign(p, w):
  m, so, nd, opts, log, _, kw, pre, model, _ = optimizer(p, w)
  ok(p, "dimensions in order", list(so.dimensions) == list(opts) and all(
      so.dimensions[k] is opts[k] for k in opts))
  na = 0 if p.choose("no value") else 1 if p.choose("one value") else \
      2 if p.choose("two values") else 3 if p.choose("three values") else 4
  vals = [Token(f"v{i}") for i in range(na)]
  extra = {k: Token(k) for k in ("extra_a", "extra_b") if p.choose(k)}
  if na != nd:
    ok(p, "wrong number of values is rejected", raises(
        lambda: so._kwargs(*vals, **extra), ValueError))
    return
  r = so._kwargs(*vals, **extra)
  exp = dict(zip(DIMS, vals), **extra)
  ok(p, "every value under its dimension, others as given",
     exact(r, {pre + k: v for k, v in exp.items()}))


def check_fit(p, name, mdl, vals, fs, pre, fixed, x, extra=()):
  exp = {pre + k: v for k, v in dict(
      dict(zip(DIMS, vals), sinusoidal__tracker__fs=fs), **dict(
          extra)).items()}
  got = dict(mdl.params)
  ok(p, f"{name}: fixed argument", got.pop("fixed") is fixed)
  if pre:
    got.pop("sinusoidal__tracker__fs")
  ok(p, f"{name}: parameters", exact(got, exp))
  ok(p, f"{name}: fit to the audio", len(mdl.fits) == 1 and
     mdl.fits[0][0] is x)


@vc("C28", "loss of a point", [f"{O}:SAMPLEOptimizer.loss",
                               f"{O}:SAMPLEOptimizer._kwargs"],
    replay="optimise", max_paths=3000)
def loss(p, w):
  m, so, nd, opts, log, calls, kw, pre, model, fixed = optimizer(p, w)
  n = length(p, "n", lo=1)
  x, fs = array(p, "x", n, "f"), real(p, "fs")
  p.assume(fs.z > 0)
  f = so.loss(x, fs)
  vals = [Token(f"v{i}") for i in range(nd)]
  extra = {"extra_a": Token("extra")} if p.choose("extra") else {}
  r = f(tuple(vals), **extra)
  ok(p, "value of the loss function", r is log.result)
  ok(p, "one model per point", len(log.models) == 2)
  mdl = log.models[-1]
  ok(p, "the optimiser's model is left alone", model.fits == [] and set(
      model.params) == {"fixed", "sinusoidal__tracker__fs"})
  check_fit(p, "point", mdl, vals, fs, pre, fixed, x, extra)
  ok(p, "one evaluation", len(calls) == 1 and len(mdl.at) == 1)
  a, b, k = calls[0]
  ok(p, "loss arguments", a is x and exact(k, kw.get("loss_kw") or {}))
  t = N.asarray(mdl.at[0][0])
  i = integer(p, "i").z
  p.assume(0 <= i, i < n.z)
  p.prove("times", N.zi(t.shape[0]) == n.z)
  p.prove("sample times", t.at(i) * fs == SReal(z3.ToReal(i)))
  y = SReal(log.Y(i))
  b = N.asarray(b)
  p.prove("resynthesis length", N.zi(b.shape[0]) == n.z)
  if so.clip:
    np = w.fakes["numpy"]
    pk = np.max(np.abs(x))
    e = V.ite(y < -pk, -pk, V.ite(y > pk, pk, y))
  else:
    e = y
  p.prove("resynthesis", b.at(i) == e)


@vc("C28", "refit of the best point", [f"{O}:SAMPLEOptimizer.gp_minimize",
                                       f"{O}:SAMPLEOptimizer.loss",
                                       f"{O}:SAMPLEOptimizer._kwargs"],
    replay="optimise", max_paths=3000)
def minimise(p, w):
  m, so, nd, opts, log, calls, kw, pre, model, fixed = optimizer(p, w)
  n = length(p, "n", lo=1)
  x, fs = array(p, "x", n, "f"), real(p, "fs")
  p.assume(fs.z > 0)
  point = [Token(f"p{i}") for i in range(nd)]
  best = [Token(f"b{i}") for i in range(nd)]
  seen = []

  class Result:
    pass

  def gp_minimize(func, dimensions, **k):
    seen.append((func, list(dimensions), k))
    ok(p, "value given to the optimiser", func(point) is log.result)
    check_fit(p, "evaluated point", log.models[-1], point, fs, pre, fixed, x)
    r = Result()
    r.x = best
    return r

  w.patch(m.skopt, "gp_minimize", gp_minimize)
  k, fit = {}, {}
  if p.choose("options"):
    k["n_calls"] = Token("calls")
  if p.choose("fit arguments"):
    fit["option"] = Token("option")
    k["fit_kws"] = fit
  sk = {a: b for a, b in k.items() if a != "fit_kws"}
  if p.choose("continued"):
    st = Result()
    st.x_iters, st.func_vals = Token("x0"), Token("y0")
    k["state"] = st
    sk.update(x0=st.x_iters, y0=st.func_vals)
  mdl, res = so.gp_minimize(x, fs, **k)
  ok(p, "one optimisation", len(seen) == 1)
  ok(p, "dimensions in order", len(seen[0][1]) == nd and all(
      a is b for a, b in zip(seen[0][1], opts.values())))
  ok(p, "optimiser's options", exact(seen[0][2], sk))
  ok(p, "summary", res.x is best)
  check_fit(p, "best point", mdl, best, fs, pre, fixed, x)
  ok(p, "fit arguments", exact(mdl.fits[0][2], fit))
  ok(p, "the optimiser's model is left alone", model.fits == [] and set(
      model.params) == {"fixed", "sinusoidal__tracker__fs"})
