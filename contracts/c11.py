"""C11: modal parameters of a track and assembly of the parameter matrix"""
from contracts.common import *  # noqa: F403

M = "sample.sample"
S = f"{M}:SAMPLE"


def regressor(w, K, Q_, log):
  base = w.imp("sklearn.base", fromlist=("x",))

  class Reg(base.BaseEstimator):

    def __init__(self, tag=None):
      self.tag = tag

    def fit(self, x, y):
      log.append((self, x, y))
      self.slope_, self.level_ = K, Q_
      other = self.tag == "renamed"
      self.k_, self.q_ = (12345, 54321) if other else (K, Q_)
      return self

  return Reg


for _names in (False, True):
  for _mean in (False, True):

    @vc("C11", "parameters of one track, "
        f"{'renamed' if _names else 'default'} regressor attributes, "
        f"{'mean' if _mean else 'custom'} frequency",
        [f"{S}._fit_track", f"{S}._D2K_CONST"], replay="track")
    def track(p, w, _names=_names, _mean=_mean):
      m = w.load(M)
      n = length(p, "n", 2)
      t, mag = array(p, "t", (n,)), array(p, "mag", (n,))
      fr = array(p, "freq", (n,))
      K, Q_ = real(p, "K", np=True), real(p, "Q", np=True)
      p.assume(K.z != 0)
      p.input("names", lambda mo: _names)
      p.input("mean", lambda mo: _mean)
      F = real(p, "F")
      log = []
      tag = "renamed" if _names else "mine"
      reg = regressor(w, K, Q_, log)(tag=tag)
      fred = Rec(F)
      kw = {} if _mean else {"freq_reduce": fred}
      if _names:
        kw.update(regressor_k="slope_", regressor_q="level_")
      mod = m.SAMPLE(regressor=reg, **kw)
      tr = {"freq": fr, "mag": mag, "phase": array(p, "ph", (n,)),
            "start_frame": SInt(z3.IntVal(3))}
      ot, om = frozen_copy(t), frozen_copy(mag)
      r = mod._fit_track(0, t, tr)
      if len(r) != 1 or len(r[0]) != 3:
        return p.fail("one mode of three parameters", r)
      f, d, a = r[0]
      if len(log) != 1:
        return p.fail("one regression", len(log))
      rg, x, y = log[0]
      p.prove("a fresh clone is fitted", zbool(
          rg is not reg and not hasattr(reg, "slope_") and rg.tag == tag))
      prove_array(p, "regression on the time column", x, (n, 1),
                  lambda i, j: ot.at(i))
      prove_same(p, "regression on the magnitudes", y, om)
      if _mean:
        p.prove("frequency is the mean of the track", eq(
            f, SReal(zreal(N.reduce_sum(fr)) / z3.ToReal(n.z))))
      else:
        p.prove("frequency is reduced from the track", eq(f, F))
        p.prove("from the track's frequencies", zbool(
            len(fred.calls) == 1 and fred.calls[0][0][0] is fr))
      # 20 log10(a exp(-2 t/d)) == K t + Q for all t:
      #   log10(a exp(u)) == log10(a) + u log10(e), a > 0
      a_, d_ = zreal(a), zreal(d)
      p.prove("amplitude is positive", a_ > 0)
      p.prove("level at time zero is the intercept",
              20 * ax.LOG10(a_) == Q_.z)
      tt = fresh("t", "Real")
      p.prove("decay is defined", d_ != 0)
      p.prove("level at every time is the fitted line",
              20 * (ax.LOG10(a_) + (-2 * tt / d_) * ax.LOG10(
                  ax.EXP(z3.RealVal(1)))) ==
              K.z * tt + Q_.z)
      prove_same(p, "time axis unmodified", t, ot)
      prove_same(p, "magnitudes unmodified", mag, om)


@vc("C11", "a track is preprocessed, then fitted",
    [f"{S}._track_preprocess_and_fit"], replay="compose")
def compose(p, w):
  m = w.load(M)
  mod = m.SAMPLE()
  x, t, a, b, c, out = (object() for _ in range(6))
  pre, fit = Rec((a, b, c)), Rec(out)
  mod._preprocess_track, mod._fit_track = pre, fit
  r = mod._track_preprocess_and_fit(7, x, t)
  p.prove("result of the fit", zbool(r is out))
  pa, pk = pre.calls[0]
  got = dict(zip(("i", "x", "t"), pa), **pk)
  p.prove("preprocessing gets the track, its index and the signal", zbool(
      len(pre.calls) == 1 and got == {"i": 7, "x": x, "t": t}))
  fa, fk = fit.calls[0]
  got = dict(zip(("i", "t", "track"), fa), **fk)
  p.prove("the fit gets what preprocessing returns", zbool(
      len(fit.calls) == 1 and got == {"i": a, "t": b, "track": c}))


class Gen(LoopSpec):
  """One element is yielded per iteration"""
  generator = True

  def havoc_heap(self, L, i):
    self.i, self.got = i, 0

  def preserve(self, L, i, n):
    self.p.prove("one result per iteration", zbool(self.got == 1))


@vc("C11", "progress-reporting map yields every result in order",
    ["sample._training:FitArgs.starmap_progress"], replay="progress")
def progress(p, w):
  tr = w.load("sample._training")
  n = length(p, "n", 0)
  src = fresh_fn("ARG", z3.IntSort(), z3.RealSort())
  F = fresh_fn("F", z3.RealSort(), z3.RealSort())
  it = SList(n, lambda k: (SReal(src(k)),))
  spec = Gen()
  spec.p = p
  p.loop_specs = [spec]
  fa = tr.FitArgs()
  fa.progress_update = fa.progress_start = fa.progress_stop = Rec()
  g = fa.starmap_progress(lambda v: SReal(F(zreal(v))), it, n)
  try:
    v = next(g)
  except StopIteration:
    return p.prove("stops only after the last element", spec.i == n.z)
  # an arbitrary iteration
  spec.got += 1
  p.prove("the i-th result is the function of the i-th arguments",
          eq(v, SReal(F(src(spec.i)))))
  try:
    next(g)
  except StopIteration:
    pass
  p.fail("one result per element", "the generator ends early or yields twice")


def world_fit(p, w, cls, rows, res, n):
  """SAMPLE.fit with the analysis and the per-track fit replaced by their
  contracts; tracks are opaque"""
  m = w.load(M)
  tr = w.load("sample._training")

  def starmap(self, func, it, tot=None):
    got = seq.vmap(lambda t: func(*t), it)
    return got

  w.patch(tr.FitArgs, "starmap_progress", starmap)
  T = [object()]
  xs = array(p, "x", (length(p, "nx", 0),))
  tracks = SList(n, lambda k: ("track", SInt(k)))
  seen = []

  class Sin:

    def time_frames(self, x):
      seen.append(("frames", x))
      return N.zeros((3, 4))

    def fit(self, x, y=None, **kw):
      seen.append(("fit", x))
      return self

    @property
    def tracks_(self):
      return tracks

  C = m.SAMPLE if cls == 3 else w.load("sample.beatsdrop.sample"
                                       ).SAMPLEBeatsDROP
  mod = C(sinusoidal=Sin())

  def one(i, x, t):
    kind, k = t
    # called with the track, its own index and the signal
    p.prove("track, index and signal belong together", And(
        zint(i) == zint(k), zbool(kind == "track" and x is xs)))
    return res(zint(k))

  mod._track_preprocess_and_fit = one
  r = mod.fit(xs)
  p.prove("returns itself", zbool(r is mod))
  p.prove("analyses the signal", zbool(
      [s for s in seen if s[0] == "fit"] == [("fit", xs)]))
  return mod


def entries(nrow, nd):
  """Arbitrary, possibly non-finite values"""
  I = z3.IntSort()
  fs = [(fresh_fn(f"P{r}", *[I] * nd, z3.RealSort()),
         fresh_fn(f"P{r}_nan", *[I] * nd, z3.BoolSort())) for r in range(nrow)]
  return lambda *k: tuple(SReal(f(*k), g(*k), True) for f, g in fs)


@vc("C11", "one column per track with finite parameters, in track order",
    [f"{S}.fit", f"{S}._valid_params_"], replay="matrix")
def matrix(p, w):
  n = length(p, "n", 0)
  E = entries(3, 1)
  mod = world_fit(p, w, 3, 3, lambda k: (E(k),), n)
  pm = mod.param_matrix_
  fin = lambda k: Not(Or(*[V.nan_of(v) for v in E(k)]))
  c, K, _ = N.enum_mask(N.SArr((n,), lambda k: SBool(fin(k)), "b"))
  prove_array(p, "columns", pm, (3, c), lambda r, j: V.ite(
      r == 0, E(K(j))[0], V.ite(r == 1, E(K(j))[1], E(K(j))[2])))


@vc("C11", "beat-aware model: the columns of all tracks, in order",
    [f"{S}.fit", f"{S}._valid_params_",
     "sample.beatsdrop.sample:SAMPLEBeatsDROP._PARAM_MATRIX_NROWS"],
    replay="matrix4")
def matrix4(p, w):
  n = length(p, "n", 0)
  E = entries(4, 2)
  L = fresh_fn("modes", z3.IntSort(), z3.IntSort())
  p.fact(lambda k: And(L(k) >= 1, L(k) <= 2), 1, "one or two modes")
  res = lambda k: SSeq(SInt(L(k)), lambda j: E(k, j))
  mod = world_fit(p, w, 4, 4, res, n)
  pm = mod.param_matrix_
  # the columns of track k start where those of track k-1 end
  fl = seq.flatten(SList(n, res))
  el = lambda c: E(fl.at(c), z3.simplify(c - fl.off(fl.at(c))))
  fin = lambda k: Not(Or(*[V.nan_of(v) for v in el(k)]))
  c, K, _ = N.enum_mask(N.SArr((fl._vc_len(),), lambda k: SBool(fin(k)), "b"))

  def spec(r, j):
    v = el(K(j))
    return V.ite(r == 0, v[0], V.ite(r == 1, v[1], V.ite(r == 2, v[2], v[3])))

  prove_array(p, "columns", pm, (4, c), spec)


@vc("C11", "rows of the parameter matrix",
    [f"{S}.freqs_", f"{S}.decays_", f"{S}.amps_",
     "sample.beatsdrop.sample:SAMPLEBeatsDROP.phases_"], replay="rows")
def rows(p, w):
  m = w.load(M)
  b = w.load("sample.beatsdrop.sample")
  n = length(p, "n", 0)
  P = array(p, "P", (4, n))
  mod = b.SAMPLEBeatsDROP()
  mod.param_matrix_ = P
  old = frozen_copy(P)
  for r, nm in enumerate(("freqs_", "decays_", "amps_", "phases_")):
    prove_array(p, nm, getattr(mod, nm), (n,), lambda j, r=r: old.at(r, j))
  v = array(p, "v", (n,))
  for r, nm in enumerate(("freqs_", "decays_", "amps_")):
    before = frozen_copy(mod.param_matrix_)
    setattr(mod, nm, v)
    prove_array(p, f"setting {nm} changes that row only", mod.param_matrix_,
                (4, n), lambda i, j, r=r: V.ite(i == r, v.at(j),
                                                before.at(i, j)))
