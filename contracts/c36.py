"""C36: what a beat is fitted to, where the fit starts and what it predicts"""
from contracts.common import *  # noqa: F403
from contracts.c21 import NAMES, params, track

M = "sample.beatsdrop.regression"
NOTE = ("The beat model (C20), the Mel scale (C15), detrending and the "
        "autocorrelogram (C34), peak detection (C05, C06), numpy.interp and "
        "numpy.quantile by contract. Magnitudes real (silence by battery).")
BOUNDED = ["residuals and starting points of generated beats with the real "
           "libraries", "tracks with silent points"]


class Model:
  """The beat model: each output is a function of its parameters and of time"""

  def __init__(self, log):
    self.log = log
    self.fn = {}

  def of(self, name, q, n):
    if name not in self.fn:
      self.fn[name] = z3.Function("M_" + name, *[z3.RealSort()] * 9,
                                  z3.RealSort())
    return self.fn[name]

  def value(self, name, q, t):
    return self.of(name, q, 0)(*[zreal(v) for v in q], zreal(t))

  def signal(self, name, q, t):
    t = frozen_copy(N.asarray(t))
    return N.SArr(t.shape, lambda *i: SReal(self.value(name, q, t.at(*i))),
                  "f")

  def __call__(self, *a, **k):
    q = list(a) + [k[n] for n in NAMES[len(a):]]
    return Beat(self, q)


class Beat:

  def __init__(self, m, q):
    self.m, self.q = m, q

  def compute(self, t, output):
    self.m.log.append(output)
    if isinstance(output, str):
      return self.m.signal(output, self.q, t)
    return [self.m.signal(o, self.q, t) for o in output]

  def __getattr__(self, k):
    if k.startswith("_"):
      raise AttributeError(k)
    return lambda t: self.m.signal(k, self.q, t)


def quantiles(p, w, calls):
  """numpy.quantile: the quartiles, in order"""

  def f(a, q, *r, **k):
    if r or k:
      raise Unsupported("options of numpy.quantile")
    a = N.asarray(a)
    v = [real(p, f"Q{len(calls)}_{j}") for j in range(len(q))]
    p.assume(*[x.z <= y.z for x, y in zip(v, v[1:])])
    calls.append((frozen_copy(a), tuple(q), v))
    return v

  lib(w, "numpy.quantile", f)


def prepare(p, w, cls, **kw):
  calls, log = [], []
  quantiles(p, w, calls)
  m = w.load(M)
  mod = Model(log)
  w.patch(m.beatsdrop, "ModalBeat", mod)
  n = length(p, "n", 1)
  data = track(p, n)
  reg = getattr(m, cls)(linear_regressor=Obj(), **kw)
  return m, mod, n, data, [frozen_copy(d) for d in data], reg, calls


def flat(p, r, size):
  r = N.asarray(r)
  if r.ndim != 1:
    p.fail("a vector of residuals", f"{r.ndim} dimensions")
    return None
  p.prove("number of residuals", eq(N.asarray(r.shape[0]), size))
  return r


def lin(a, i):
  """Linear amplitude"""
  return ax.P10(V._norm(zreal(a.at(i)) / 20))


def unmodified(p, data, old):
  for nm, d, o in zip("taf", data, old):
    prove_same(p, f"the track is unmodified: {nm}", d, o)


@vc("C36", "amplitude residual", [f"{M}:BeatRegression._residual_fn"],
    replay="residual")
def amplitude(p, w):
  p.input("cls", lambda mo: "BeatRegression")
  fs = real(p, "fs", 0)
  m, mod, n, data, old, reg, _ = prepare(p, w, "BeatRegression")
  reg.fs = fs
  t, a, f = old
  p.assume(fs.z >= 1)
  p.fact(lambda i: zreal(t.at(i)) >= 0, 1, "times are not negative")
  grid = []

  def interp(x, xp, fp, *r, **k):
    if r or k:
      raise Unsupported("options of numpy.interp")
    grid.append(tuple(frozen_copy(N.asarray(v)) for v in (x, xp, fp)))
    return N.SArr(N.asarray(x).shape, lambda *i: SReal(IP(*map(N.zi, i))),
                  "f")

  IP = z3.Function("IP", z3.IntSort(), z3.RealSort())
  lib(w, "numpy.interp", interp)
  q = params(p, "x")
  res = reg._residual_fn(*data)
  for k in ("first", "second"):
    r = flat(p, res(q), n)
    if r is None:
      return
    prove_array(p, f"{k} call: track minus model", r, (n,),
                lambda i: SReal(lin(a, i) - IP(N.zi(i))))
    if not grid:
      return p.fail("the model is interpolated at the times of the track",
                    "it is not")
    x, u, y = grid[-1]
    prove_array(p, f"{k} call: interpolated at the times of the track", x,
                (n,), lambda i: t.at(i))
    c = u.shape[0]
    prove_array(p, f"{k} call: model time axis", u, (c,),
                lambda i: SReal(ToReal(N.zi(i)) / fs.z))
    prove_array(p, f"{k} call: amplitude modulation of the model", y, (c,),
                lambda i: SReal(mod.value("am", q, ToReal(N.zi(i)) / fs.z)))
    j = integer(p, "j" + k).z
    p.prove(f"{k} call: the axis reaches to less than a sample from the end "
            "of the track", Implies(And(0 <= j, j < N.zi(n)), zreal(
                t.at(j)) <= ToReal(N.zi(c)) / fs.z))
  unmodified(p, data, old)


for _clip in (False, True):
  for _loss in ("default", "given"):

    @vc("C36", f"amplitude and frequency residual, {_loss} losses"
        f"{', clipped' if _clip else ''}",
        [f"{M}:DualBeatRegression._residual_fn",
         f"{M}:DualBeatRegression._default_freq_loss",
         f"{M}:DualBeatRegression._default_amp_loss"], replay="residual")
    def dual(p, w, _clip=_clip, _loss=_loss):
      p.input("cls", lambda mo: "DualBeatRegression")
      p.input("losses", lambda mo: _loss)
      fw = real(p, "freq_w", 0)
      clip = real(p, "freq_clip", 0) if _clip else None
      p.assume(fw.z > 0)
      if _clip:
        p.assume(clip.z >= 0)
      kw = {}
      L = {k: z3.Function("L" + k, z3.RealSort(), z3.RealSort(), z3.RealSort())
           for k in "af"}
      if _loss == "given":
        for k, nm in (("a", "amp_loss"), ("f", "freq_loss")):
          kw[nm] = lambda x, y, k=k: loss_of(L[k], x, y)

      def loss_of(fn, x, y):
        x, y = frozen_copy(N.asarray(x)), frozen_copy(N.asarray(y))
        return N.SArr(x.shape, lambda *i: SReal(fn(zreal(x.at(*i)),
                                                   zreal(y.at(*i)))), "f")

      m, mod, n, data, old, reg, calls = prepare(
          p, w, "DualBeatRegression", freq_w=fw, freq_clip=clip, **kw)
      MEL = z3.Function("MEL", z3.RealSort(), z3.RealSort())

      def mel(x, *r, **k):
        if r or k:
          raise Unsupported("options of hz2mel")
        x = frozen_copy(N.asarray(x))
        return N.SArr(x.shape, lambda *i: SReal(MEL(zreal(x.at(*i)))), "f")

      w.patch(m.psycho, "hz2mel", mel)
      t, a, f = old
      q = params(p, "x")
      res = reg._residual_fn(*data)
      zabs = lambda x: If(x < 0, -x, x)
      for k in ("first", "second"):
        r = flat(p, res(q), 2 * n)
        if r is None:
          return
        est = lambda i: zabs(mod.value("fm", q, t.at(i)) / (2 * V.PI))
        if _clip:
          if len(calls) != (1 if k == "first" else 2):
            return p.fail("quartiles of the estimated frequencies",
                          f"{len(calls)} calls")
          x, at, (q1, q2, q3) = calls[-1]
          p.prove(f"{k} call: the quartiles", And(*[zreal(u) == z3.Q(j, 4)
                                                   for j, u in zip((1, 2, 3),
                                                                   at)]))
          prove_array(p, f"{k} call: quartiles of the model's frequencies", x,
                      (n,), lambda i: SReal(est(i)))
          d = clip.z * (q3.z - q1.z) / 2
          lo, hi = q2.z - d, q2.z + d
        else:
          lo = hi = None

        def fr(i):
          e = est(i)
          return e if lo is None else If(e < lo, lo, If(e > hi, hi, e))

        am = lambda i: mod.value("am", q, t.at(i))
        if _loss == "default":
          la = lambda i: lin(a, i) - am(i)
          lf = lambda i: MEL(zabs(zreal(f.at(i)))) - MEL(fr(i))
        else:
          la = lambda i: L["a"](lin(a, i), am(i))
          lf = lambda i: L["f"](zabs(zreal(f.at(i))), fr(i))
        i = integer(p, "i" + k, 0)
        p.assume(i.z < N.zi(n))
        p.prove(f"{k} call: amplitude losses first", zreal(r.at(i.z)) == la(i.z))
        p.prove(f"{k} call: then the weighted frequency losses",
                zreal(r.at(i.z + N.zi(n))) == fw.z * lf(i.z))
      unmodified(p, data, old)


@vc("C36", "default starting point",
    [f"{M}:BeatRegression._default_params_init", f"{M}:BeatRegression.k_",
     f"{M}:BeatRegression.q_"], replay="start")
def start(p, w):
  m, mod, n, data, old, reg, _ = prepare(p, w, "BeatRegression")
  t, a, f = old
  k, q = real(p, "k"), real(p, "q")
  fs, lpf = real(p, "fs", 0), real(p, "lpf", 0)
  reg.fs, reg.lpf = fs, lpf
  p.assume(k.z != 0, fs.z > 0)
  reg.linear_regressor = lr = Obj(coef_=N.array([k]), intercept_=q)
  D = z3.Function("D", z3.IntSort(), z3.RealSort())
  detr, auto, found = [], [], []

  def detrend(y, x=None, model=None):
    detr.append((y, x, model))
    return N.SArr(data[1].shape, lambda i: SReal(D(N.zi(i))), "f")

  def autocorrelogram(t, x, n=None, nfft=None, fs=1, lpf=None, hpf=None,
                      **kw):
    auto.append((t, frozen_copy(N.asarray(x)), fs, lpf, (n, nfft, hpf), kw))
    return corr

  corr = array(p, "corr", (length(p, "lags", 0),))
  npk = length(p, "npk", 0)
  pk = array(p, "pk", (npk,), "f")
  p.fact(lambda i: zreal(pk.at(i)) > 0, 1, "lags of peaks are positive")

  def peaks(mx, px=None, t=None):
    found.append((mx, px, t))
    return pk, array(p, f"pm{len(found)}", (npk,), "f")

  w.patch(m.utils.dsp, "detrend", detrend)
  w.patch(m.utils.dsp, "lombscargle_autocorrelogram", autocorrelogram)
  w.patch(m.sms_dsp, "peak_detect_interp", peaks)
  r = attempt(p, "a starting point", lambda: reg._default_params_init(
      *data, Token("residual"), reg))
  if not r:
    return
  r = r[0]
  if len(r) != 8:
    return p.fail("eight parameters", str(len(r)))
  if len(detr) != 1 or len(auto) != 1 or len(found) != 1:
    return p.fail("one autocorrelogram of the detrended track",
                  f"{len(detr)}, {len(auto)}, {len(found)} calls")
  y, x, model = detr[0]
  p.prove("the magnitudes are detrended over time with the linear regressor",
          zbool(y is data[1] and x is data[0] and model is lr))
  x, y, s, l, rest, kw = auto[0]
  p.prove("the autocorrelogram is over time, at the sampling rate",
          And(zbool(x is data[0] and all(v is None for v in rest) and not kw),
              zreal(s) == fs.z))
  p.prove("up to the limit frequency", zbool(False) if l is None
          else zreal(l) == lpf.z)
  prove_array(p, "of the linear detrended amplitudes", y, (n,),
              lambda i: SReal(ax.P10(V._norm(D(N.zi(i)) / 20))))
  p.prove("the peaks of the autocorrelogram", zbool(
      found[0][0] is corr and found[0][1] is None and found[0][2] is None))
  z = [zreal(v) for v in r]
  half = ax.P10(V._norm(q.z / 20)) / 2
  p.prove("amplitudes: half of the intercept", And(z[0] == half, z[1] == half))
  mean = zreal(N.mean(data[2]))
  am = If(N.zi(npk) == 0, 0, fs.z / (2 * zreal(pk.at(0))))
  p.prove("frequencies: the mean and the modulation frequency of the first "
          "peak", And(z[2] == mean + am, z[3] == mean - am))
  dec = -40 * ax.LOG10(ax.EXP(z3.RealVal(1))) / k.z
  p.prove("decays: of the linear slope", And(z[4] == dec, z[5] == dec))
  p.prove("phase of the first partial: zero", z[6] == 0)
  p.prove("phase of the second partial: in (-2 pi, 0]",
          And(z[7] <= 0, z[7] > -2 * V.PI))
  unmodified(p, data, old)


for _out in ((), ("x",), ("am",), ("am", "fm")):

  @vc("C36", f"prediction of {', '.join(_out) or 'the signal by default'}",
      [f"{M}:BeatRegression.predict"], replay="predict")
  def predict(p, w, _out=_out):
    m, mod, n, data, old, reg, _ = prepare(p, w, "DualBeatRegression")
    q = params(p, "x")
    reg.beat_ = Beat(mod, q)
    p.input("outputs", lambda mo: list(_out))
    col = p.choose("column vector")
    t = array(p, "tt", (n, 1) if col else (n,), "f")
    p.assume(N.zi(n) >= 2)
    ot = frozen_copy(t)
    r = reg.predict(t, *_out)
    names = _out or ("x",)
    if not isinstance(r, (list, tuple)) or len(r) != len(names):
      return p.fail("one array per output", repr(type(r)))
    for nm, y in zip(names, r):
      prove_array(p, f"output {nm}", y, (n,), lambda i: SReal(mod.value(
          nm, q, ot.at(i, 0) if col else ot.at(i))))
    prove_same(p, "the time axis is unmodified", t, ot)
