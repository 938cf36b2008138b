"""C22: beat decisions"""
from contracts.common import *  # noqa: F403
from contracts.c21 import NAMES, params

M = "sample.beatsdrop.decision"
B = "sample.beatsdrop.sample"
BD = f"{M}:BeatDecisor"
AN = f"{M}:AlmostNotABeatDecisor"
NOTE = ("The beat regression and the single-partial fit by contract: any "
        "parameters. Floats as real numbers.")
BOUNDED = ["whole models fitted to generated beats"]


class Regression:
  """A beat regression: fitting gives any parameters"""

  def __init__(self, p, log):
    self.x = params(p)
    self.log = log
    self.fits = []

  def fit(self, *a, **k):
    self.log.append("fit")
    self.fits.append((a, k))
    self.params_ = self.x
    return self


def same_modes(p, name, r, want):
  """Tuples of modes, value by value"""
  if not isinstance(r, (tuple, list)) or len(r) != len(want):
    p.fail(f"{name}: number of modes", repr(r))
    return
  for j, (g, e) in enumerate(zip(r, want)):
    if not isinstance(g, (tuple, list)) or len(g) != 4:
      p.fail(f"{name}: mode {j} has four parameters", repr(g))
      return
    for q, x, y in zip(("frequency", "decay", "amplitude", "phase"), g, e):
      p.prove(f"{name}: {q} of mode {j}", zreal(x) == zreal(y))


def two(x):
  a0, a1, f0, f1, d0, d1, p0, p1 = x
  return (f0, d0, a0, p0), (f1, d1, a1, p1)


def single(x):
  return ((*x, 0),)


@vc("C22", "modes of a beat", functions=[f"{BD}.output_beat_params"],
    replay="output")
def beat_modes(p, w):
  m = w.load(M)
  x = params(p)
  d = (m.BeatDecisor if p.choose("base") else m.AlmostNotABeatDecisor)()
  if p.choose("array"):
    y = N.array(list(x))
  else:
    y = x
  r = attempt(p, "modes", lambda: d.output_beat_params(y))
  if r:
    same_modes(p, "beat", r[0], two(x))


@vc("C22", "mode of a single partial", functions=[f"{BD}.output_params"],
    replay="output")
def single_mode(p, w):
  m = w.load(M)
  x = tuple(real(p, k) for k in ("f", "d", "a"))
  d = (m.BeatDecisor if p.choose("base") else m.AlmostNotABeatDecisor)()
  r = attempt(p, "mode", lambda: d.output_params(x))
  if r:
    same_modes(p, "single", r[0], single(x))


@vc("C22", "the base decision is never a beat",
    functions=[f"{BD}.decide_beat", f"{BD}.track_params"], replay="track")
def base_decision(p, w):
  m = w.load(M)
  reg = Regression(p, [])
  fit = p.choose("fit")
  if not fit:
    reg.params_ = reg.x
  x = tuple(real(p, k) for k in ("f", "d", "a"))
  tr = dict(mag=Token("mag"), freq=Token("freq"))
  d = m.BeatDecisor()
  p.input("cls", lambda mo: "BeatDecisor")
  r = attempt(p, "decision", lambda: d.decide_beat(
      i=3, t=Token("t"), track=tr, beatsdrop=reg, params=x))
  if not r:
    return
  p.prove("not a beat", Not(V.to_zbool(r[0])))
  r = attempt(p, "modes", lambda: d.track_params(
      3, Token("t"), tr, reg, x, fit=fit))
  if r:
    same_modes(p, "single", r[0], single(x))


def is_beat(x, th):
  e = zreal(th) * z3.RealVal(2)**-52
  ab = lambda z: z3.If(z >= 0, z, -z)
  a0, a1, f0, f1 = (q.z for q in x[:4])
  return And(ab(a0) > e, ab(a1) > e, ab(f0 - f1) > e)


@vc("C22", "the default decision",
    functions=[f"{AN}.decide_beat", f"{AN}._not_amost_zero", f"{AN}._th"],
    replay="decide")
def default_decision(p, w):
  m = w.load(M)
  p.sym_lists = True
  reg = Regression(p, [])
  reg.params_ = N.array(list(reg.x)) if p.choose("array") else reg.x
  if p.choose("default"):
    th, kw = SReal(z3.RealVal(1)), {}
  else:
    th = real(p, "th")
    kw = dict(th=th)
  d = m.AlmostNotABeatDecisor(**kw)
  save = p.choose("save")
  d.intermediate.save = save
  i = integer(p, "i", lo=0)
  r = attempt(p, "decision", lambda: d.decide_beat(
      i=i, t=Token("t"), track=Token("track"), beatsdrop=reg,
      params=Token("params")))
  if not r:
    return
  p.prove("amplitudes and frequency difference exceed the threshold",
          V.to_zbool(r[0]) == is_beat(reg.x, th))
  s = d.intermediate.get_state(deepcopy=False)
  if not save:
    if s:
      p.fail("nothing is stored", repr(s))
    return
  v = s["test"][i]
  ab = lambda z: z3.If(z >= 0, z, -z)
  a0, a1, f0, f1 = (q.z for q in reg.x[:4])
  if len(v) != 3:
    p.fail("three values are tested", repr(v))
    return
  for j, e in enumerate((f0 - f1, a0, a1)):
    p.prove(f"stored test value {j}", zreal(v[j]) == ab(e))


def track_vc(cls):

  @vc("C22", f"{cls}: modes follow the decision",
      functions=[f"{BD}.track_params"], replay="track")
  def follow(p, w):
    m = w.load(M)
    p.sym_lists = True
    log = []
    reg = Regression(p, log)
    dec = boolean(p, "decision")
    p.input("cls", lambda mo: "decided")
    seen = []

    class Decisor(getattr(m, cls)):

      def decide_beat(self, *a, **k):
        log.append("decide")
        seen.append((a, k))
        return dec

    d = Decisor()
    save = p.choose("save")
    d.intermediate.save = save
    fit = p.choose("fit")
    if not fit:
      reg.params_ = reg.x
    i = integer(p, "i", lo=0)
    t, tr = Token("t"), dict(mag=Token("mag"), freq=Token("freq"))
    x = tuple(real(p, k) for k in ("f", "d", "a"))
    kw = dict(i=i, t=t, track=tr, beatsdrop=reg, params=x)
    r = attempt(p, "modes", lambda: d.track_params(
        **kw, **(dict(fit=True) if fit else {})))
    if not r:
      return
    # what the decision sees
    if len(seen) != 1:
      p.fail("decided once", f"{len(seen)} times")
      return
    a, k = seen[0]
    k = dict(k, **dict(zip(("i", "t", "track", "beatsdrop", "params"), a)))
    if any(k.get(n) is not v for n, v in kw.items()):
      p.fail("the decision is on the track")
    if fit:
      if log != ["fit", "decide"]:
        p.fail("fitted once, then decided", repr(log))
        return
      a, k = reg.fits[0]
      k = dict(k, **dict(zip(("t", "a", "f"), a)))
      if k.get("t") is not t or k.get("a") is not tr["mag"] or k.get(
          "f") is not tr["freq"]:
        p.fail("fitted to the track", repr(k))
    elif reg.fits:
      p.fail("not fitted again", repr(log))
    s = d.intermediate.get_state(deepcopy=False)
    if not save and s:
      p.fail("nothing is stored", repr(s))
    if save:
      p.prove("the decision is stored for the track", V.to_zbool(
          s["decision"][i]) == V.to_zbool(dec))
    if p.branch(V.to_zbool(dec)):
      same_modes(p, "beat", r[0], two(reg.x))
    else:
      same_modes(p, "single", r[0], single(x))


for _c in ("BeatDecisor", "AlmostNotABeatDecisor"):
  track_vc(_c)


class Model:
  """A sub-model with a sampling rate"""

  def __init__(self, fs=None, log=None):
    self.fs, self.log = fs, log

  def get_params(self, deep=True):
    return dict(fs=self.fs, log=self.log)

  def set_params(self, **k):
    self.__dict__.update(k)
    return self


@vc("C22", "tracks are fitted with their own regression at the sampling rate",
    functions=[f"{B}:SAMPLEBeatsDROP._fit_track"], replay="model")
def fit_track(p, w):
  b = w.load(B)
  fs = real(p, "fs", lo=0)
  partial = tuple(Token(k) for k in "fda")
  parent = Rec(lambda *a, **k: (partial,))
  w.patch(w.load("sample.sample").SAMPLE, "_fit_track",
          lambda s, *a, **k: parent(*a, **k))
  res = Token("modes")

  class Decisor:
    calls = []

    def get_params(self, deep=True):
      return {}

    def track_params(self, *a, **k):
      self.calls.append((a, dict(k)))
      return res

  reg = Model("original", "log")
  dec = Decisor()
  mod = b.SAMPLEBeatsDROP(beatsdrop=reg, beat_decisor=dec,
                          sinusoidal=Model(fs))
  i, t, tr = Token("i"), Token("t"), Token("track")
  r = attempt(p, "track is fitted", lambda: mod._fit_track(i, t, tr))
  if not r:
    return
  if r[0] is not res:
    p.fail("the modes are those of the decision", repr(r[0]))
  if len(dec.calls) != 1:
    p.fail("one decision", repr(len(dec.calls)))
    return
  a, k = dec.calls[0]
  k.update(zip(("i", "t", "track", "beatsdrop", "params", "fit"), a))
  if k.get("i") is not i or k.get("t") is not t or k.get("track") is not tr:
    p.fail("the decision is on the track")
  if k.get("params") is not partial:
    p.fail("the single partial is that of the linear fit", repr(k))
  if k.get("fit") is not True:
    p.fail("the beat is fitted")
  q = k.get("beatsdrop")
  if q is reg or not isinstance(q, Model):
    p.fail("each track has its own regression")
  else:
    p.prove("at the sampling rate", zreal(q.fs) == fs.z)
    if q.log != "log":
      p.fail("with the parameters of the regression")
  if reg.fs != "original":
    p.fail("the regression of the model is left alone")
  if len(parent.calls) != 1:
    p.fail("one linear fit")
    return
  a, k = parent.calls[0]
  k = dict(k, **dict(zip(("i", "t", "track"), a)))
  if k.get("i") is not i or k.get("t") is not t or k.get("track") is not tr:
    p.fail("the linear fit is on the track")


@vc("C22", "resynthesis uses the learned phases unless others are given",
    functions=[f"{B}:SAMPLEBeatsDROP.predict",
               f"{B}:SAMPLEBeatsDROP.phases_"], replay="phases")
def resynthesis(p, w):
  b = w.load(B)
  res = Token("audio")
  parent = Rec(lambda *a, **k: res)
  w.patch(w.load("sample.sample").SAMPLE, "predict",
          lambda s, *a, **k: parent(*a, **k))
  mod = b.SAMPLEBeatsDROP()
  n = length(p, "n", 0)
  P = array(p, "P", (4, n), "f")
  mod.param_matrix_ = P
  old = frozen_copy(P)
  x = Token("x")
  kw = {k: Token(k) for k in ("n_modes", "order") if p.choose(k)}
  given = p.choose("phases")
  ph = Token("phases")
  if given:
    kw["phases"] = ph
  r = attempt(p, "audio", lambda: mod.predict(x, **kw))
  if not r:
    return
  if r[0] is not res:
    p.fail("the synthesized audio is returned")
  if len(parent.calls) != 1:
    p.fail("one synthesis")
    return
  a, k = parent.calls[0]
  k = dict(k, **dict(zip(("x",), a)))
  if k.pop("x") is not x:
    p.fail("on the time axis given")
  g = k.pop("phases", "missing")
  if given:
    kw.pop("phases")
    if g is not ph:
      p.fail("given phases are used", repr(g))
  elif not isinstance(g, N.SArr):
    p.fail("learned phases are used", repr(g))
  else:
    prove_array(p, "learned phases", g, (n,),
                lambda j: SReal(zreal(old.at(z3.IntVal(3), j))))
  if set(k) != set(kw) or any(k[q] is not kw[q] for q in kw):
    p.fail("other arguments are passed on", repr(k))
