"""C21: beat regression"""
from contracts.common import *  # noqa: F403
from pyvc import axioms as ax

M = "sample.beatsdrop.regression"
NOTE = ("scipy.optimize.least_squares by contract: any parameters. The "
        "residual function of the disambiguation VCs is an arbitrary function "
        "of the eight parameters. Real amplitudes in decibel (silence, minus "
        "infinity, by battery).")
BOUNDED = ["fits of generated beats with the real optimiser",
           "tracks with silent points (minus infinite decibel)"]
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")
SWAP = (1, 0, 3, 2, 5, 4, 7, 6)
CROSS = (0, 1, 3, 2, 4, 5, 7, 6)


def params(p, pre="", lo=None):
  """Eight beat parameters"""
  lo = lo or {}
  return tuple(real(p, pre + k, lo=lo.get(k)) for k in NAMES)


def track(p, n):
  return (array(p, "t", (n,), "f"), array(p, "a", (n,), "f"),
          array(p, "f", (n,), "f"))


def load(w, ls=None):
  if ls is not None:
    lib(w, "scipy.optimize.least_squares", ls)
  return w.load(M)


def octuple(p, name, x):
  if not isinstance(x, (tuple, list)) or len(x) != 8:
    p.fail(name, f"{type(x).__name__}")
    return None
  return [zreal(q) for q in x]


@vc("C21", "default bounds", functions=[f"{M}:BeatRegression._default_bounds"],
    replay="bounds")
def bounds(p, w):
  m = load(w)
  n = length(p, "n", 2)
  t, a, f = track(p, n)
  x = params(p, "x", lo=dict(a0=0, a1=0))
  r = attempt(p, "bounds are computed", lambda: m.BeatRegression.
              _default_bounds(t, a, f, x, Obj()))
  if not r:
    return
  if not isinstance(r[0], (tuple, list)) or len(r[0]) != 2:
    p.fail("lower and upper bounds", repr(r[0]))
    return
  lo, hi = (octuple(p, "eight bounds", b) for b in r[0])
  if lo is None or hi is None:
    return
  for j, k in enumerate(NAMES):
    p.prove(f"{k}: lower <= upper", lo[j] <= hi[j])
  for j in (0, 1, 2, 3, 7):
    z = zreal(x[j])
    p.prove(f"{NAMES[j]}: at least the lower bound", lo[j] <= z)
    p.prove(f"{NAMES[j]}: at most the upper bound", z <= hi[j])
  for j in (0, 1):
    p.prove(f"{NAMES[j]} is not negative", lo[j] >= 0)
  for j in (4, 5):
    p.prove(f"{NAMES[j]} is positive", lo[j] > 0)


@vc("C21", "default bounds: negative starting amplitudes",
    functions=[f"{M}:BeatRegression._default_bounds"], replay="bounds")
def bounds_any(p, w):
  m = load(w)
  n = length(p, "n", 2)
  t, a, f = track(p, n)
  x = params(p, "x")
  r = attempt(p, "bounds are computed", lambda: m.BeatRegression.
              _default_bounds(t, a, f, x, Obj()))
  if not r:
    return
  lo, hi = (octuple(p, "eight bounds", b) for b in r[0])
  if lo is None or hi is None:
    return
  for j, k in enumerate(NAMES):
    p.prove(f"{k}: lower <= upper", lo[j] <= hi[j])
  for j in (0, 1):
    p.prove(f"{NAMES[j]} is not negative", lo[j] >= 0)
  for j in (4, 5):
    p.prove(f"{NAMES[j]} is positive", lo[j] > 0)


@vc("C21", "default bounds: short tracks are rejected",
    functions=[f"{M}:BeatRegression._default_bounds"], replay="bounds")
def short(p, w):
  m = load(w)
  n = length(p, "n", 0)
  p.assume(N.zi(n) <= 1)
  t, a, f = track(p, n)
  e = raises(lambda: m.BeatRegression._default_bounds(
      t, a, f, params(p, "x"), Obj()), ValueError)
  if not e:
    p.fail("tracks of less than two points are rejected", "not an error")
  else:
    p.prove("tracks of less than two points are rejected", zbool(True))


class Beat:
  """A beat model, by its parameters"""

  def __init__(self, *a, **k):
    self.p = a + tuple(k[n] for n in NAMES[len(a):])


class Fit:
  """Everything around a fit"""

  def __init__(self, p, w, cls, **kw):
    self.p, self.w = p, w
    self.out = [real(p, "o" + k) for k in NAMES]
    self.x = params(p, "x")
    self.lo, self.hi = params(p, "l"), params(p, "h")
    self.ls = Rec(lambda *a, **k: Obj(x=N.array(list(self.out))))
    self.m = m = load(w, self.ls)
    self.cls = getattr(m, cls)
    self.R = z3.Function("R", *[z3.RealSort()] * 8, z3.IntSort(),
                         z3.RealSort())
    self.size = length(p, "residuals", 1)
    self.nres = 0
    self.init = Rec(lambda *a, **k: self.x)
    self.bnd = Rec(lambda *a, **k: (self.lo, self.hi))
    self.rf = Rec(lambda *a, **k: self.res)
    w.patch(self.cls, "_residual_fn", lambda s, *a, **k: self.rf(*a, **k))
    self.model = self.cls(linear_regressor=Obj(),
                          params_init=lambda *a, **k: self.init(*a, **k),
                          bounds=lambda *a, **k: self.bnd(*a, **k), **kw)
    n = length(p, "n", 2)
    self.data = track(p, n)

  def res(self, q):
    z = [zreal(v) for v in q]
    return N.SArr((self.size,), lambda k: SReal(self.R(*z, N.zi(k))), "f")

  def ssr(self, z):
    return zreal(N.reduce_sum(N.SArr((self.size,), lambda k: SReal(
        self.R(*z, N.zi(k)) * self.R(*z, N.zi(k))), "f")))

  def inside(self, strict=True):
    lt = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
    return And(*[And(lt(l.z, x.z), lt(x.z, h.z))
                 for l, x, h in zip(self.lo, self.x, self.hi)])

  def call(self, f, **kw):
    return f(*self.data, **kw)


def arguments(fit, kw):
  """Obligations on the call of the optimiser"""
  p = fit.p
  if len(fit.ls.calls) != 1:
    p.fail("one optimisation", f"{len(fit.ls.calls)} calls")
    return False
  a, k = fit.ls.calls[0]
  k = dict(k)
  for n, v in zip(("fun", "x0"), a):
    k[n] = v
  if k.get("fun") != fit.res:
    p.fail("the residual function is what is optimised", "it is not")
    return False
  x0 = k.get("x0")
  for j, n in enumerate(NAMES):
    p.prove(f"the optimisation starts at the starting point: {n}",
            zreal(x0[j]) == fit.x[j].z)
  b = k.get("bounds")
  if b is None or len(b) != 2:
    p.fail("the optimisation is bounded", "it is not")
    return False
  for j, n in enumerate(NAMES):
    p.prove(f"the optimisation is within the bounds: {n}", And(
        zreal(b[0][j]) == fit.lo[j].z, zreal(b[1][j]) == fit.hi[j].z))
  for n, v in kw.items():
    if k.get(n) is not v:
      p.fail(f"option {n} reaches the optimiser", repr(k.get(n)))
  for what, r in (("starting point", fit.init), ("bounds", fit.bnd)):
    a = r.calls[-1][0] if r.calls else ()
    if any(q is not d for q, d in zip(a, fit.data)) or len(a) < 3:
      p.fail(f"the {what} are computed from the track", "they are not")
  a, k = fit.rf.calls[-1] if fit.rf.calls else ((), {})
  a = list(a) + [k[n] for n in ("t", "a", "f")[len(a):] if n in k]
  if len(a) != 3 or any(q is not d for q, d in zip(a, fit.data)):
    p.fail("the residuals are those of the track", "they are not")
  return True


for CLS in ("BeatRegression", "DualBeatRegression"):

  @vc("C21", f"{CLS}: an unfeasible starting point is an error",
      functions=[f"{M}:BeatRegression.fit", f"{M}:{CLS}.fit"], replay="fit")
  def unfeasible(p, w, CLS=CLS):
    p.input("cls", lambda mo: CLS)
    fit = Fit(p, w, CLS)
    p.assume(Not(fit.inside(strict=False)))
    e = raises(lambda: fit.call(fit.model.fit), ValueError)
    if not e:
      p.fail("an error", "none")
    elif fit.ls.calls:
      p.fail("an unfeasible starting point is not fitted", "it is")
    else:
      p.prove("an error", zbool(True))

  @vc("C21", f"{CLS}: a feasible starting point is fitted",
      functions=[f"{M}:BeatRegression.fit", f"{M}:{CLS}.fit"], replay="fit")
  def feasible(p, w, CLS=CLS):
    p.input("cls", lambda mo: CLS)
    dual = CLS != "BeatRegression"
    fit = Fit(p, w, CLS, **(dict(disambiguate=False) if dual else {}))
    w.patch(fit.m.beatsdrop, "ModalBeat", Beat)
    p.assume(fit.inside())
    tok = {k: Token(k) for k in ("tr_solver", "method", "loss", "max_nfev")}
    r = attempt(p, "the beat is fitted", lambda: fit.call(fit.model.fit, **tok))
    if not r:
      return
    if r[0] is not fit.model:
      p.fail("fit returns the model", repr(r[0]))
    if not arguments(fit, tok):
      return
    pr = fit.model.params_
    for j, n in enumerate(NAMES):
      p.prove(f"the parameters are those of the optimiser: {n}",
              zreal(pr[j]) == fit.out[j].z)
      p.prove(f"the beat has the parameters: {n}",
              zreal(fit.model.beat_.p[j]) == fit.out[j].z)


@vc("C21", "disambiguation", functions=[f"{M}:DualBeatRegression.fit"],
    replay="fit")
def disambiguation(p, w):
  p.input("cls", lambda mo: "DualBeatRegression")
  fit = Fit(p, w, "DualBeatRegression")
  w.patch(fit.m.beatsdrop, "ModalBeat", Beat)
  p.assume(fit.inside())
  r = attempt(p, "the beat is fitted", lambda: fit.call(fit.model.fit))
  if not r:
    return
  if not arguments(fit, {}):
    return
  got = [zreal(fit.model.params_[j]) for j in range(8)]
  out = [q.z for q in fit.out]
  for j in (0, 1, 4, 5):
    p.prove(f"{NAMES[j]} is as fitted", got[j] == out[j])
  asis = And(*[got[j] == out[j] for j in (2, 3, 6, 7)])
  cross = And(*[got[j] == out[CROSS[j]] for j in (2, 3, 6, 7)])
  p.prove("frequencies and phases are exchanged together", Or(asis, cross))
  s = [fit.ssr(out), fit.ssr([out[j] for j in CROSS])]
  p.prove("the smaller sum of squared residuals", Or(
      And(asis, s[0] <= s[1]), And(cross, s[1] <= s[0])))
  for j, n in enumerate(NAMES):
    p.prove(f"the beat has the chosen parameters: {n}",
            zreal(fit.model.beat_.p[j]) == got[j])


@vc("C21", "sorting keeps the association", functions=[f"{M}.sort_params"],
    replay="sort")
def sorting(p, w):
  m = load(w)
  x = params(p, "x")
  d = boolean(p, "descending")
  keys = [real(p, "key0"), real(p, "key1")]
  key = Rec(lambda q: tuple(keys))
  de = p.branch(d.z)
  r = attempt(p, "parameters are sorted", lambda: m.sort_params(
      x, key=key, descending=de))
  if not r:
    return
  got = octuple(p, "eight parameters", r[0])
  if got is None:
    return
  if not key.calls or any(a is not b for a, b in zip(key.calls[0][0][0], x)):
    p.fail("the key is that of the parameters", "it is not")
  k0, k1 = keys[0].z, keys[1].z
  same = And(*[got[j] == x[j].z for j in range(8)])
  swap = And(*[got[j] == x[SWAP[j]].z for j in range(8)])
  ordered = k0 > k1 if de else k0 < k1
  opposite = k0 < k1 if de else k0 > k1
  p.prove("either order", Or(same, swap))
  p.prove("sorted parameters stay", Implies(ordered, same))
  p.prove("other parameters are exchanged in pairs", Implies(opposite, swap))


@vc("C21", "sorting by energy", functions=[f"{M}.sort_params",
                                           f"{M}._param_energies"],
    replay="sort")
def energies(p, w):
  m = load(w)
  x = params(p, "x")
  d = boolean(p, "descending")
  de = p.branch(d.z)
  r = attempt(p, "parameters are sorted", lambda: m.sort_params(
      x, **(dict(descending=True) if de else {})))
  if not r:
    return
  got = octuple(p, "eight parameters", r[0])
  if got is None:
    return
  z = [q.z for q in x]
  e = [z[j] * z[j] * z[j + 4] for j in (0, 1)]
  same = And(*[got[j] == z[j] for j in range(8)])
  swap = And(*[got[j] == z[SWAP[j]] for j in range(8)])
  p.prove("either order", Or(same, swap))
  p.prove("in order of energy", Implies(e[0] < e[1], swap if de else same))
  p.prove("in order of energy: exchanged",
          Implies(e[0] > e[1], same if de else swap))
