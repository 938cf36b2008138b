"""C20: the beat model"""
from contracts.common import *  # noqa: F403

M = "sample.beatsdrop"
FN = [f"{M}:Beat.{k}" for k in ("__init__", "_define_base_graph",
                                "_define_am", "_define_fm", "compute")] + [
                                    f"{M}:_float_or_call"]
FD = [f"{M}:ExponentialDecay.__init__", f"{M}:ExponentialDecay.__call__",
      f"{M}:ExponentialDecay.dt"]


def curve(name, out):
  """An arbitrary function of time, as a numpy-like callable"""
  f = z3.Function(name, z3.RealSort(), z3.RealSort())

  def value(t):
    if isinstance(t, N.SArr):
      e = t.elem()
      return N.SArr(t.shape, lambda *i: SReal(f(zreal(e(*i)))), "f")
    return SReal(f(zreal(t)))

  if not out:
    return f, lambda t: value(t)

  def call(t, out=None):
    r = value(t)
    if out is None:
      return r
    N.assign(out, r)
    return out

  return f, call


class Amp:
  """Amplitude with a derivative"""

  def __init__(self, p, j, out):
    self.f, self.call = curve(f"A{j}", out)
    self.df, self.dt = curve(f"dA{j}", out)
    self.__call__ = None

  def __call__(self, *a, **k):
    return self.call(*a, **k)


def amp(p, kind, j):
  """(argument, value at t, derivative at t)"""
  if kind == "constant":
    v = real(p, f"a{j}")
    return v, lambda t: v.z, lambda t: z3.RealVal(0)
  f, call = curve(f"A{j}", kind == "with out")
  df, dcall = curve(f"dA{j}", kind == "with out")

  class A:
    __call__ = staticmethod(call)
    dt = staticmethod(dcall)

  return A(), lambda t: f(t), lambda t: df(t)


def quantities(p, t, A, dA, f, ph):
  """Ground quantities at time t and the trigonometric identities used"""
  th = [V._norm(2 * V.PI * f[j].z * t + ph[j].z) for j in (0, 1)]
  d = V._norm(2 * V.PI * (f[0].z - f[1].z) * t + ph[0].z - ph[1].z)
  h = V._norm(V.PI * (f[0].z - f[1].z) * t + (ph[0].z - ph[1].z) / 2)
  C, S = ax.COS(d), ax.SIN(d)
  c, s = [ax.COS(x) for x in th], [ax.SIN(x) for x in th]
  # trigonometric identities (trusted base)
  half = C == 2 * ax.COS(h) * ax.COS(h) - 1
  p.assume(half)
  dbl = S == 2 * ax.SIN(h) * ax.COS(h)
  p.assume(dbl)
  rel = [C == c[0] * c[1] + s[0] * s[1], S == s[0] * c[1] - c[0] * s[1]]
  p.assume(*rel)
  return half, dbl, rel, C, S, c, s


KINDS = [("constant", "constant"), ("with out", "without out"),
         ("with out", "constant"), ("constant", "without out")]

for _k in KINDS:
  for _d in (0, 1):

    @vc("C20", f"amplitudes {_k[0]}/{_k[1]}, "
        f"{'time axis' if _d else 'one time'}", FN, replay="beat")
    def beat(p, w, _k=_k, _d=_d):
      m = w.load(M)
      f = [real(p, f"f{j}") for j in (0, 1)]
      ph = [real(p, f"p{j}") for j in (0, 1)]
      a = [amp(p, _k[j], j) for j in (0, 1)]
      p.input("kind", lambda mo: list(_k))
      b = m.Beat(a0=a[0][0], a1=a[1][0], f0=f[0], f1=f[1], p0=ph[0], p1=ph[1])
      if _d:
        n = length(p, "n", 0)
        t = array(p, "t", (n,))
      else:
        t = real(p, "t")
      am, fm = b.compute(t, ["am", "fm"])
      al = b.alpha2(t)
      if _d:
        for v, nm in ((am, "am"), (fm, "fm"), (al, "alpha2")):
          if not isinstance(v, N.SArr) or v.ndim != 1:
            return p.fail("one value per time", nm)
          p.prove(f"{nm}: one value per time", eq(v.shape[0], n))
        i = fresh("i")
        p.reg(i)
        p.assume(And(i >= 0, i < n.z))
        T, at = zreal(t.at(i)), lambda v: zreal(v.at(i))
      else:
        if not scalar(am) or not scalar(fm):
          return p.fail("a number for a number", "")
        T, at = t.z, zreal
      A, D = [x[1](T) for x in a], [x[2](T) for x in a]
      half, dbl, rel, C, S, c, s = quantities(p, T, A, D, f, ph)
      AM, FM, AL = at(am), at(fm), at(al)
      E = A[0] * A[0] + A[1] * A[1] + 2 * A[0] * A[1] * C
      four = 4 * AL == E
      p.combine("four times the squared half-amplitude is the squared modulus",
                4 * AL, E, [(-2 * A[0] * A[1], half)])
      pyth = C * C + S * S == 1
      p.assume(pyth)
      u, v = A[0] + A[1] * C, A[1] * S
      sq = E == u * u + v * v
      p.combine("lemma: sum of squares", E, u * u + v * v,
                [(-A[1] * A[1], pyth)])
      pos = E >= 0
      p.algebra("the squared modulus is not negative", [sq], pos)
      mod = AM == 2 * ax.SQRT(AL)
      cut(p, "amplitude modulation is 2 sqrt(alpha2)", mod)
      r2 = And(ax.SQRT(AL) >= 0, ax.SQRT(AL) * ax.SQRT(AL) == AL)
      p.algebra("alpha2 is not negative", [four, pos], AL >= 0)
      p.assume(r2)  # square root of a non-negative number
      p.algebra("squared amplitude modulation", [mod, r2, four], AM * AM == E)
      p.algebra("amplitude modulation is not negative", [mod, r2], AM >= 0)
      # frequency: derivative of the phase of x + iy
      W = [2 * V.PI * v.z for v in f]
      x = sum(A[j] * c[j] for j in (0, 1))
      y = sum(A[j] * s[j] for j in (0, 1))
      dx = sum(D[j] * c[j] - A[j] * W[j] * s[j] for j in (0, 1))
      dy = sum(D[j] * s[j] + A[j] * W[j] * c[j] for j in (0, 1))
      one = [c[j] * c[j] + s[j] * s[j] == 1 for j in (0, 1)]
      p.assume(*one)
      AA = A[0] * A[1]
      p.combine("lemma: modulus of the sum", x * x + y * y, E, [
          (A[0] * A[0], one[0]), (A[1] * A[1], one[1]),
          (-2 * AA, rel[0])])
      G = W[0] * A[0] * A[0] + W[1] * A[1] * A[1] + AA * (
          W[0] + W[1]) * C + (D[0] * A[1] - D[1] * A[0]) * S
      p.combine("lemma: x y' - y x'", x * dy - y * dx, G, [
          (W[0] * A[0] * A[0], one[0]),
          (W[1] * A[1] * A[1], one[1]),
          (-AA * (W[0] + W[1]), rel[0]),
          (-(D[0] * A[1] - D[1] * A[0]), rel[1])])
      nz = E != 0
      p.assume(nz)
      p.rational("angular frequency is the derivative of the phase of the sum",
                 FM * E, G, [four, nz], [half, dbl])


@vc("C20", "amplitude without derivative is rejected", FN)
def no_dt(p, w):
  m = w.load(M)
  for j in (0, 1):
    p.prove(f"a{j} without derivative", zbool(raises(
        lambda: m.Beat(**{f"a{j}": lambda t: t}), AttributeError) is not None))


@vc("C20", "model signal", FN, replay="signal")
def signal(p, w):
  m = w.load(M)
  f = [real(p, f"f{j}") for j in (0, 1)]
  ph = [real(p, f"p{j}") for j in (0, 1)]
  a = [amp(p, "with out", j) for j in (0, 1)]
  b = m.Beat(a0=a[0][0], a1=a[1][0], f0=f[0], f1=f[1], p0=ph[0], p1=ph[1])
  n = length(p, "n", 1)
  t = array(p, "t", (n,))
  x, am, pm, fm = b.compute(t, ["x", "am", "pm", "fm"])
  prove_array(p, "the signal is am cos(pm)", x, (n,), lambda i: SReal(
      zreal(am.at(i)) * ax.COS(V._norm(zreal(pm.at(i))))))
  k = fresh("k")
  p.reg(k)
  p.prove("the phase integrates the frequency (trapezoids)", Implies(
      And(k >= 0, k + 1 < n.z), zreal(pm.at(k + 1)) - zreal(pm.at(k)) ==
      (zreal(t.at(k + 1)) - zreal(t.at(k))) *
      (zreal(fm.at(k + 1)) + zreal(fm.at(k))) / 2))
  # at time zero the phase is that of the sum of the partials
  z = z3.RealVal(0)
  A = [q[1](z) for q in a]
  ao, ah = (A[0] + A[1]) / 2, (A[0] - A[1]) / 2
  po = (ph[0].z + ph[1].z) / 2
  hh = V._norm((ph[0].z - ph[1].z) / 2)
  p.prove("initial phase", zreal(pm.at(IntVal(0))) == po + ax.ATAN2(
      V._norm(ah * ax.SIN(hh)), V._norm(ao * ax.COS(hh))))


def decay(w, t, k, a, d, **kw):
  e = w.load(M).ExponentialDecay(a, d)
  return (e.dt if k else e)(t, **kw)


for _dt in (False, True):

  @vc("C20", f"exponential decay{' derivative' if _dt else ''}", FD,
      replay="decay")
  def exp_decay(p, w, _dt=_dt):
    a, d, t = real(p, "a"), real(p, "d"), real(p, "x")
    p.assume(d.z != 0)
    p.input("dt", lambda mo: _dt)
    p.input("out", lambda mo: "none")
    v = a.z * ax.EXP(V._norm(-2 * t.z / d.z))
    r = decay(w, t, _dt, a, d)
    if not scalar(r):
      return p.fail("a scalar gives a scalar", "array returned")
    p.prove("value", eq(r, SReal(-2 / d.z * v if _dt else v)))

  for _out in ("none", "other", "self"):
    for _kd in ("f", "i") if _out == "none" else ("f",):

      @vc("C20", f"exponential decay{' derivative' if _dt else ''} of {_kd} "
          f"times, out={_out}", FD, replay="decay")
      def exp_arr(p, w, _dt=_dt, _out=_out, _kd=_kd):
        n = length(p, "n", 0)
        a, d, t = real(p, "a"), real(p, "d"), array(p, "x", (n,), _kd)
        p.assume(d.z != 0)
        p.input("dt", lambda mo: _dt)
        p.input("out", lambda mo: _out)
        old = frozen_copy(t)
        kw = {}
        if _out != "none":
          kw["out"] = t if _out == "self" else array(p, "o", (n,))
        r = decay(w, t, _dt, a, d, **kw)

        def sp(i):
          v = a.z * ax.EXP(V._norm(-2 * zreal(old.at(i)) / d.z))
          return SReal(-2 / d.z * v if _dt else v)

        prove_array(p, "value at every time", r, (n,), sp)
        if _out != "none":
          prove_array(p, "output array", kw["out"], (n,), sp)
        if _out != "self":
          prove_same(p, "times unmodified", t, old)


@vc("C20", "modal beat", [f"{M}:ModalBeat.__init__"] + FD + FN,
    replay="modal")
def modal(p, w):
  m = w.load(M)
  v = {f"{k}{j}": real(p, f"{k}{j}") for k in "afdp" for j in (0, 1)}
  for j in (0, 1):
    p.assume(v[f"d{j}"].z != 0)
  b = m.ModalBeat(**v)
  t = real(p, "t")
  for j in (0, 1):
    e = ax.EXP(V._norm(-2 * t.z / v[f"d{j}"].z))
    a = v[f"a{j}"].z * e
    p.prove(f"amplitude {j}", eq(getattr(b, f"a{j}")(t), SReal(a)))
    p.prove(f"amplitude {j} derivative", eq(
        getattr(b, f"da{j}_dt")(t), SReal(-2 / v[f"d{j}"].z * a)))
    for k in "fp":
      p.prove(f"{k}{j}", eq(getattr(b, f"{k}{j}")(t), v[f"{k}{j}"]))
  pos = m.ModalBeat(*[v[k] for k in ("a0", "a1", "f0", "f1", "d0", "d1", "p0",
                                     "p1")])
  for k in ("a0", "a1", "f0", "f1", "p0", "p1", "da0_dt", "da1_dt"):
    p.prove(f"positional {k}", eq(getattr(pos, k)(t), getattr(b, k)(t)))
