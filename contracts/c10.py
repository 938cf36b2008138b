"""C10: hinge function, starting point, bounds, regression"""
from contracts.common import *  # noqa: F403

M = "sample.hinge"
HR = f"{M}:HingeRegression"


def hinge(x, a, k, q):
  return SReal(zreal(k) * If(zreal(x) < zreal(a), zreal(x), zreal(a)) +
               zreal(q))


@vc("C10", "hinge function of a scalar", [f"{M}:hinge_function"],
    replay="hinge")
def sc(p, w):
  m = w.load(M)
  x, a, k, q = (real(p, n) for n in "xakq")
  p.input("out", lambda mo: "none")
  r = m.hinge_function(x, a, k, q)
  if not scalar(r):
    return p.fail("a scalar gives a scalar", "")
  p.prove("k min(x, a) + q", eq(r, hinge(x, a, k, q)))


for _d in (1, 2):
  for _out in ("none", "other", "self"):
    for _k in ("f", "i") if _out == "none" and _d == 1 else ("f",):

      @vc("C10", f"hinge function of a {_d}-d {_k} array, out={_out}",
          [f"{M}:hinge_function"], replay="hinge")
      def arr(p, w, _d=_d, _out=_out, _k=_k):
        m = w.load(M)
        shape = tuple(length(p, f"n{j}", 0) for j in range(_d))
        x = array(p, "x", shape, _k)
        a, k, q = (real(p, n) for n in "akq")
        p.input("out", lambda mo: _out)
        old = frozen_copy(x)
        kw = {}
        if _out != "none":
          kw["out"] = x if _out == "self" else array(p, "o", shape)
        r = m.hinge_function(x, a, k, q, **kw)
        sp = lambda *i: hinge(old.at(*i), a, k, q)
        prove_array(p, "k min(x, a) + q at every element", r, shape, sp)
        if _out != "self":
          prove_same(p, "input unmodified", x, old)
        if _out != "none":
          prove_array(p, "output array holds the result", kw["out"], shape, sp)


def data(p, lo=0, col=True):
  n = length(p, "n", lo, small=4)
  x = array(p, "x", (n, 1) if col else (n,))
  y = array(p, "y", (n,))
  return n, x, y


for _col in (True, False):

  @vc("C10", "default starting point and bounds, "
      f"{'column' if _col else 'flat'} abscissas",
      [f"{HR}._default_bounds", f"{HR}._default_coeffs_init"],
      replay="bounds")
  def bounds(p, w, _col=_col):
    m = w.load(M)
    n, x, y = data(p, col=_col)
    k, q = real(p, "k"), real(p, "q")
    h = m.HingeRegression()
    ox, oy = frozen_copy(x), frozen_copy(y)
    e = None
    try:
      lo, hi = h.bounds(x, y, k, q)
    except ValueError as ex:
      e = ex
    if e is not None:
      return p.prove("only shorter data is rejected", n.z <= 1)
    p.prove("data shorter than two points is rejected", n.z >= 2)
    if len(lo) != 3 or len(hi) != 3:
      return p.fail("three bounds", "")
    for nm, a, b in zip("akq", lo, hi):
      p.prove(f"non-empty interval for {nm}", zreal(a) < zreal(b))
    xs = lambda i: zreal(x.at(i, 0) if _col else x.at(i))
    p.prove_all("the knee interval contains all abscissas", (n,), lambda i:
                And(zreal(lo[0]) <= xs(i), xs(i) <= zreal(hi[0])))
    p.prove("no slope of the opposite sign", Implies(k.z != 0, And(
        zreal(lo[1]) * k.z >= 0, zreal(hi[1]) * k.z >= 0)))
    p.prove("from the linear slope to eight times it", Implies(
        k.z != 0, And(zreal(lo[1]) == If(k.z < 0, 8 * k.z, k.z),
                      zreal(hi[1]) == If(k.z < 0, k.z, 8 * k.z))))
    p.prove("centred on the linear intercept",
            q.z - zreal(lo[2]) == zreal(hi[2]) - q.z)
    st = h.coeffs_init(x, y, k, q)
    if len(st) != 3:
      return p.fail("three starting values", "")
    for nm, a, s, b in zip("akq", lo, st, hi):
      p.prove(f"starting {nm} within the bounds", And(
          zreal(a) <= zreal(s), zreal(s) <= zreal(b)))
    p.prove("starts from the linear fit", And(zreal(st[1]) == k.z,
                                              zreal(st[2]) == q.z))
    prove_same(p, "abscissas unmodified", x, ox)
    prove_same(p, "ordinates unmodified", y, oy)


@vc("C10", "the minimised residual", [f"{HR}._residual"], replay="residual")
def residual(p, w):
  m = w.load(M)
  n, x, y = data(p, 2)
  par = array(p, "p", (3,))
  f = m.HingeRegression._residual(x, y)
  r = f(par)
  prove_array(p, "hinge function minus data", r, (n,), lambda i: SReal(
      zreal(hinge(x.at(i, 0), par.at(0), par.at(1), par.at(2))) -
      zreal(y.at(i))))


for _own in (False, True):

  @vc("C10", "regression " + ("with the caller's regressor, start and bounds"
                              if _own else "with the defaults"),
      [f"{HR}.fit", f"{HR}.predict", f"{HR}.a_", f"{HR}.k_", f"{HR}.q_"],
      replay="own" if _own else "fit")
  def fit(p, w, _own=_own):
    sol = array(p, "sol", (3,))
    ls = lib(w, "scipy.optimize.least_squares", Rec(Obj(x=sol)))
    m = w.load(M)
    n, x, y = data(p, 2)
    kw = {}
    if _own:
      K, Q_ = real(p, "K"), real(p, "Q")
      b0, b1 = array(p, "b0", (3,)), array(p, "b1", (3,))
      s0 = array(p, "s0", (3,))
      reg = Obj(slope=K, inter=Q_)
      reg.fit = Rec(reg)
      ci, bo = Rec((s0.at(0), s0.at(1), s0.at(2))), Rec((b0, b1))
      h = m.HingeRegression(linear_regressor=reg, linear_regressor_k="slope",
                            linear_regressor_q="inter", method="trf",
                            coeffs_init=ci, bounds=bo)
    else:
      h = m.HingeRegression()
    r = h.fit(x, y, max_nfev=7)
    p.prove("returns itself", zbool(r is h))
    if len(ls.calls) != 1:
      return p.fail("one optimisation", len(ls.calls))
    a, k = ls.calls[0]
    for nm, v in zip(("fun", "x0"), a):
      k[nm] = v
    p.prove("options are passed on", zbool(k.get("max_nfev") == 7))
    p.prove("method is passed on",
            zbool(k.get("method") == ("trf" if _own else "dogbox")))
    lo, hi = k["bounds"]
    x0 = k["x0"]
    g = lambda v, i: zreal(v.at(i) if isinstance(v, N.SArr) else v[i])
    if _own:
      for f in (ci, bo):
        if len(f.calls) != 1:
          return p.fail("the given callables are used", "")
        ar = f.calls[0][0]
        p.prove("with the data", zbool(ar[0] is x and ar[1] is y))
        p.prove("with the linear fit", And(eq(ar[2], K), eq(ar[3], Q_)))
      p.prove("regressor fitted to the data", zbool(
          len(reg.fit.calls) == 1 and reg.fit.calls[0][0][0] is x and
          reg.fit.calls[0][0][1] is y))
      wl = [zreal(b0.at(i)) for i in range(3)]
      wh = [zreal(b1.at(i)) for i in range(3)]
      w0 = [zreal(s0.at(i)) for i in range(3)]
    else:
      lr = h.linear_regressor
      K, Q_ = lr.coef_.at(0), lr.intercept_
      Q_ = Q_.at() if isinstance(Q_, N.SArr) else Q_
      wl, wh = h._default_bounds(x, y, SReal(zreal(K)), SReal(zreal(Q_)))
      w0 = h._default_coeffs_init(x, y, SReal(zreal(K)), SReal(zreal(Q_)))
      wl, wh, w0 = ([zreal(v) for v in t] for t in (wl, wh, w0))
    for i, nm in enumerate("akq"):
      p.prove(f"lower bound of {nm}", g(lo, i) == wl[i])
      p.prove(f"upper bound of {nm}", g(hi, i) == wh[i])
      p.prove(f"starting point {nm}", g(x0, i) == w0[i])
    par = array(p, "p", (3,))
    prove_array(p, "minimises hinge function minus data", k["fun"](par), (n,),
                lambda i: SReal(zreal(hinge(x.at(i, 0), par.at(0), par.at(1),
                                            par.at(2))) - zreal(y.at(i))))
    for nm, i in (("a_", 0), ("k_", 1), ("q_", 2)):
      p.prove(f"{nm} is the optimiser's solution", eq(getattr(h, nm),
                                                       sol.at(i)))
    t = real(p, "t")
    p.prove("prediction uses the solution", eq(h.predict(t), hinge(
        t, sol.at(0), sol.at(1), sol.at(2))))
