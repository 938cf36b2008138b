"""C31: normalisation, local maxima, spectral flux, onsets"""
from contracts.common import *  # noqa: F403
from pyvc import nparr as N

M = "sample.utils.dsp"


def abs_(z):
  return If(z >= 0, z, -z)


def signal_(p, k, nontrivial):
  n = length(p, "n", 1)
  x = array(p, "x", (n,), k)
  W = fresh("W")
  p.reg(W)
  p.assume(W >= 0, W < n.z)
  if nontrivial == "nonzero":
    p.assume(zreal(x.at(W)) != 0)
  elif nontrivial == "varies":
    V2 = fresh("V")
    p.reg(V2)
    p.assume(V2 >= 0, V2 < n.z, zreal(x.at(W)) != zreal(x.at(V2)))
  return n, x


def norm_vc(mode, nontrivial, spec):
  fn = {"peak": f"{M}:normalize", "rms": f"{M}:_normalize_rms",
        "range": f"{M}:_normalize_range"}[mode]
  for k in "fi":
    for om in ("none", "other", "self"):
      if k == "i" and om == "self":
        continue

      @vc("C31", f"normalize {mode}: {k} input, out={om}", [fn],
          replay="normalize")
      def nv(p, w, k=k, om=om):
        m = w.load(M)
        n, x = signal_(p, k, nontrivial)
        p.input("mode", lambda mo: mode)
        p.input("out", lambda mo: om)
        old = frozen_copy(x)
        kw = {}
        if om != "none":
          kw["out"] = x if om == "self" else array(p, "o", (n,))
        r = m.normalize(x, mode=mode, **kw) if mode != "peak" else \
            m.normalize(x, **kw)
        spec(p, n, old, r)
        if om != "self":
          prove_same(p, "the input is unmodified", x, old)
        if om != "none":
          prove_same(p, "the output array holds the result", kw["out"],
                     frozen_copy(r))


def peak(p, n, x, r):
  top = N.reduce_ext(N.UF["absolute"](x), which="max")
  prove_array(p, "divided by the largest absolute value", r, (n,),
              lambda i: SReal(zreal(x.at(i)) / zreal(top)))
  p.prove_all("never above one", (n,), lambda i: And(
      r.at(i).z <= 1, r.at(i).z >= -1))


def rms(p, n, x, r):
  mu, sd = zreal(N.mean(x)), zreal(N.std(x))
  # the deviation of the differences from the mean is the same
  d = sum_shift(p, x, mu)
  cut(p, "differences from the mean have mean zero",
      zreal(N.mean(d)) == 0)
  cut(p, "and the same deviation", zreal(N.std(d)) == sd)
  flat = p.branch(sd == 0)
  prove_array(p, "mean removed, divided by the deviation", r, (n,),
              lambda i: SReal((zreal(x.at(i)) - mu) /
                              (z3.RealVal(1) if flat else sd)))


def rng(p, n, x, r):
  lo, hi = N.reduce_ext(x, which="min"), N.reduce_ext(x, which="max")
  l, h = zreal(lo), zreal(hi)
  cut(p, "varies", h > l)
  prove_array(p, "affine map of minimum and maximum to 0 and 1", r, (n,),
              lambda i: SReal((zreal(x.at(i)) - l) / (h - l)))
  p.prove_all("between 0 and 1", (n,), lambda i: And(r.at(i).z <= 1,
                                                     r.at(i).z >= 0))


norm_vc("peak", "nonzero", peak)
norm_vc("rms", "any", rms)
norm_vc("range", "varies", rng)


@vc("C31", "normalize: the mode selects the normalisation", [f"{M}:normalize"])
def modes(p, w):
  m = w.load(M)
  n, x = signal_(p, "f", "nonzero")
  a = m.normalize(x)
  prove_same(p, "peak by default", m.normalize(x, mode="peak"), a)
  p.prove("unknown mode", zbool(raises(
      lambda: m.normalize(x, mode="other"), Exception) is not None))


def above(x, key, n, w):
  """at[i]: some sample of key within w of i is larger than x[i]"""
  return N.any_(N.SArr((n - 2 * w, 2 * w + 1), lambda o, k: SBool(
      zreal(key.at(o + k)) > zreal(x.at(o + N.zi(w)))), "b"), axis=-1)


def is_max(x, key, n, w):
  nz, wz = N.zi(n), N.zi(w)
  a = above(x, key, n, w)
  return lambda i: And(i >= wz, i < nz - wz, Not(a.at(i - wz).z))


def maxima_vc(with_key, land, om):

  @vc("C31", f"local_maxima: key={with_key}, logical_and={land}, out={om}",
      [f"{M}:local_maxima"], replay="local_maxima")
  def mx(p, w):
    m = w.load(M)
    r = length(p, "w", 1)
    n = length(p, "n", 1, small=14)
    p.assume(n.z >= 2 * r.z + 1)
    x = array(p, "x", (n,))
    key = array(p, "key", (n,)) if with_key else x
    old, oldk = frozen_copy(x), frozen_copy(key)
    kw = {"key": key} if with_key else {}
    if land:
      kw["logical_and"] = True
    was = None
    if om:
      kw["out"] = array(p, "o", (n,), "b")
      was = frozen_copy(kw["out"])
    p.input("land", lambda mo: land)
    g = m.local_maxima(x, w=r, **kw)
    if not isinstance(g, N.SArr):
      return p.fail("array", "not an array")
    p.prove("of booleans", zbool(g.kind == "b"))
    sp = is_max(old, oldk, n, r)
    if land and om:
      full = lambda i: And(sp(i), was.at(i).z)
    elif land:
      full = None
    else:
      full = sp
    if full:
      prove_array(p, "largest within the window, not at the ends", g, (n,),
                  lambda i: SBool(full(i)))
    prove_same(p, "input unmodified", x, old)
    if with_key:
      prove_same(p, "key unmodified", key, oldk)
    if om:
      prove_same(p, "the output array holds the result", kw["out"],
                 frozen_copy(g))
    if not with_key and not land and not om:
      d = m.local_maxima(x)
      s1 = is_max(old, oldk, n, 1)
      prove_array(p, "radius one by default", d, (n,),
                  lambda i: SBool(s1(i)))


for _k in (False, True):
  for _l, _o in ((False, False), (False, True), (True, True)):
    maxima_vc(_k, _l, _o)


def flux_of(x, nf, nt):
  t = N.sum_term(nf, lambda o, f: If(
      abs_(zreal(x.at(f, o[0] + 1))) > abs_(zreal(x.at(f, o[0]))),
      abs_(zreal(x.at(f, o[0] + 1))) - abs_(zreal(x.at(f, o[0]))), 0), 1)
  return t


@vc("C31", "spectral flux of a matrix", [f"{M}:spectral_flux_from_tf"],
    replay="flux")
def flux(p, w):
  m = w.load(M)
  nf, nt = length(p, "nf", 1), length(p, "nt", 2)
  x = array(p, "x", (nf, nt))
  old = frozen_copy(x)
  r = m.spectral_flux_from_tf(x)
  spec = N.reduce_sum(N.SArr((nt - 1, nf), lambda t, f: SReal(N.zmax(
      abs_(old.at(f, t + 1).z) - abs_(old.at(f, t).z), z3.RealVal(0))), "f"),
      axis=1)
  prove_array(p, "sum of positive increments", r, (nt - 1,),
              lambda t: spec.at(t))
  prove_same(p, "input unmodified", x, old)


@vc("C31", "spectral flux of a complex matrix",
    [f"{M}:spectral_flux_from_tf"], replay="flux")
def cflux(p, w):
  m = w.load(M)
  nf, nt = length(p, "nf", 1), length(p, "nt", 2)
  x = array(p, "x", (nf, nt), "c")
  old = frozen_copy(x)
  mag = N.UF["absolute"](x)
  r = m.spectral_flux_from_tf(x)
  spec = N.reduce_sum(N.SArr((nt - 1, nf), lambda t, f: SReal(N.zmax(
      mag.at(f, t + 1).z - mag.at(f, t).z, z3.RealVal(0))), "f"),
      axis=1)
  prove_array(p, "sum of positive increments", r, (nt - 1,),
              lambda t: spec.at(t))
  prove_same(p, "input unmodified", x, old)


@vc("C31", "spectral flux of a signal", [f"{M}:spectral_flux"],
    replay="flux_sig")
def sflux(p, w):
  m = w.load(M)
  w.patch(m, "spectral_flux_from_tf", Rec(lambda x: ("flux", x)))
  x = array(p, "x", (length(p, "n", 1),))
  tf = Rec(("f", "t", "z"))
  r = m.spectral_flux(x, tf, nperseg=3)
  p.prove("flux of the last output", zbool(r == ("flux", "z")))
  p.prove("transform of the signal, once, with the options", zbool(
      len(tf.calls) == 1 and len(tf.calls[0][0]) == 1 and
      tf.calls[0][0][0] is x and tf.calls[0][1] == {"nperseg": 3}))


def envelope(p, x, n, alpha):
  """g[k] = max(x[k], alpha g[k-1] + (1 - alpha) x[k]), g[-1] = 0"""
  G = fresh_fn("G", z3.IntSort(), z3.RealSort())
  p.assume(G(-1) == 0)

  def step(k):
    f = zreal(x.at(k))
    y = alpha.z * G(k - 1) + (1 - alpha.z) * f
    return Implies(And(k >= 0, k < n.z), G(k) == If(f >= y, f, y))

  p.fact(step, 1, "envelope")
  return G


def env_loops(p, G):
  p.loop_specs = [
      ForRoles(lambda i, n: [G(i - 1)],
               arrays=lambda i, n: [lambda v, k: Implies(
                   k < i, zreal(v) == G(k))])]


@vc("C31", "envelope of the detection function", [f"{M}:_onset_selection_g"],
    replay="envelope")
def env(p, w):
  m = w.load(M)
  n = length(p, "n", 0)
  x = array(p, "x", (n,))
  a = real(p, "alpha")
  old = frozen_copy(x)
  G = envelope(p, old, n, a)
  env_loops(p, G)
  r = m._onset_selection_g(x, alpha=a)
  prove_array(p, "recursive envelope", r, (n,), lambda k: SReal(G(k)))
  prove_same(p, "input unmodified", x, old)


def average(x, n, w, mm, delta):
  """Mean over [i - mm w, i + w] plus delta where the window fits"""
  wz, mz = N.zi(w), N.zi(mm)
  size = (mm + 1) * w + 1
  s = N.mean(N.SArr((n - size + 1, size), lambda o, k: SReal(
      zreal(x.at(o + k))), "f"), axis=-1)
  return lambda i: If(And(i >= mz * wz, i < N.zi(n) - wz),
                      zreal(s.at(i - mz * wz)), 0) + delta.z


def windows_(p, mm):
  r = length(p, "w", 1)
  n = length(p, "n", 1, small=16)
  p.input("m", lambda mo: mm)
  p.assume(n.z >= (mm + 1) * r.z + 1)
  return r, n


for _m in (0, 1, 2, 3):

  @vc("C31", f"local average, m={_m}", [f"{M}:_onset_selection_m"],
      replay="average")
  def avg(p, w, mm=_m):
    m = w.load(M)
    r, n = windows_(p, mm)
    x = array(p, "x", (n,))
    d = real(p, "delta")
    old = frozen_copy(x)
    sp = average(old, n, r, mm, d)
    g = m._onset_selection_m(x, w=r, m=mm, delta=d)
    prove_array(p, "mean of the window plus the threshold", g, (n,),
                lambda i: SReal(sp(i)))
    prove_same(p, "input unmodified", x, old)


for _m in (1, 3):

  @vc("C31", f"onset selection, m={_m}",
      [f"{M}:onset_selection", f"{M}:_onset_selection_g",
       f"{M}:_onset_selection_m", f"{M}:local_maxima"], replay="selection")
  def sel(p, w, mm=_m):
    m = w.load(M)
    r, n = windows_(p, mm)
    x = array(p, "x", (n,))
    old = frozen_copy(x)
    a, d = real(p, "alpha"), real(p, "delta")
    xn = array(p, "xn", (n,))
    oldn = frozen_copy(xn)

    def nz(y, mode=None, out=None):
      same = isinstance(y, N.SArr) and y.ndim == 1 and \
          p.valid(N.zi(y.shape[0]) == n.z)
      if not same or mode != "rms" or out is not None:
        raise Unsupported("normalisation used otherwise")
      prove_same(p, "the function is normalised", y, old)
      return xn

    w.patch(m, "normalize", nz)
    G = envelope(p, oldn, n, a)
    env_loops(p, G)
    sp = is_max(old, old, n, r)
    av = average(oldn, n, r, mm, d)
    g = m.onset_selection(x, w=r, m=mm, alpha=a, delta=d)
    if not isinstance(g, N.SArr):
      return p.fail("array", "not an array")
    p.prove("of booleans", zbool(g.kind == "b"))
    prove_array(p, "all three conditions", g, (n,), lambda i: SBool(And(
        sp(i), oldn.at(i).z >= G(i - 1), oldn.at(i).z >= av(i))))
    prove_same(p, "input unmodified", x, old)


@vc("C31", "onset detection", [f"{M}:onset_detection"], replay="detection")
def det(p, w):
  m = w.load(M)
  X, n = length(p, "X", 1), length(p, "n", 1)
  x = array(p, "x", (X,))
  old = frozen_copy(x)
  f = array(p, "f", (n,))
  s = array(p, "s", (n,), "b")
  r, mm = integer(p, "w", lo=1), integer(p, "m", lo=0)
  a, d = real(p, "alpha"), real(p, "delta")
  sel_ = Rec(lambda *q, **k: s)
  w.patch(m, "onset_selection", sel_)
  fn = Rec(lambda *q, **k: f)
  g = m.onset_detection(x, fn, w=r, m=mm, alpha=a, delta=d, opt=1)
  p.prove("detection function of the signal with the options", zbool(
      len(fn.calls) == 1 and len(fn.calls[0][0]) == 1 and
      fn.calls[0][0][0] is x and fn.calls[0][1] == {"opt": 1}))
  ok = len(sel_.calls) == 1
  if ok:
    q, k = sel_.calls[0]
    names = ("x", "w", "m", "alpha", "delta")
    k = dict(zip(names, q), **k)
    ok = k["x"] is f and all(
        k.get(u) is v for u, v in (("w", r), ("m", mm), ("alpha", a),
                                   ("delta", d)))
  p.prove("selection of the function with the parameters", zbool(ok))
  if not isinstance(g, N.SArr):
    return p.fail("array", "not an array")
  p.prove("of booleans", zbool(g.kind == "b"))
  pos = lambda k: z3.ToInt(z3.ToReal(k * X.z) / z3.ToReal(n.z))
  sp = N.any_(N.SArr((X, n), lambda j, k: SBool(And(
      s.at(k).z, pos(k) == j)), "b"), axis=-1)
  prove_array(p, "positions proportional to the selected features", g, (X,),
              lambda j: sp.at(j))
  prove_same(p, "input unmodified", x, old)
