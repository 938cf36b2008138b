"""C14: decibel conversions"""
from pyvc.api import *  # noqa: F403

M = "sample.utils.dsp"


def db(x):
  return 20 * ax.LOG10(x)


def _scalar(x):
  return not isinstance(x, N.SArr)


CONV = {
    "db2a": (lambda m: m.db2a, lambda z: ax.P10(z / 20), "f"),
    "a2db": (lambda m: m.a2db, db, "f"),
    "a2db.floorless": (lambda m: m.a2db.floorless, db, "f"),
    "complex2db": (lambda m: m.complex2db,
                   lambda c: db(ax.SQRT(c[0] * c[0] + c[1] * c[1])), "c"),
    "complex2db(real)": (lambda m: m.complex2db,
                         lambda z: db(If(z < 0, -z, z)), "f"),
}


def _z(s):
  s = lift(s)
  return (s.re, s.im) if isinstance(s, SCplx) else zreal(s)


def _mk(name):
  get, spec, k = CONV[name]
  fn = [f"{M}:{name.split('(')[0]}", "sample.utils:numpy_out"]

  @vc("C14", f"{name}: scalar", fn, replay="conv")
  def scalar(p, w):
    m = w.load(M)
    if k == "c":
      x = SCplx(fresh("x_re", "Real"), fresh("x_im", "Real"))
      p.input("x", lambda mo: evals(mo, x))
    else:
      x = real(p, "x")
    p.input("f", lambda mo: name)
    r = get(m)(x)
    if not _scalar(r):
      return p.fail("a scalar gives a scalar", "array returned")
    p.prove("a scalar gives a scalar of the documented value",
            eq(r, SReal(spec(_z(x)))))

  def arr(p, w, shape, outmode):
    m = w.load(M)
    x = array(p, "x", shape, k)
    p.input("f", lambda mo: name)
    p.input("out", lambda mo: outmode)
    old = frozen_copy(x)
    if outmode == "none":
      r = get(m)(x)
    else:
      out = x if outmode == "self" else array(p, "o", shape, "f")
      r = get(m)(x, out=out)
    prove_array(p, "documented value, element by element, in the input's "
                "shape", r, x.shape, lambda *i: SReal(spec(_z(old.at(*i)))))
    if outmode != "self":
      prove_same(p, "the input is unmodified", x, old)
    if outmode != "none":
      prove_array(p, "the output array holds the result", out, x.shape,
                  lambda *i: SReal(spec(_z(old.at(*i)))))

  if k == "f":

    @vc("C14", f"{name}: integer array", fn, replay="conv")
    def ints(p, w):
      m = w.load(M)
      n = length(p, "n", 0)
      x = array(p, "x", (n,), "i")
      p.input("f", lambda mo: name)
      old = frozen_copy(x)
      r = get(m)(x)
      prove_array(p, "documented value for integer input", r, (n,),
                  lambda i: SReal(spec(zreal(old.at(i)))))
      prove_same(p, "the input is unmodified", x, old)

  for d in (1, 2):
    for om in ("none", "other", "self"):
      if om == "self" and k == "c":
        continue

      @vc("C14", f"{name}: {d}-d array, out={om}", fn, replay="conv")
      def a(p, w, d=d, om=om):
        shape = tuple(length(p, f"n{j}", 0) for j in range(d))
        arr(p, w, shape, om)


for _n in CONV:
  _mk(_n)


@vc("C14", "db2a is the inverse of a2db on positive amplitudes",
    [f"{M}:db2a", f"{M}:a2db"], replay="inverse")
def inverse(p, w):
  m = w.load(M)
  a = real(p, "a")
  p.assume(a.z > 0)
  p.prove("db2a(a2db(a)) = a", eq(m.db2a(m.a2db(a)), a))


@vc("C14", "a2db is the inverse of db2a", [f"{M}:db2a", f"{M}:a2db"],
    replay="inverse_db")
def inverse_db(p, w):
  m = w.load(M)
  d = real(p, "d")
  p.prove("a2db(db2a(d)) = d", eq(m.a2db(m.db2a(d)), d))


def _floor(p, w, kind, floor_db, outmode="none"):
  m = w.load(M)
  kw = {}
  f = real(p, "floor")
  if not floor_db:
    p.assume(f.z > 0)
  p.input("floor_db", lambda mo: floor_db)
  p.input("kind", lambda mo: kind)
  p.input("out", lambda mo: outmode)
  lin = ax.P10(f.z / 20) if floor_db else f.z
  lev = f.z if floor_db else db(f.z)
  if kind == "complex":
    fn = m.complex2db
  else:
    fn = m.a2db
  if kind == "scalar":
    x = real(p, "x")
    r = fn(x, floor=f, floor_db=floor_db)
    mod = x.z
    if not _scalar(r):
      return p.fail("scalar result", "array")
    p.prove("floored value", eq(r, SReal(If(mod < lin, lev, db(mod)))))
    p.prove("never below the floor", r.z >= lev)
    return
  n = length(p, "n", 0)
  x = array(p, "x", (n,), "c" if kind == "complex" else "f")
  old = frozen_copy(x)
  kw = {}
  if outmode == "self":
    kw["out"] = x
  elif outmode == "other":
    kw["out"] = array(p, "o", (n,))
  r = fn(x, floor=f, floor_db=floor_db, **kw)

  def spec(i):
    v = _z(old.at(i))
    mod = ax.SQRT(v[0] * v[0] + v[1] * v[1]) if kind == "complex" else v
    return SReal(If(mod < lin, lev, db(mod)))

  prove_array(p, "floored value element by element", r, (n,), spec)
  if outmode != "self":
    prove_same(p, "the input is unmodified", x, old)
  if kw:
    prove_array(p, "the output array holds the result", kw["out"], (n,), spec)


for _k in ("scalar", "array", "complex"):
  for _fd in (False, True):
    for _om in (("none",) if _k == "scalar" else
                ("none", "other") if _k == "complex" else
                ("none", "other", "self")):

      @vc("C14", f"floor {'in dB' if _fd else 'linear'}: {_k}, out={_om}",
          [f"{M}:a2db", f"{M}:_a2db_floored", f"{M}:complex2db", f"{M}:db2a"],
          replay="floor")
      def floor(p, w, _k=_k, _fd=_fd, _om=_om):
        _floor(p, w, _k, _fd, _om)
