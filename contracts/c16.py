"""C16: A-weighting"""
from contracts.common import *  # noqa: F403

M = "sample.psycho"
FN = [f"{M}:a_weighting", "sample.utils.dsp:a2db"]


def curve(f):
  f2 = f * f
  r = ax.SQRT(z3.simplify((f2 + z3.Q(1159929, 100)) *
                          (f2 + z3.Q(54449641, 100)), som=True))
  return 148693636 * (f2 * f2) / (r * (f2 + z3.Q(42436, 100)) *
                                  (f2 + 148693636))


@vc("C16", "linear weight is the documented curve", FN, replay="curve")
def lin(p, w):
  m = w.load(M)
  f = real(p, "f")
  p.input("db", lambda mo: False)
  r = m.a_weighting(f, db=False)
  p.prove("value", eq(r, SReal(curve(f.z))))


@vc("C16", "linear weight is in [0, 1) and even", FN, replay="curve")
def rng(p, w):
  m = w.load(M)
  f = real(p, "f")
  p.input("db", lambda mo: False)
  r = m.a_weighting(f, db=False)
  g = m.a_weighting(SReal(-f.z), db=False)
  cut(p, "even", eq(r, g))
  # range of the documented curve (the value VC links it to the code)
  f2 = f.z * f.z
  a, b = z3.Q(1159929, 100), z3.Q(54449641, 100)
  S, X = fresh("S", "Real"), fresh("X", "Real")
  rr = z3.simplify((f2 + a) * (f2 + b), som=True)
  p.assume(S == ax.SQRT(rr), X == f2)
  cut(p, "f^2 >= 0", X >= 0)
  cut(p, "radicand", rr == (X + a) * (X + b))
  cut(p, "radicand exceeds f^4", (X + a) * (X + b) > X * X)
  cut(p, "root", And(S >= 0, S * S == (X + a) * (X + b)))
  p2 = fresh("G", "Real")
  cut(p, "root exceeds f^2", S > X)
  num, den = 148693636 * (X * X), S * (X + z3.Q(42436, 100)) * (X + 148693636)
  t = fresh("T", "Real")
  p.assume(t == S * (X + z3.Q(42436, 100)))
  cut(p, "partial product", And(t > X * X, t > 0))
  cut(p, "denominator", And(t * (X + 148693636) > num,
                            t * (X + 148693636) > 0))
  cut(p, "value as quotient", zreal(r) == num / (t * (X + 148693636)))
  p.prove("0 <= weight < 1", And(zreal(r) >= 0, zreal(r) < 1))


@vc("C16", "dB weight is referred to 1 kHz", FN, replay="curve")
def dbs(p, w):
  m = w.load(M)
  f = real(p, "f")
  p.assume(f.z != 0)
  p.input("db", lambda mo: True)
  p.prove("20 log10 of the ratio to the weight at 1 kHz", eq(
      m.a_weighting(f),
      SReal(20 * ax.LOG10(curve(f.z)) - 20 * ax.LOG10(
          curve(z3.RealVal(1000))))))
  p.prove("db is the default", eq(m.a_weighting(f), m.a_weighting(f, db=True)))


@vc("C16", "0 dB at 1 kHz", FN, replay="ref")
def ref(p, w):
  m = w.load(M)
  p.prove("exactly zero", eq(m.a_weighting(SReal(z3.RealVal(1000))), 0))
  p.prove("exactly zero for an integer", eq(m.a_weighting(1000), 0))


for _db in (False, True):
  elementwise("C16", f"a_weighting db={_db}",
              lambda w, x, _db=_db, **k: w.load(M).a_weighting(x, db=_db, **k),
              FN, replay="out", tag={"db": _db})
