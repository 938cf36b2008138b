"""Uninterpreted real functions and the ground axioms instantiated for them.
Every axiom is a theorem of real analysis; the list is part of the trusted
base and is cross-checked numerically by selftest.py."""
import itertools

import z3

R, I = z3.RealSort(), z3.IntSort()
EXP = z3.Function("EXP", R, R)
LN = z3.Function("LN", R, R)
P10 = z3.Function("P10", R, R)
LOG10 = z3.Function("LOG10", R, R)
P2 = z3.Function("P2", R, R)
LOG2 = z3.Function("LOG2", R, R)
SQRT = z3.Function("SQRT", R, R)
SIN = z3.Function("SIN", R, R)
COS = z3.Function("COS", R, R)
SINH = z3.Function("SINH", R, R)
ASINH = z3.Function("ASINH", R, R)
ATAN = z3.Function("ATAN", R, R)
ATAN2 = z3.Function("ATAN2", R, R, R)
POWR = z3.Function("POWR", R, R, R)
IP2 = z3.Function("IP2", I, I)
BITLEN = z3.Function("BITLEN", I, I)
PI = z3.Real("PI")
LOG10_E = z3.Real("LOG10_E")

_EXPS = {"EXP": LN, "P10": LOG10, "P2": LOG2}
_LOGS = {"LN": EXP, "LOG10": P10, "LOG2": P2}

DOC = [
    "exp, 10^x, 2^x: positive, strictly increasing, value 1 at 0; value at 1 "
    "where the base is rational; log is the inverse on positive reals, "
    "strictly increasing there, 0 at 1",
    "sqrt: non-negative, squares back, increasing; sqrt(x)=x iff x in {0,1}",
    "sin^2+cos^2=1 (same argument), |sin|,|cos|<=1, sin 0=0, cos 0=1",
    "sinh/arcsinh: mutually inverse, strictly increasing, 0 at 0",
    "arctan: strictly increasing, odd at 0, |arctan|<pi/2",
    "arctan2(0, x) is 0 for x >= 0 and pi for x < 0; -pi < arctan2 <= pi",
    "x^p: positive for x>0, x^1=x, increasing in x for p>0, "
    "0^p=0 for p>0, (x^p)^(1/p)=x for x>=0, p>0",
    "2^n (integer): positive, IP2(0)=1, strictly increasing, doubling",
    "3.14159 < pi < 3.1416; 0.4342 < log10 e < 0.4343",
]


def instances(idx, done):
  out = []
  apps = idx.apps
  has_pi, has_e = "PI" in idx.consts, "LOG10_E" in idx.consts

  def once(key, *fs):
    if key not in done:
      done.add(key)
      out.extend(fs)

  if has_pi:
    once(("pi",), PI > z3.Q(314159, 100000), PI < z3.Q(31416, 10000))
  if has_e:
    once(("l10e",), LOG10_E > z3.Q(4342, 10000), LOG10_E < z3.Q(4343, 10000))

  def pairs(name, f, limit=14):
    es = list(apps.get(name, {}).values())[:limit]
    for a, b in itertools.combinations(es, 2):
      key = (name, "pair", a.get_id(), b.get_id())
      if key not in done:
        done.add(key)
        out.extend(f(a, b))

  for n, inv in _EXPS.items():
    for i, e in apps.get(n, {}).items():
      x = e.arg(0)
      once((n, i), e > 0, inv(e) == x, z3.Implies(x == 0, e == 1),
           (e > 1) == (x > 0), z3.Implies(x == 1, e == {"P10": 10, "P2": 2}.get(n, e)))
    pairs(n, lambda a, b: [(a.arg(0) < b.arg(0)) == (a < b),
                           (a.arg(0) == b.arg(0)) == (a == b)])
  for n, inv in _LOGS.items():
    for i, e in apps.get(n, {}).items():
      x = e.arg(0)
      once((n, i), z3.Implies(x > 0, inv(e) == x),
           z3.Implies(x > 0, (e > 0) == (x > 1)), z3.Implies(x == 1, e == 0),
           z3.Implies(x == {"LOG10": 10, "LOG2": 2}.get(n, -1), e == 1))
    pairs(n, lambda a, b: [
        z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0),
                   z3.And((a.arg(0) < b.arg(0)) == (a < b),
                          (a.arg(0) == b.arg(0)) == (a == b)))
    ])
  for i, e in apps.get("SQRT", {}).items():
    x = e.arg(0)
    once(("SQRT", i), z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)),
         z3.Implies(x > 0, e > 0))
  pairs("SQRT", lambda a, b: [
      z3.Implies(z3.And(a.arg(0) >= 0, b.arg(0) >= 0),
                 (a.arg(0) < b.arg(0)) == (a < b))
  ])
  for n in ("SIN", "COS"):
    for i, e in apps.get(n, {}).items():
      x = e.arg(0)
      s, c = SIN(x), COS(x)
      once(("trig", x.get_id()), s * s + c * c == 1, s <= 1, s >= -1, c <= 1,
           c >= -1, z3.Implies(x == 0, z3.And(s == 0, c == 1)))
  for i, e in apps.get("SINH", {}).items():
    x = e.arg(0)
    once(("SINH", i), ASINH(e) == x, (e > 0) == (x > 0), (e == 0) == (x == 0))
  for i, e in apps.get("ASINH", {}).items():
    x = e.arg(0)
    once(("ASINH", i), SINH(e) == x, (e > 0) == (x > 0), (e == 0) == (x == 0))
  for n in ("SINH", "ASINH", "ATAN"):
    pairs(n, lambda a, b: [(a.arg(0) < b.arg(0)) == (a < b),
                           (a.arg(0) == b.arg(0)) == (a == b)])
  for i, e in apps.get("ATAN", {}).items():
    x = e.arg(0)
    once(("ATAN", i), (e > 0) == (x > 0), (e == 0) == (x == 0), e < PI / 2,
         e > -PI / 2, PI > z3.Q(314159, 100000), PI < z3.Q(31416, 10000))
  for i, e in apps.get("ATAN2", {}).items():
    y, x = e.arg(0), e.arg(1)
    once(("ATAN2", i), z3.Implies(z3.And(y == 0, x >= 0), e == 0), e <= PI,
         e > -PI, z3.Implies(z3.And(y == 0, x < 0), e == PI),
         PI > z3.Q(314159, 100000), PI < z3.Q(31416, 10000))
  for i, e in apps.get("POWR", {}).items():
    x, p = e.arg(0), e.arg(1)
    once(("POWR", i), z3.Implies(x > 0, e > 0), z3.Implies(p == 1, e == x),
         z3.Implies(z3.And(x == 0, p > 0), e == 0),
         z3.Implies(z3.And(x >= 0, p == 2), e == x * x))
    # (x^p)^q with p*q == 1
    if z3.is_app(x) and x.decl().name() == "POWR":
      y, q = x.arg(0), x.arg(1)
      once(("POWRinv", i),
           z3.Implies(z3.And(y >= 0, q > 0, p * q == 1), e == y))
  for i, e in apps.get("IP2", {}).items():
    n = e.arg(0)
    once(("IP2", i), z3.Implies(n >= 0, e >= 1), z3.Implies(n == 0, e == 1),
         z3.Implies(n == 1, e == 2), z3.Implies(n >= 0, IP2(n + 1) == 2 * e)
         if not _is_plus1(n) else z3.BoolVal(True))
  pairs("IP2", lambda a, b: [
      z3.Implies(z3.And(a.arg(0) >= 0, b.arg(0) >= 0),
                 (a.arg(0) < b.arg(0)) == (a < b))
  ])
  for i, e in apps.get("BITLEN", {}).items():
    n = e.arg(0)
    once(("BITLEN", i), z3.Implies(n == 0, e == 0),
         z3.Implies(n > 0, z3.And(e >= 1, IP2(e - 1) <= n, n < IP2(e))))
  return out


def _is_plus1(n):
  return z3.is_add(n) and any(z3.is_int_value(c) for c in n.children())
