#!/usr/bin/env python3
"""selftest.py: numerical check of every axiom instance of pyvc/axioms.py.
Ground applications at a grid of points (edge cases included) are given to the
instantiation and every formula that comes out is evaluated with Python floats.
Run with python3-vt."""
import math
import os
import sys
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3

from pyvc import axioms as ax

SKIP = object()


def partial(f):

  def g(*a):
    try:
      r = f(*a)
    except (ValueError, ZeroDivisionError, OverflowError):
      return SKIP
    return SKIP if isinstance(r, complex) or r != r else r

  return g


F = {
    "EXP": math.exp, "LN": math.log, "P10": lambda x: 10.**x,
    "LOG10": math.log10, "P2": lambda x: 2.**x, "LOG2": math.log2,
    "SQRT": math.sqrt, "SIN": math.sin, "COS": math.cos, "SINH": math.sinh,
    "ASINH": math.asinh, "ATAN": math.atan,
    "ATAN2": lambda y, x: math.atan2(y, x),
    "POWR": lambda x, p: float(x)**p,
    "IP2": lambda n: SKIP if n < 0 else 2**n,
    "BITLEN": lambda n: SKIP if n < 0 else int(n).bit_length(),
}
F = {k: partial(v) for k, v in F.items()}
EPS = 1e-9


def close(a, b):
  return a == b or abs(a - b) <= EPS * max(1, abs(a), abs(b))


def ev(e):
  """Value; of a formula True, False or SKIP (outside of the domain, or too
  close to call)"""
  k = e.decl().kind()
  c = [ev(x) for x in e.children()] if k != z3.Z3_OP_ITE else None
  if z3.is_rational_value(e) or z3.is_int_value(e):
    return float(e.as_fraction()) if z3.is_rational_value(e) else e.as_long()
  n = e.decl().name()
  if z3.is_true(e) or z3.is_false(e):
    return z3.is_true(e)
  if n in F:
    return SKIP if SKIP in c else F[n](*c)
  if n == "PI":
    return math.pi
  if n == "LOG10_E":
    return math.log10(math.e)
  if k == z3.Z3_OP_IMPLIES:
    if c[0] is False or c[1] is True:
      return True
    return SKIP if SKIP in c else False
  if k == z3.Z3_OP_AND:
    return False if False in [x for x in c if x is not SKIP] else \
        SKIP if SKIP in c else True
  if k == z3.Z3_OP_OR:
    return True if any(x is True for x in c) else SKIP if SKIP in c else False
  if SKIP in c:
    return SKIP
  if k == z3.Z3_OP_NOT:
    return not c[0]
  if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
    if isinstance(c[0], bool):
      return c[0] == c[1]
    return close(*c)
  if k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE):
    a, b = c if k in (z3.Z3_OP_LT, z3.Z3_OP_LE) else c[::-1]
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    if close(a, b):
      # exactly representable, or too close to call
      return (not strict if a == b and float(a).is_integer() else SKIP)
    return a < b
  if k == z3.Z3_OP_ADD:
    return sum(c)
  if k == z3.Z3_OP_MUL:
    return math.prod(c)
  if k == z3.Z3_OP_SUB:
    return c[0] - sum(c[1:])
  if k == z3.Z3_OP_UMINUS:
    return -c[0]
  if k == z3.Z3_OP_DIV:
    return c[0] / c[1]
  if k == z3.Z3_OP_TO_REAL:
    return float(c[0])
  raise NotImplementedError(e)


class Index:

  def __init__(self, terms):
    self.apps, self.consts = {}, {"PI", "LOG10_E"}
    for t in terms:
      self.apps.setdefault(t.decl().name(), {})[t.get_id()] = t


def q(x):
  return z3.RealVal(str(Fraction(x)))


def main():
  pts = [-7, -2, -1, Fraction(-1, 3), 0, Fraction(1, 5), Fraction(1, 2), 1,
         Fraction(3, 2), 2, 3, 10]
  bad = total = skipped = 0
  for n, f in vars(ax).items():
    if not isinstance(f, z3.FuncDeclRef):
      continue
    if f.domain(0) == z3.IntSort():
      terms = [f(z3.IntVal(i)) for i in range(0, 14)]
    elif f.arity() == 1:
      terms = [f(q(x)) for x in pts]
    else:
      grid = [(x, y) for x in pts for y in (-3, Fraction(-1, 2), 0, 1, 2,
                                            Fraction(5, 2))]
      terms = [f(q(x), q(y)) for x, y in grid]
      if f.name() == "POWR":
        terms += [f(f(q(x), q(y)), q(1 / Fraction(y))) for x, y in grid if y]
    # several rounds, as pairs are limited in number
    got = []
    for k in range(0, len(terms), 5):
      got += ax.instances(Index(terms[k:k + 12]), set())
    for g in got:
      total += 1
      r = ev(g)
      skipped += r is SKIP
      if r is False:
        bad += 1
        print("FALSE:", str(g)[:300])
  print(f"{total} instances, {skipped} outside of the domain or too close, "
        f"{bad} false")
  return 1 if bad else 0


if __name__ == "__main__":
  sys.exit(main())
