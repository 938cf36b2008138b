"""Symbolic scalars.  Python ints are mathematical integers, floats are reals
with an optional NaN flag; decimal literals denote the decimal they are written
as (an assumption stated in the evidence)."""
import math
import numbers
from fractions import Fraction

import z3

from pyvc import core
from pyvc.core import Unsupported, cur


class ModelledError(Exception):
  pass


def raise_(exc_type, msg):
  """Raise an exception that the modelled library would raise"""
  e = exc_type(msg)
  e._vc_modelled = True
  raise e


PI = z3.Real("PI")
E_LOG10 = z3.Real("LOG10_E")  # log10(e)
EPS = z3.Q(1, 2**52)


class SVal:
  __slots__ = ()
  __array_priority__ = 1000

  def __getitem__(self, key):
    # numpy scalars accept the empty tuple
    if getattr(self, "np", False) and isinstance(key, tuple) and (
        key == () or key == (Ellipsis,)):
      return self
    raise Unsupported("indexing of a scalar")


def _simp(e):
  return z3.simplify(e)


def frac_of(x):
  """Concrete number -> Fraction or None"""
  if isinstance(x, bool):
    return Fraction(int(x))
  if isinstance(x, (int, Fraction)):
    return Fraction(x)
  if isinstance(x, float):
    if math.isnan(x) or math.isinf(x):
      return None
    return Fraction(repr(x))
  return None


def is_num(x):
  return isinstance(x, (SVal, bool, int, float, Fraction))


def to_zreal(x):
  if isinstance(x, SReal):
    return x.z
  if isinstance(x, SInt):
    return z3.ToReal(x.z)
  if isinstance(x, SBool):
    return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
  if isinstance(x, z3.ArithRef):
    return x if x.is_real() else z3.ToReal(x)
  if isinstance(x, z3.BoolRef):
    return z3.If(x, z3.RealVal(1), z3.RealVal(0))
  f = frac_of(x)
  if f is not None:
    return z3.RealVal(f)
  if hasattr(x, "_as_scalar"):
    return to_zreal(x._as_scalar())
  raise Unsupported(f"cannot read {type(x).__name__} {x!r} as a real")


def to_zint(x):
  if isinstance(x, SInt):
    return x.z
  if isinstance(x, SBool):
    return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, z3.ArithRef) and x.is_int():
    return x
  if isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  if hasattr(x, "_as_scalar"):
    return to_zint(x._as_scalar())
  raise Unsupported(f"cannot read {type(x).__name__} {x!r} as an integer")


def to_zbool(x):
  if isinstance(x, SBool):
    return x.z
  if isinstance(x, z3.BoolRef):
    return x
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, SInt):
    return x.z != 0
  if isinstance(x, SReal):
    return x.z != 0 if x.nan is None else z3.Or(x.nan, x.z != 0)
  if isinstance(x, int):
    return z3.BoolVal(x != 0)
  if hasattr(x, "_as_scalar"):
    return to_zbool(x._as_scalar())
  raise Unsupported(f"cannot read {type(x).__name__} as a boolean")


def kind(x):
  """b < i < f < c"""
  if isinstance(x, (SBool, bool)):
    return "b"
  if isinstance(x, (SInt, int)):
    return "i"
  if isinstance(x, (SReal, float, Fraction)):
    return "f"
  if isinstance(x, (SCplx, complex)):
    return "c"
  raise Unsupported(f"kind of {type(x).__name__}")


_ORDER = "buifc"


def join(a, b):
  return _ORDER[max(_ORDER.index(a), _ORDER.index(b))]


def nan_of(x):
  if isinstance(x, SReal):
    return x.nan
  if isinstance(x, float) and math.isnan(x):
    return z3.BoolVal(True)
  return None


def or_nan(*ns):
  ns = [n for n in ns if n is not None]
  if not ns:
    return None
  r = z3.simplify(z3.Or(*ns)) if len(ns) > 1 else ns[0]
  return None if z3.is_false(r) else r


def is_sym(x):
  return isinstance(x, SVal)


def _conc(z):
  """z3 numeral -> Python number or None"""
  if z3.is_int_value(z):
    return z.as_long()
  if z3.is_rational_value(z):
    return z.as_fraction()
  return None


def mk_int(z):
  z = _simp(z)
  return SInt(z)


def mk_real(z, nan=None, np=False):
  return SReal(_simp(z), nan, np)


def lift(x):
  """Any concrete or symbolic scalar -> SVal"""
  if isinstance(x, SVal):
    return x
  if isinstance(x, bool):
    return SBool(z3.BoolVal(x))
  if isinstance(x, int):
    return SInt(z3.IntVal(x))
  if isinstance(x, Fraction):
    return SReal(z3.RealVal(x))
  if isinstance(x, float):
    if math.isnan(x):
      return SReal(z3.RealVal(0), z3.BoolVal(True))
    if math.isinf(x):
      raise Unsupported("infinite value in arithmetic")
    return SReal(z3.RealVal(frac_of(x)))
  if isinstance(x, complex):
    return SCplx(z3.RealVal(frac_of(x.real)), z3.RealVal(frac_of(x.imag)))
  if isinstance(x, z3.BoolRef):
    return SBool(x)
  if isinstance(x, z3.ArithRef):
    return SReal(x) if x.is_real() else SInt(x)
  if hasattr(x, "_as_scalar"):
    return x._as_scalar()
  raise Unsupported(f"scalar of type {type(x).__name__}")


def cplx(x):
  x = lift(x)
  if isinstance(x, SCplx):
    return x
  return SCplx(to_zreal(x), z3.RealVal(0))


def _is_np(*xs):
  return any(getattr(x, "np", False) for x in xs)


def _arith_inf(op, a, b):
  """Arithmetic of a number and an infinity"""
  if isinstance(a, float) and isinstance(b, float):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}.get(
        op, lambda: _no_inf())()
  inf, o = (a, b) if isinstance(a, float) and math.isinf(a) else (b, a)
  p = cur()
  if op not in "+-*" or kind(lift(o)) == "c" or p.in_template:
    _no_inf()
  n = nan_of(lift(o))
  if n is not None and p.branch(n):
    return SReal(z3.RealVal(0), z3.BoolVal(True))
  if op == "+":
    return inf
  if op == "-":
    return inf if inf is a else -inf
  z = to_zreal(lift(o))
  if p.branch(z > 0):
    return inf
  return -inf if p.branch(z < 0) else SReal(z3.RealVal(0), z3.BoolVal(True))


def _no_inf():
  raise Unsupported("infinite value in arithmetic")


def arith(op, a, b):
  """+ - * / // % ** on scalars (numpy flag decides division by zero)"""
  if isinstance(a, float) and math.isinf(a) or isinstance(
      b, float) and math.isinf(b):
    return _arith_inf(op, a, b)
  a, b = lift(a), lift(b)
  k = join(kind(a), kind(b))
  npf = _is_np(a, b)
  if k == "c":
    return _carith(op, cplx(a), cplx(b), b)
  if k in "bi" and op in ("+", "-", "*"):
    x, y = to_zint(a), to_zint(b)
    if k == "b" and npf and op in "+*":
      # numpy booleans: logical or / and
      x, y = to_zbool(a), to_zbool(b)
      return SBool(z3.simplify(z3.Or(x, y) if op == "+" else z3.And(x, y)),
                   True)
    z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]()
    return SInt(_simp(z), npf)
  if op in ("//", "%") and k in "bi":
    x, y = to_zint(a), to_zint(b)
    if not npf:
      _zero_check(y == 0, "integer division or modulo by zero")
    q = ifloordiv(x, y)
    return SInt(_simp(q if op == "//" else x - q * y), npf)
  if op == "**":
    return power(a, b)
  x, y = to_zreal(a), to_zreal(b)
  nan = or_nan(nan_of(a), nan_of(b))
  if op == "+":
    z = x + y
  elif op == "-":
    z = x - y
  elif op == "*":
    z = x * y
  elif op == "/":
    if not npf:
      _zero_check(y == 0, "division by zero")
    z = x / y
  elif op in ("//", "%"):
    if not npf:
      _zero_check(y == 0, "float modulo")
    q = z3.ToReal(z3.ToInt(x / y))
    z = q if op == "//" else x - q * y
  else:
    raise Unsupported(f"operator {op}")
  return SReal(_simp(z), nan, npf)


def _zero_check(cond, msg):
  c = z3.simplify(cond)
  if z3.is_false(c):
    return
  if z3.is_true(c) or cur().branch(c):
    raise_(ZeroDivisionError, msg)


def ifloordiv(x, y):
  y_ = z3.simplify(y)
  if z3.is_int_value(y_):
    n = y_.as_long()
    if n > 0:
      return x / y_
    if n < 0:
      return (-x) / z3.IntVal(-n)
    return z3.IntVal(0)
  p = core.maybe_cur()
  if p is not None and p.valid(y > 0):
    return x / y
  return z3.If(y > 0, x / y, (-x) / (-y))


def _carith(op, a, b, braw):
  if op == "+":
    return SCplx(_simp(a.re + b.re), _simp(a.im + b.im))
  if op == "-":
    return SCplx(_simp(a.re - b.re), _simp(a.im - b.im))
  if op == "*":
    return SCplx(_simp(a.re * b.re - a.im * b.im),
                 _simp(a.re * b.im + a.im * b.re))
  if op == "/":
    if not isinstance(braw, SCplx):
      return SCplx(_simp(a.re / b.re), _simp(a.im / b.re))
    d = b.re * b.re + b.im * b.im
    return SCplx(_simp((a.re * b.re + a.im * b.im) / d),
                 _simp((a.im * b.re - a.re * b.im) / d))
  if op == "**":
    n = _conc(z3.simplify(to_zreal(braw))) if not isinstance(braw, SCplx) \
        else None
    if n is not None and n.denominator == 1 and 0 <= n <= 4:
      r = cplx(1)
      for _ in range(int(n)):
        r = _carith("*", r, a, a)
      return r
  raise Unsupported(f"complex operator {op}")


def power(a, b):
  from pyvc import axioms as ax
  npf = _is_np(a, b)
  eb = _conc(z3.simplify(b.z)) if not isinstance(b, SBool) else None
  ea = _conc(z3.simplify(a.z)) if not isinstance(a, SBool) else None
  if eb is not None and Fraction(eb).denominator == 1 and 0 <= eb <= 8:
    n = int(eb)
    if kind(a) in "bi" and kind(b) in "bi":
      r = z3.IntVal(1)
      for _ in range(n):
        r = r * to_zint(a)
      return SInt(_simp(r), npf)
    r = z3.RealVal(1)
    for _ in range(n):
      r = r * to_zreal(a)
    return SReal(_simp(r), nan_of(a), npf)
  nan = or_nan(nan_of(a), nan_of(b))
  if ea == 10:
    return SReal(ax.P10(_norm(to_zreal(b))), nan, npf)
  if ea == 2:
    if kind(a) in "bi" and kind(b) in "bi":
      return SInt(ax.IP2(_simp(to_zint(b))), npf)
    return SReal(ax.P2(_norm(to_zreal(b))), nan, npf)
  if eb is not None and Fraction(eb) == Fraction(1, 2):
    return SReal(ax.SQRT(_norm(to_zreal(a))), nan, npf)
  return SReal(ax.POWR(_norm(to_zreal(a)), _norm(to_zreal(b))), nan, npf)


def _norm(z):
  """Argument normal form for uninterpreted functions"""
  z = z3.simplify(z, som=True)
  if z3.is_add(z) and z.num_args() <= 12:
    z = z3.Sum(sorted(z.children(), key=lambda c: c.sexpr()))
  return z


def compare(op, a, b):
  if isinstance(a, float) and math.isinf(a) or isinstance(
      b, float) and math.isinf(b):
    return _cmp_inf(op, a, b)
  a, b = lift(a), lift(b)
  npf = _is_np(a, b)
  k = join(kind(a), kind(b))
  if k == "c":
    x, y = cplx(a), cplx(b)
    e = z3.And(x.re == y.re, x.im == y.im)
    if op == "==":
      return SBool(_simp(e), npf)
    if op == "!=":
      return SBool(_simp(z3.Not(e)), npf)
    raise_(TypeError, "complex ordering")
  if k == "b" and op in ("==", "!="):
    x, y = to_zbool(a), to_zbool(b)
    return SBool(_simp(x == y if op == "==" else x != y), npf)
  if k in "bi":
    x, y = to_zint(a), to_zint(b)
  else:
    x, y = to_zreal(a), to_zreal(b)
  z = {
      "<": lambda: x < y,
      "<=": lambda: x <= y,
      ">": lambda: x > y,
      ">=": lambda: x >= y,
      "==": lambda: x == y,
      "!=": lambda: x != y
  }[op]()
  nan = or_nan(nan_of(a), nan_of(b))
  if nan is not None:
    z = z3.Or(nan, z) if op == "!=" else z3.And(z3.Not(nan), z)
  return SBool(_simp(z), npf)


def _cmp_inf(op, a, b):
  fa = a if isinstance(a, float) and math.isinf(a) else 0.0
  fb = b if isinstance(b, float) and math.isinf(b) else 0.0
  r = {
      "<": fa < fb,
      "<=": fa <= fb,
      ">": fa > fb,
      ">=": fa >= fb,
      "==": fa == fb,
      "!=": fa != fb
  }[op]
  z = z3.BoolVal(r)
  for x in (a, b):
    nan = None if isinstance(x, float) else nan_of(lift(x))
    if nan is not None:
      z = z3.Or(nan, z) if op == "!=" else z3.And(z3.Not(nan), z)
  return SBool(_simp(z))


def _wrap_bin(op):

  def f(self, other):
    if not is_num(other) and not isinstance(other, complex):
      if op == "*" and isinstance(other, (list, tuple)) and isinstance(
          self, SInt):
        from pyvc import seq
        return seq.repeat(other, self)
      return NotImplemented
    return arith(op, self, other)

  def r(self, other):
    if not is_num(other) and op == "*":
      return f(self, other)
    if not is_num(other) and not isinstance(other, complex):
      return NotImplemented
    return arith(op, other, self)

  return f, r


def _wrap_cmp(op):

  def f(self, other):
    if not is_num(other) and not isinstance(other, complex):
      if op == "==":
        return False if other is None or isinstance(other, str) \
            else NotImplemented
      if op == "!=":
        return True if other is None or isinstance(other, str) \
            else NotImplemented
      return NotImplemented
    return compare(op, self, other)

  return f


class _Num(SVal):
  __slots__ = ()
  __add__, __radd__ = _wrap_bin("+")
  __sub__, __rsub__ = _wrap_bin("-")
  __mul__, __rmul__ = _wrap_bin("*")
  __truediv__, __rtruediv__ = _wrap_bin("/")
  __floordiv__, __rfloordiv__ = _wrap_bin("//")
  __mod__, __rmod__ = _wrap_bin("%")
  __pow__, __rpow__ = _wrap_bin("**")
  __lt__ = _wrap_cmp("<")
  __le__ = _wrap_cmp("<=")
  __gt__ = _wrap_cmp(">")
  __ge__ = _wrap_cmp(">=")
  __eq__ = _wrap_cmp("==")
  __ne__ = _wrap_cmp("!=")

  def __hash__(self):
    c = _conc(self.z) if not isinstance(self, (SBool, SCplx)) else None
    return hash(c) if c is not None else id(self)

  def __bool__(self):
    return cur().branch(to_zbool(self)) if not self._lit() is not None \
        else self._lit()

  def _lit(self):
    z = z3.simplify(to_zbool(self))
    if z3.is_true(z):
      return True
    if z3.is_false(z):
      return False
    return None

  def __pos__(self):
    return self

  def __str__(self):
    return f"<sym {self.z}>"

  __repr__ = __str__

  def __format__(self, spec):
    return str(self)

  # numpy scalar protocol
  ndim = 0
  shape = ()
  size = 1

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return lift(0)

  def item(self):
    r = type(self).__new__(type(self))
    for s in type(self).__slots__:
      setattr(r, s, getattr(self, s))
    if hasattr(r, "np"):
      r.np = False
    return r

  tolist = item

  def astype(self, dtype):
    from pyvc import nparr
    return nparr.astype_scalar(self, dtype)

  def flatten(self):
    from pyvc import nparr
    if not self.np:
      raise AttributeError("flatten")
    return nparr.reshape(nparr.asarray(self), -1).copy()

  def ravel(self):
    return self.flatten()

  @property
  def dtype(self):
    from pyvc import nparr
    return nparr.DType(kind(self))

  def __index__(self):
    c = _conc(self.z) if isinstance(self, SInt) else None
    if c is not None:
      return c
    raise Unsupported("symbolic integer used where CPython needs a concrete "
                      "one")

  def __int__(self):
    raise Unsupported("int() of a symbolic value in uninstrumented code")

  def __float__(self):
    raise Unsupported("float() of a symbolic value in uninstrumented code")


class SInt(_Num):
  __slots__ = ("z", "np")

  def __init__(self, z, np=False):
    self.z = z
    self.np = np

  def __neg__(self):
    return SInt(_simp(-self.z), self.np)

  def __abs__(self):
    return SInt(_simp(z3.If(self.z < 0, -self.z, self.z)), self.np)

  def __ceil__(self):
    return self

  __floor__ = __ceil__
  __trunc__ = __ceil__

  def __lshift__(self, o):
    from pyvc import axioms as ax
    return SInt(_simp(self.z * ax.IP2(_simp(to_zint(o)))), self.np)

  def __rlshift__(self, o):
    return lift(o) << self

  def __rshift__(self, o):
    from pyvc import axioms as ax
    c = _conc(z3.simplify(to_zint(o)))
    if c is None:
      raise Unsupported("shift by a symbolic amount")
    return SInt(_simp(self.z / z3.IntVal(2**c)), self.np)

  def __and__(self, o):
    c = _conc(z3.simplify(to_zint(o)))
    if c is not None and c >= 0 and (c & (c + 1)) == 0:
      return SInt(_simp(self.z % z3.IntVal(c + 1)), self.np)
    raise Unsupported("bitwise and")

  __rand__ = __and__

  def bit_length(self):
    from pyvc import axioms as ax
    return SInt(ax.BITLEN(self.z))

  def __invert__(self):
    return SInt(_simp(-self.z - 1), self.np)


class SReal(_Num):
  __slots__ = ("z", "nan", "np")

  def __init__(self, z, nan=None, np=False):
    self.z = z
    self.nan = nan
    self.np = np

  def __neg__(self):
    return SReal(_simp(-self.z), self.nan, self.np)

  def __abs__(self):
    return SReal(_simp(z3.If(self.z < 0, -self.z, self.z)), self.nan, self.np)

  def __ceil__(self):
    return SInt(_simp(-z3.ToInt(-self.z)))

  def __floor__(self):
    return SInt(_simp(z3.ToInt(self.z)))

  def __trunc__(self):
    return SInt(_simp(z3.If(self.z < 0, -z3.ToInt(-self.z),
                            z3.ToInt(self.z))))

  def __round__(self, n=None):
    if n is not None:
      raise Unsupported("round to digits")
    if self.nan is not None and not cur().in_template and cur().branch(
        self.nan):
      raise_(ValueError, "cannot convert float NaN to integer")
    return self._rint()

  def _rint(self):
    f = z3.ToInt(self.z)
    d = self.z - z3.ToReal(f)
    h = z3.Q(1, 2)
    return SInt(
        _simp(
            z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))))

  def is_integer(self):
    return SBool(_simp(z3.IsInt(self.z)))


class SBool(_Num):
  __slots__ = ("z", "np")

  def __init__(self, z, np=False):
    self.z = z
    self.np = np

  def __neg__(self):
    return -SInt(to_zint(self))

  def __abs__(self):
    return SInt(to_zint(self))

  def __and__(self, o):
    if kind(o) != "b":
      return NotImplemented
    return SBool(_simp(z3.And(self.z, to_zbool(o))), _is_np(self, o))

  __rand__ = __and__

  def __or__(self, o):
    if kind(o) != "b":
      return NotImplemented
    return SBool(_simp(z3.Or(self.z, to_zbool(o))), _is_np(self, o))

  __ror__ = __or__

  def __xor__(self, o):
    return SBool(_simp(z3.Xor(self.z, to_zbool(o))), _is_np(self, o))

  __rxor__ = __xor__

  def __invert__(self):
    if self.np:
      return SBool(_simp(z3.Not(self.z)), True)
    return SInt(_simp(-to_zint(self) - 1))

  def __hash__(self):
    return id(self)


class SCplx(_Num):
  __slots__ = ("re", "im", "np")

  def __init__(self, re, im, np=True):
    self.re = re
    self.im = im
    self.np = np

  def __neg__(self):
    return SCplx(_simp(-self.re), _simp(-self.im))

  def __abs__(self):
    from pyvc import axioms as ax
    return SReal(ax.SQRT(_norm(self.re * self.re + self.im * self.im)), None,
                 True)

  @property
  def z(self):
    return z3.simplify(self.re)  # only for printing

  @property
  def real(self):
    return SReal(self.re, None, True)

  @property
  def imag(self):
    return SReal(self.im, None, True)

  def conjugate(self):
    return SCplx(self.re, _simp(-self.im))

  conj = conjugate

  def __bool__(self):
    return cur().branch(z3.Or(self.re != 0, self.im != 0))

  def __hash__(self):
    return id(self)


def _num_bool(self):
  l = self._lit()
  return l if l is not None else cur().branch(to_zbool(self))


_Num.__bool__ = _num_bool


def ite(c, a, b):
  """If-then-else on scalars of possibly different kinds"""
  c = to_zbool(c)
  c = z3.simplify(c)
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  a, b = lift(a), lift(b)
  k = join(kind(a), kind(b))
  npf = _is_np(a, b)
  if k == "b":
    return SBool(_simp(z3.If(c, to_zbool(a), to_zbool(b))), npf)
  if k == "i":
    return SInt(_simp(z3.If(c, to_zint(a), to_zint(b))), npf)
  if k == "f":
    na, nb = nan_of(a), nan_of(b)
    nan = None
    if na is not None or nb is not None:
      f = z3.BoolVal(False)
      nan = z3.simplify(
          z3.If(c, f if na is None else na, f if nb is None else nb))
      if z3.is_false(nan):
        nan = None
    return SReal(_simp(z3.If(c, to_zreal(a), to_zreal(b))), nan, npf)
  x, y = cplx(a), cplx(b)
  return SCplx(_simp(z3.If(c, x.re, y.re)), _simp(z3.If(c, x.im, y.im)))


def smax(a, b):
  """Python max of two numbers as a term (first wins on ties)"""
  return ite(compare(">", b, a), b, a)


def smin(a, b):
  return ite(compare("<", b, a), b, a)


def eq(a, b):
  """Equality formula for postconditions (NaN equals NaN)"""
  a, b = lift(a), lift(b)
  k = join(kind(a), kind(b))
  if k == "b":
    return to_zbool(a) == to_zbool(b)
  if k == "i":
    return to_zint(a) == to_zint(b)
  if k == "c":
    x, y = cplx(a), cplx(b)
    return z3.And(x.re == y.re, x.im == y.im)
  na, nb = nan_of(a), nan_of(b)
  e = to_zreal(a) == to_zreal(b)
  if na is None and nb is None:
    return e
  f = z3.BoolVal(False)
  na = f if na is None else na
  nb = f if nb is None else nb
  return z3.And(na == nb, z3.Or(na, e))


numbers.Number.register(SVal)
