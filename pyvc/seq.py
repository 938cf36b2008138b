"""Symbolic sequences (Python lists, tuples, ranges of unknown length), loops
cut by invariants, and the builtins seen by the code under verification."""
import builtins
import math
import sys
import types
from fractions import Fraction

import z3

from pyvc import core
from pyvc import values as V
from pyvc.core import PathEnd, Unsupported, cur, fresh
from pyvc.values import (SBool, SCplx, SInt, SReal, lift, raise_, to_zbool,
                         to_zint, to_zreal)


def _dim(x):
  from pyvc import nparr
  return nparr.dim(x)


class SSeq:
  """Immutable symbolic sequence"""
  pytype = tuple

  def __init__(self, length, get):
    self._n = _dim(length)
    self._get = get

  def _vc_len(self):
    return self._n

  def get(self, k):
    """Element at a valid z3 index"""
    return self._get(k)

  def __len__(self):
    if isinstance(self._n, int):
      return self._n
    raise Unsupported("len() of a symbolic sequence in uninstrumented code")

  def __bool__(self):
    n = self._vc_len()
    return n > 0 if isinstance(n, int) else cur().branch(n.z > 0)

  def __iter__(self):
    n = self._vc_len()
    if isinstance(n, int):
      return iter([self.get(z3.IntVal(i)) for i in range(n)])
    raise Unsupported("iteration over a symbolic sequence here")

  def __getitem__(self, key):
    from pyvc import nparr
    n = self._vc_len()
    if isinstance(key, slice):
      s, st, ln = nparr.norm_slice(key, n)
      g = self.snapshot()
      return type(self).make(_dim(ln), lambda k: g(z3.simplify(s + st * k)))
    if isinstance(key, nparr.SArr):
      key = key._as_scalar()
    if isinstance(key, (SReal, Fraction, float)):
      raise_(TypeError, "list indices must be integers or slices, not float")
    k = nparr.norm_index(key, n, "list index out of range")
    return self.get(k)

  def snapshot(self):
    return self._get

  @classmethod
  def make(cls, n, get):
    return cls(n, get)

  def __add__(self, o):
    return concat(self, o, type(self))

  def __radd__(self, o):
    return concat(o, self, type(self))

  def __repr__(self):
    return f"<SSeq {self._n}>"

  __hash__ = object.__hash__

  def __eq__(self, o):
    r = lexicographic(self, o)
    return r if r is NotImplemented else r == 0

  def __ne__(self, o):
    r = lexicographic(self, o)
    return r if r is NotImplemented else r != 0

  def __lt__(self, o):
    r = lexicographic(self, o)
    return r if r is NotImplemented else r < 0

  def __gt__(self, o):
    r = lexicographic(self, o)
    return r if r is NotImplemented else r > 0

  def __le__(self, o):
    r = lexicographic(self, o)
    return r if r is NotImplemented else r <= 0

  def __ge__(self, o):
    r = lexicographic(self, o)
    return r if r is NotImplemented else r >= 0


def lexicographic(a, b):
  """Order of two sequences of numbers: that of the first difference, a prefix
  before what extends it"""
  if a is b:
    return 0
  if not is_symseq(b) and not isinstance(b, (list, tuple)):
    return NotImplemented
  if issubclass(a.pytype, list) != (issubclass(b.pytype, list) if is_symseq(
      b) else isinstance(b, list)):
    return NotImplemented
  p = cur()
  na, nb = to_zint(vlen(a)), to_zint(vlen(b))
  ga, gb = getter(a), getter(b)
  m = z3.simplify(z3.If(na < nb, na, nb))

  def same(k):
    x, y = ga(k), gb(k)
    if not (V.is_num(x) and V.is_num(y)):
      raise Unsupported("comparison of sequences of objects")
    return to_zbool(lift(x) == lift(y))

  d = fresh("diff")
  p.reg(d)
  same = p.describe(same, V.SInt(m))
  p.assume(d >= 0, d <= m, z3.Implies(d < m, z3.Not(same(d))))
  p.fact(lambda k: z3.Implies(z3.And(k >= 0, k < d), same(k)), 1, "prefix")
  if p.branch(d < m):
    return -1 if bool(lift(ga(d)) < lift(gb(d))) else 1
  if p.branch(na == nb):
    return 0
  return -1 if p.branch(na < nb) else 1


def repeat(x, n):
  """The sequence x (concrete) repeated n (symbolic) times"""
  m = len(x)
  n = to_zint(n)
  n = z3.simplify(z3.If(n > 0, n, 0) * m)
  if m == 0:
    return SList(0, None)
  if m == 1:
    return SList(_dim(n), lambda k: x[0])
  return SList(_dim(n), lambda k: SList(m, getter(x)).get(z3.simplify(k % m)))


def concat(a, b, cls=SSeq):
  na, nb = vlen(a), vlen(b)
  if isinstance(na, int) and na == 0:
    return cls.make(nb, getter(b))
  if isinstance(nb, int) and nb == 0:
    return cls.make(na, getter(a))
  ga, gb = getter(a), getter(b)
  za = to_zint(na)

  def get(k):
    c = z3.simplify(k < za)
    if z3.is_true(c):
      return ga(k)
    if z3.is_false(c):
      return gb(z3.simplify(k - za))
    x, y = ga(k), gb(z3.simplify(k - za))
    if V.is_num(x) and V.is_num(y):
      return V.ite(c, x, y)
    return ga(k) if cur().branch(c) else gb(z3.simplify(k - za))

  return cls.make(na + nb, get)


def _flat_ops(n, ln):
  from pyvc import nparr
  p = cur()
  p.in_template += 1
  try:
    l0 = z3.simplify(ln(z3.Int("flat!probe")))
  finally:
    p.in_template -= 1
  key = ("flat", l0.get_id(), n.get_id())
  hit = p.cache.get(key)
  if hit is not None:
    return hit
  p.keep += [l0, n]
  I = z3.IntSort()
  OFF, AT = core.fresh_fn("FLAT_off", I, I), core.fresh_fn("FLAT_at", I, I)
  p.assume(OFF(0) == 0, OFF(n) >= 0)
  p.fact(lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(
      OFF(k + 1) == OFF(k) + ln(k), ln(k) >= 0, OFF(k) >= 0,
      OFF(k + 1) <= OFF(n))), 1, "flatten")
  p.fact(lambda j: z3.Implies(z3.And(0 <= j, j < OFF(n)), z3.And(
      0 <= AT(j), AT(j) < n, OFF(AT(j)) <= j, j < OFF(AT(j) + 1),
      OFF(AT(j) + 1) == OFF(AT(j)) + ln(AT(j)))), 1, "flatten")
  p.fact(lambda k, j: z3.Implies(z3.And(0 <= k, k < n, OFF(k) <= j,
                                        j < OFF(k + 1)), AT(j) == k), 2,
         "flatten")
  data = lambda: [([n], lambda k: SInt(ln(k)))]
  for nm, f in (("FLAT_off", OFF), ("FLAT_at", AT)):
    nparr.register_op(nm, f, 0, data)
  p.cache[key] = OFF, AT
  return OFF, AT


def flatten(xs):
  """Concatenation of a symbolic sequence of sequences"""
  xs = _seq(xs)
  g, n = xs.snapshot(), to_zint(xs._vc_len())
  p = cur()
  k0 = fresh("fl")
  p.in_template += 1
  try:
    l0 = vlen(g(k0))
  finally:
    p.in_template -= 1
  if isinstance(l0, int):
    # every element has the same concrete length
    if l0 == 1:
      return SList(xs._vc_len(), lambda k: getter(g(k))(z3.IntVal(0)))
    if l0 == 0:
      return SList(0, None)
    return SList(_dim(z3.simplify(n * l0)), lambda k: getter(
        g(z3.simplify(k / l0)))(z3.simplify(k % l0)))
  OFF, AT = _flat_ops(n, lambda k: to_zint(vlen(g(k))))
  r = SList(_dim(OFF(n)), lambda j: getter(g(AT(j)))(z3.simplify(
      j - OFF(AT(j)))))
  r.off, r.at = OFF, AT
  return r


def getter(s):
  """Element function of a concrete or symbolic sequence"""
  if isinstance(s, SSeq):
    return s.snapshot()
  from pyvc import nparr
  if isinstance(s, nparr.SArr):
    c = s.copy()
    if c.ndim == 1:
      # k is a valid index
      return lambda k: nparr.np_scalar(c.at(k))
    return lambda k: c[SInt(k)]
  items = builtins.list(s)

  def get(k):
    c = V._conc(z3.simplify(k))
    if c is not None:
      return items[int(c)]
    for j in range(len(items) - 1):
      if cur().branch(k == j):
        return items[j]
    return items[-1]

  return get


class SList(SSeq):
  """Mutable list of unknown length; elements are scalars or objects"""
  pytype = list

  def __init__(self, length, get):
    super().__init__(length, get)
    p = core.maybe_cur()
    self.born = -1
    if p is not None:
      p.heap_clock += 1
      self.born = p.heap_clock

  def _touch(self):
    p = core.maybe_cur()
    if p is not None and p.frozen and self.born < p.frozen and \
        id(self) not in p.havocked:
      loop_writes(self, "a loop body writes a list that its invariant does "
                  "not describe")

  def append(self, x):
    self._touch()
    n, g = to_zint(self._n), self._get
    x_num = V.is_num(x)

    def get(k):
      c = z3.simplify(k == n)
      if z3.is_true(c):
        return x
      if z3.is_false(c):
        return g(k)
      if x_num:
        return V.ite(c, x, g(k))
      return x if cur().branch(c) else g(k)

    self._get = get
    self._n = _dim(self._n + 1)

  def extend(self, xs):
    self._touch()
    if not hasattr(xs, "_vc_len") and not hasattr(xs, "__len__"):
      xs = xs._vc_list() if hasattr(xs, "_vc_list") else builtins.list(xs)
    r = concat(self, xs, SList)
    self._n, self._get = r._n, r._get

  def __iadd__(self, xs):
    self.extend(xs)
    return self

  def copy(self):
    return SList(self._n, self._get)

  def reverse(self):
    self._touch()
    n, g = to_zint(self._n), self._get
    self._get = lambda k: g(z3.simplify(n - 1 - k))

  def __setitem__(self, key, v):
    from pyvc import nparr
    self._touch()
    if isinstance(key, slice):
      raise Unsupported("slice assignment on a list")
    j = nparr.norm_index(key, self._n, "list assignment index out of range")
    g = self._get

    def get(k):
      c = z3.simplify(k == j)
      if z3.is_true(c):
        return v
      if z3.is_false(c):
        return g(k)
      if V.is_num(v):
        return V.ite(c, v, g(k))
      return v if cur().branch(c) else g(k)

    self._get = get

  def pop(self, *a):
    raise Unsupported("list.pop")

  def clear(self):
    self._touch()
    self._n, self._get = 0, None

  def __deepcopy__(self, memo):
    import copy
    g = self._get
    return SList(self._n, lambda k: copy.deepcopy(g(k), memo))

  def __copy__(self):
    return self.copy()

  def __mul__(self, n):
    if isinstance(self._n, int) and isinstance(n, SInt):
      return repeat([self.get(z3.IntVal(i)) for i in range(self._n)], n)
    raise Unsupported("repetition of a list of unknown length")

  __rmul__ = __mul__

  def replace(self, n, get):
    """Havoc"""
    self._n, self._get = _dim(n), get


def from_array(a):
  from pyvc import nparr
  if a.ndim == 0:
    return a.at().item()
  if all(isinstance(d, int) for d in a.shape) and a.ndim == 1:
    return [a[i].item() for i in range(a.shape[0])]
  c = a.copy()
  if a.ndim == 1:
    return SList(a.shape[0], lambda k: c.at(k).item())
  return SList(a.shape[0], lambda k: from_array(nparr.basic_view(c, SInt(k))))


def _described(p, n, g):
  """Array of real elements whose description depends on the index being one
  of the sequence"""
  from pyvc import nparr
  sh = []

  def probe(k):
    e = nparr.asarray(g(k))
    if e.kind not in "bif":
      raise Unsupported("array of complex elements that depend on their index")
    sh.append(e)
    return z3.BoolVal(True)

  p.describe(probe, n)
  e = sh[0]
  one = {"b": to_zbool, "i": to_zint, "f": V.to_zreal}[e.kind]
  mk = {"b": SBool, "i": SInt, "f": SReal}[e.kind]

  def el(*i):
    v = nparr.asarray(g(i[0])).at(*i[1:])
    nan = V.nan_of(v)
    if nan is not None and not z3.is_false(z3.simplify(nan)):
      raise Unsupported("array of elements that may be NaN")
    return one(v)

  f = p.describe(el, n, *e.shape)
  return nparr.SArr((n,) + e.shape, lambda *i: mk(f(*i)), e.kind)


def to_array(s):
  from pyvc import nparr
  n = s._vc_len()
  g = s.snapshot()
  if isinstance(n, int) and n == 0:
    return nparr.asarray([])
  k = fresh("ta")
  p = cur()
  if not isinstance(n, int) and not p.valid(to_zint(n) > 0):
    # the array of an empty list is one-dimensional
    p.in_template += 1
    try:
      flat = V.is_num(g(k))
    finally:
      p.in_template -= 1
    if not flat and p.branch(to_zint(n) <= 0):
      return nparr.asarray([])
  p.in_template += 1
  try:
    e = g(k)
  except core.Unsupported as u:
    if "branch inside" not in str(u):
      raise
    e = None
  finally:
    p.in_template -= 1
  if e is None:
    return _described(p, n, g)
  if V.is_num(e) or isinstance(e, complex):
    kd = V.kind(e)
    return nparr.SArr((n,), lambda i: nparr.np_scalar(g(i)), kd)
  e = nparr.asarray(e)
  return nparr.SArr((n,) + e.shape,
                    lambda i, *r: nparr.asarray(g(i)).at(*r), e.kind)


# ---------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------
def vlen(x):
  f = getattr(type(x), "_vc_len", None)
  if f is not None:
    return f(x)
  f = getattr(type(x), "__len__", None)
  if isinstance(f, types.FunctionType):
    return f(x)
  return builtins.len(x)


class Star:
  """The elements of a sequence of symbolic length as arguments of a call.
  Only contracts of library functions that expect it can use it"""

  def __init__(self, seq):
    self.__dict__["seq"] = seq

  def __getattr__(self, k):
    raise Unsupported("arguments unpacked from a sequence of symbolic length")

  def __iter__(self):
    raise Unsupported("arguments unpacked from a sequence of symbolic length")


def vstar(x):
  return (Star(x),) if is_symseq(x) else x


class _M(type):

  def __instancecheck__(cls, x):
    f = cls.__dict__.get("_check")
    if f is not None:
      return f.__func__(x)
    return type.__instancecheck__(cls, x)

  def __subclasscheck__(cls, c):
    base = cls.__dict__.get("_real")
    if base is not None:
      return issubclass(c, base) if isinstance(c, type) else False
    return type.__subclasscheck__(cls, c)

  def __call__(cls, *a, **k):
    f = cls.__dict__.get("_conv")
    if f is not None:
      return f.__func__(*a, **k)
    return type.__call__(cls, *a, **k)

  def __eq__(cls, o):
    return cls is o or cls.__dict__.get("_real") is not None and (
        o is cls.__dict__["_real"])

  def __hash__(cls):
    return hash(cls.__dict__.get("_real", id(cls)))


def as_int(*a, **k):
  if not a:
    return 0
  x = a[0]
  if isinstance(x, SReal):
    if x.nan is not None:
      if cur().branch(to_zbool(x.nan)):
        raise_(ValueError, "cannot convert float NaN to integer")
    r = x.__trunc__()
    return SInt(r.z)
  if isinstance(x, SInt):
    return SInt(x.z)
  if isinstance(x, SBool):
    return SInt(to_zint(x))
  if hasattr(x, "_as_scalar"):
    return as_int(x._as_scalar())
  if hasattr(x, "_vc_int"):
    return x._vc_int()
  return builtins.int(*a, **k)


def as_float(*a):
  if not a:
    return Fraction(0)
  x = a[0]
  if isinstance(x, (SInt, SBool)):
    return SReal(to_zreal(x))
  if isinstance(x, SReal):
    return SReal(x.z, x.nan)
  if isinstance(x, SCplx):
    raise_(TypeError, "can't convert complex to float")
  if hasattr(x, "_as_scalar"):
    return as_float(x._as_scalar())
  if hasattr(x, "_vc_float"):
    return x._vc_float()
  if isinstance(x, str):
    f = builtins.float(x)
    return f if math.isnan(f) or math.isinf(f) else Fraction(repr(f))
  if isinstance(x, Fraction):
    return x
  f = builtins.float(x)
  return f if math.isnan(f) or math.isinf(f) else Fraction(repr(f))


def as_bool(x=False):
  if isinstance(x, (SBool,)):
    return SBool(x.z)
  if isinstance(x, (SInt, SReal)):
    return SBool(to_zbool(x))
  return builtins.bool(x)


def as_list(x=()):
  from pyvc import nparr
  if builtins.type(x) is builtins.tuple and not x:
    return vc_emptylist()
  if isinstance(x, nparr.SArr):
    n = x._vc_len()
    if isinstance(n, int):
      return [x[i] for i in range(n)]
    return SList(n, getter(x))
  if isinstance(x, SSeq):
    n = x._vc_len()
    if isinstance(n, int):
      return builtins.list(iter(x))
    return SList(n, x.snapshot())
  if hasattr(x, "_vc_list"):
    return x._vc_list()
  return builtins.list(x)


def as_tuple(x=()):
  r = as_list(x)
  if isinstance(r, SSeq):
    return SSeq(r._n, r._get)
  return builtins.tuple(r)


class vint(int, metaclass=_M):
  _vc_dtype = "i"
  _real = int
  _check = staticmethod(lambda x: builtins.isinstance(x, builtins.int) or
                        builtins.isinstance(x, SInt) and not x.np or
                        builtins.isinstance(x, SBool) and not x.np)
  _conv = staticmethod(as_int)


class vfloat(float, metaclass=_M):
  _vc_dtype = "f"
  _real = float
  _check = staticmethod(
      lambda x: builtins.isinstance(x, (builtins.float, SReal, Fraction)))
  _conv = staticmethod(as_float)
  fromhex = builtins.float.fromhex


class vbool(metaclass=_M):
  _vc_dtype = "b"
  _real = bool
  _check = staticmethod(lambda x: builtins.isinstance(x, builtins.bool) or
                        builtins.isinstance(x, SBool) and not x.np)
  _conv = staticmethod(as_bool)


class vcomplex(metaclass=_M):
  _vc_dtype = "c"
  _real = complex
  _check = staticmethod(
      lambda x: builtins.isinstance(x, (builtins.complex, SCplx)))

  @staticmethod
  def _conv(re=0, im=0):
    if isinstance(re, SCplx):
      return re
    return SCplx(to_zreal(re), to_zreal(im))


class vlist(list, metaclass=_M):
  _real = list
  _check = staticmethod(
      lambda x: builtins.isinstance(x, (builtins.list, SList)))
  _conv = staticmethod(as_list)


class vtuple(tuple, metaclass=_M):
  _real = tuple
  _check = staticmethod(lambda x: builtins.isinstance(x, builtins.tuple) or
                        builtins.type(x) is SSeq)
  _conv = staticmethod(as_tuple)


class SRange(SSeq):
  pytype = range

  def __init__(self, start, stop, step):
    from pyvc import nparr
    a = nparr.arange(start, stop, step)
    self.start, self.stop, self.step = start, stop, step
    e = a.elem()
    super().__init__(a.shape[0], lambda k: SInt(e(k).z))


def vrange(*a):
  if all(isinstance(x, builtins.int) for x in a):
    return builtins.range(*a)
  a = [x._as_scalar() if hasattr(x, "_as_scalar") else x for x in a]
  for x in a:
    if isinstance(x, (SReal, Fraction, builtins.float)):
      raise_(TypeError, "'float' object cannot be interpreted as an integer")
  if len(a) == 1:
    a = (0, a[0], 1)
  elif len(a) == 2:
    a = (a[0], a[1], 1)
  cs = [V._conc(z3.simplify(to_zint(x))) for x in a]
  if all(c is not None for c in cs):
    return builtins.range(*[int(c) for c in cs])
  return SRange(*a)


def is_symseq(x):
  from pyvc import nparr
  if isinstance(x, SSeq):
    return not isinstance(x._vc_len(), int)
  if isinstance(x, nparr.SArr):
    return x.ndim > 0 and not isinstance(x.shape[0], int)
  return hasattr(type(x), "_vc_symiter")


def _seq(x):
  """Anything symbolic -> SSeq"""
  if isinstance(x, SSeq):
    return x
  from pyvc import nparr
  if isinstance(x, nparr.SArr):
    return as_list(x)
  if hasattr(type(x), "_vc_symiter"):
    return x._vc_symiter()
  return x


def vzip(*xs, strict=False):
  if any(is_symseq(x) for x in xs):
    from pyvc import nparr
    gs = [getter(_seq(x)) for x in xs]
    n = None
    for x in xs:
      m = to_zint(vlen(_seq(x)))
      n = m if n is None or n.eq(m) else nparr.zmin(n, m)
    return SSeq(_dim(n), lambda k: builtins.tuple(g(k) for g in gs))
  return builtins.zip(*xs, strict=strict)


def vmap(f, *xs):
  if any(is_symseq(x) for x in xs):
    z = vzip(*xs)
    g = z.snapshot()
    p = cur()
    if getattr(p, "effects", None) is not None and p.branch(
        to_zint(z._n) > 0):
      k = fresh("map")
      p.reg(k)
      p.assume(k >= 0, k < to_zint(z._n))
      each(p, lambda: f(*g(k)), z._n, k)
    return SSeq(z._n, muted(p, lambda k: f(*g(k))))
  return builtins.map(f, *xs)


def venumerate(x, start=0):
  if is_symseq(x):
    x = _seq(x)
    g = x.snapshot()
    z = to_zint(start)
    return SSeq(x._n, lambda k: (SInt(z3.simplify(k + z)), g(k)))
  return builtins.enumerate(x, start)


class SFilter:
  """Lazily filtered symbolic sequence; order preserved"""

  def __init__(self, src, pred, post=None):
    self.src, self.pred, self.post = src, pred, post

  def _vc_list(self):
    return SFiltered(self)

  def _vc_symiter(self):
    return SFiltered(self)


class SFiltered(SList):
  """list(filter(pred, src)): increasing enumeration of the kept positions"""

  def __init__(self, f):
    from pyvc import nparr
    src = _seq(f.src)
    self.src = src
    g = src.snapshot()
    n = src._vc_len()
    p = cur()
    pred = f.pred
    kept = p.describe(lambda k: to_zbool(pred(g(k))), n)
    keep = lambda k: SBool(kept(k))
    m = nparr.SArr((n,), keep, "b")
    p.in_template += 1
    try:
      c, E, R = nparr.enum_mask(m)
    finally:
      p.in_template -= 1
    self.E, self.R, self.keep = E, R, keep
    post = self.post = f.post or (lambda x: x)
    super().__init__(c, lambda k: post(g(E(k))))
    self.of = (self._n, self._get)

  def pristine(self):
    """Not written since"""
    return self.of[0] is self._n and self.of[1] is self._get


class SChain:
  """Parts one after the other, not merged (where a contract asks for it)"""

  def __init__(self, parts):
    self.parts = list(parts)


def vfilter(pred, x):
  if isinstance(x, SChain):
    return SChain(vfilter(pred, q) for q in x.parts)
  if is_symseq(x) and not isinstance(x, SFilter):
    if pred is None:
      pred = lambda e: e
    return SFilter(x, pred)
  if isinstance(x, SFilter):
    if pred is None:
      pred = lambda e: e
    first, post = x.pred, x.post or (lambda e: e)
    p = cur()

    def both(e):
      a = to_zbool(first(e))
      if z3.is_false(z3.simplify(a)):
        return SBool(a)
      p.pc.append(a)
      try:
        b = to_zbool(pred(post(e)))
      finally:
        p.pc.pop()
      return SBool(z3.And(a, b))

    return SFilter(x.src, both, x.post)
  return builtins.filter(pred, x)


def vreversed(x):
  if is_symseq(x):
    x = _seq(x)
    g = x.snapshot()
    n = to_zint(x._vc_len())
    return SSeq(x._n, lambda k: g(z3.simplify(n - 1 - k)))
  if isinstance(x, SSeq):
    return builtins.reversed(builtins.list(iter(x)))
  return builtins.reversed(x)


_NOTGIVEN = object()


def _extremum(which):

  def f(*a, key=None, default=_NOTGIVEN):
    xs = a
    if len(a) == 1:
      x = a[0]
      if isinstance(x, SFilter):
        x = x._vc_list()
      if is_symseq(x):
        return _sym_ext(which, _seq(x), key, default)
      xs = builtins.list(x)
    if not xs:
      if default is not _NOTGIVEN:
        return default
      raise_(ValueError, f"{which}() arg is an empty sequence")
    kf = key or (lambda v: v)
    best = xs[0]
    kb = kf(best)
    for v in xs[1:]:
      kv = kf(v)
      c = (kv > kb) if which == "max" else (kv < kb)
      if isinstance(c, SBool):
        if V.is_num(best) and V.is_num(v) and key is None:
          best = V.ite(c, v, best)
          kb = best
          continue
        c = builtins.bool(c)
      if c:
        best, kb = v, kv
    return best

  return f


def _sym_ext(which, x, key, default):
  from pyvc import nparr
  n = x._vc_len()
  p = cur()
  if not p.valid(to_zint(n) > 0) and p.branch(to_zint(n) <= 0):
    if default is not _NOTGIVEN:
      return default
    raise_(ValueError, f"{which}() arg is an empty sequence")
  g = x.snapshot()
  kf = key or (lambda v: v)
  p.in_template += 1
  try:
    k0 = kf(g(fresh("mx")))
  finally:
    p.in_template -= 1
  if not V.is_num(k0):
    raise Unsupported("max/min over keys that are not numbers")
  a = nparr.SArr((n,), lambda k: nparr.np_scalar(kf(g(k))), V.kind(k0))
  i = nparr.arg_ext(a, None, which)
  return g(i.z)


vmax, vmin = _extremum("max"), _extremum("min")


def vsum(x, start=0):
  if is_symseq(x):
    from pyvc import nparr
    return nparr.reduce_sum(to_array(_seq(x))) + start
  r = start
  for v in x:
    r = r + v
  return r


def vany(x):
  if is_symseq(x):
    from pyvc import nparr
    return nparr.any_(to_array(_seq(x)))
  return builtins.any(x)


def vall(x):
  if is_symseq(x):
    from pyvc import nparr
    return nparr.all_(to_array(_seq(x)))
  return builtins.all(x)


def vsorted(x, key=None, reverse=False):
  if is_symseq(x) or isinstance(x, SFilter):
    return _sym_sorted(x, key, reverse)
  x = builtins.list(x)
  if any(isinstance(e, V.SVal) for e in x) or key is not None:
    # insertion sort with forking comparisons, stable
    kf = key or (lambda v: v)
    ks = [(kf(e), e) for e in x]
    if not any(isinstance(k, V.SVal) for k, _ in ks):
      return builtins.sorted(x, key=key, reverse=reverse)
    out = []
    for k, e in ks:
      j = len(out)
      while j > 0 and builtins.bool(
          (out[j - 1][0] < k) if reverse else (k < out[j - 1][0])):
        j -= 1
      out.insert(j, (k, e))
    return [e for _, e in out]
  return builtins.sorted(x, key=key, reverse=reverse)


def _sym_sorted(x, key, reverse):
  """Stable sorted permutation of the elements"""
  from pyvc import nparr
  if isinstance(x, SFilter):
    x = x._vc_list()
  x = _seq(x)
  g = x.snapshot()
  n = to_zint(x._vc_len())
  kf = key or (lambda v: v)
  p = cur()
  p.in_template += 1
  try:
    k0 = kf(g(fresh("so")))
  finally:
    p.in_template -= 1
  if not V.is_num(k0):
    raise Unsupported("sorting by keys that are not numbers")
  tz = to_zint if V.kind(k0) in "bi" else to_zreal
  I = z3.IntSort()
  P = core.fresh_fn("SORT", I, I)
  Q = core.fresh_fn("SORT_inv", I, I)
  rng = lambda k: z3.And(k >= 0, k < n)
  K = lambda k: tz(kf(g(k)))
  le = (lambda a, b: a >= b) if reverse else (lambda a, b: a <= b)
  p.fact(lambda k: z3.Implies(rng(k), z3.And(rng(P(k)), Q(P(k)) == k)), 1)
  p.fact(lambda k: z3.Implies(rng(k), z3.And(rng(Q(k)), P(Q(k)) == k)), 1)
  p.fact(
      lambda j, k: z3.Implies(
          z3.And(0 <= j, j < k, k < n),
          z3.And(le(K(P(j)), K(P(k))),
                 z3.Implies(K(P(j)) == K(P(k)), P(j) < P(k)))), 2)
  r = SList(x._n, lambda k: g(P(k)))
  r.perm = (P, Q)
  r.src = x
  return r


def vdivmod(a, b):
  return a // b, a % b


def vhash(x):
  return builtins.hash(x)


# ---------------------------------------------------------------------------
# loops
# ---------------------------------------------------------------------------
class _Unbound:

  def __repr__(self):
    return "<unbound>"


UNBOUND = _Unbound()


class LoopSpec:
  """Invariant of one loop; subclasses override"""

  def match(self, L, seq):
    return True

  def objects(self, L):
    """Heap objects that the body may write (havocked by havoc())"""
    return []

  def havoc(self, L, name, value, i):
    """New value of a local after an arbitrary number of iterations"""
    return auto_havoc(name, value)

  def havoc_list(self, path, lst, i):
    """Replace the contents of a list that the body is known to write"""
    return False

  def preserve(self, L, i, n):
    """Before the invariant is checked at the end of the body"""

  def havoc_heap(self, L, i):
    """Havoc the heap objects"""

  def inv(self, L, i, n):
    """Yields (label, condition) at the point before iteration i"""
    return []

  # Conditions that hold whenever the loop is left by break, the state being
  # one of the invariant. Where given, what follows the loop is explored once
  # for all ways of leaving it
  broke = None
  # The invariant is established by another verification condition of the same
  # property: only what is inferred of it is checked again
  light = False


def auto_havoc(name, v):
  from pyvc import nparr
  if v is UNBOUND:
    return UNBOUND
  if isinstance(v, (SInt,)) or isinstance(v, int) and not isinstance(v, bool):
    return SInt(fresh(name))
  if isinstance(v, (SReal, Fraction, float)):
    return SReal(fresh(name, "Real"))
  if isinstance(v, (SBool, bool)):
    return SBool(fresh(name, "Bool"))
  if isinstance(v, nparr.SArr):
    return nparr.SArr(v.shape, nparr.sym_elem(name, v.ndim, v.kind), v.kind)
  raise Unsupported(f"loop modifies local '{name}' of type "
                    f"{type(v).__name__}, not described by the invariant")


def flat_locals(L, names):
  """Locals, the components of tuples that a loop assigns included"""
  r = dict(L)
  for nm in names:
    if type(r.get(nm)) is builtins.tuple:
      _flat_into(r, nm, r[nm])
  return r


def _flat_into(r, nm, v):
  for j, x in builtins.enumerate(v):
    r[f"{nm}[{j}]"] = x
    if type(x) is builtins.tuple:
      _flat_into(r, f"{nm}[{j}]", x)


def _flat_names(L, names):
  have = set(L)
  r = flat_locals(L, names)
  return set(names) | (set(r) - have)


def _same_shape(a, b):
  if type(a) is not builtins.tuple:
    return type(b) is not builtins.tuple
  return type(b) is builtins.tuple and len(a) == len(b) and builtins.all(
      _same_shape(x, y) for x, y in builtins.zip(a, b))


def havoc_local(spec, L, nm, v, i):
  """Componentwise for tuples"""
  if type(v) is builtins.tuple:
    return builtins.tuple([
        havoc_local(spec, L, f"{nm}[{j}]", x, i)
        for j, x in builtins.enumerate(v)])
  return spec.havoc(L, nm, v, i)


def end_locals(lp, L):
  """Locals at the end of a loop's body"""
  e = lp.spec.entry
  for nm in lp.modified:
    if nm in e and nm in L and not _same_shape(e[nm], L[nm]):
      raise Unsupported(f"the shape of the tuple '{nm}' changes in a loop")
  return flat_locals(L, lp.modified)


class Loop:
  sym = False

  def leave(self):
    pass

  def __init__(self, it):
    self.it = it

  def __iter__(self):
    return iter(self.it)


def _pick(L, seq, qual, site):
  p = cur()
  for spec in p.loop_specs if isinstance(p.loop_specs, list) else []:
    if p.spec_site.get(id(spec), site) != site:
      continue
    if isinstance(spec, WhileSpec):
      continue
    if spec.match(L, seq):
      p.spec_site[id(spec)] = site
      return spec
  return None


class SymLoop:
  sym = True

  def leave(self):
    """break"""
    p = cur()
    if self.spec.broke is not None:
      L = end_locals(self, sys._getframe(1).f_locals)
      if not self.spec.light:
        for lab, c in self.spec.inv(L, self.i, self.n):
          inv_prove(p, f"{self.qual}: invariant when left: {lab}", c)
        for lab, c in self.spec.broke(L, self.i, self.n):
          inv_prove(p, f"{self.qual}: left: {lab}", c)
      p.cover("loop left")
      raise PathEnd("loop left")
    p.frozen, p.havocked = self.saved
    _leave(self)

  def __init__(self, seq, spec, qual, key):
    self.seq = _seq(seq)
    self.spec = spec
    self.qual = qual
    self.key = key
    self.n = to_zint(self.seq._vc_len())
    self.g = self.seq.snapshot()
    self.state = 0

  def havoc(self, L, names):
    p = cur()
    if sys._getframe(1).f_code.co_flags & 0x20 and not getattr(
        self.spec, "generator", False):
      raise Unsupported("a loop over a sequence of unknown length in a "
                        "generator")
    L = dict(L)
    spec, q = self.spec, self.qual
    self.modified = tuple(names)
    spec.names = _flat_names(L, names)
    L = flat_locals(L, names)
    spec.entry = dict(L)
    spec.start = True
    _announce(self, spec, L)
    zero = z3.IntVal(0)
    for lab, c in spec.inv(L, zero, self.n):
      if not spec.light:
        inv_prove(p, f"{q}: invariant holds on entry: {lab}", c)
    spec.start = False
    i = self.i = fresh("iter")
    p.reg(i)
    p.assume(i >= 0, i <= self.n)
    self.saved = (p.frozen, set(p.havocked))
    p.heap_clock += 1
    p.frozen = p.heap_clock
    for o in spec.objects(L):
      p.havocked.add(id(o))
      p.keep.append(o)
    _enter(spec, i)
    spec.havoc_heap(L, i)
    out = []
    for nm in names:
      v = havoc_local(spec, L, nm, L.get(nm, UNBOUND), i)
      L[nm] = v
      if type(v) is builtins.tuple:
        _flat_into(L, nm, v)
      out.append(v)
    for _, c in spec.inv(L, i, self.n):
      inv_assume(p, c)
    return out

  def __iter__(self):
    return self

  def __next__(self):
    p = cur()
    if self.state == 0:
      self.state = 1
      if self.spec.broke is not None:
        if p.choose("another iteration"):
          p.assume(self.i < self.n)
          return self.g(self.i)
        L = flat_locals(sys._getframe(1).f_locals, self.modified)
        for _, c in self.spec.broke(L, self.i, self.n):
          e = self.i == self.n
          inv_assume(p, All(c.arity, lambda *k, b=c.body: z3.Or(e, b(*k)))
                     if isinstance(c, All) else z3.Or(e, c))
      elif p.branch(self.i < self.n):
        return self.g(self.i)
      else:
        p.assume(self.i == self.n)
      p.frozen, p.havocked = self.saved
      _leave(self)
      raise StopIteration
    L = end_locals(self, sys._getframe(1).f_locals)
    nxt = z3.simplify(self.i + 1)
    self.spec.preserve(L, nxt, self.n)
    for lab, c in self.spec.inv(L, nxt, self.n):
      if not self.spec.light:
        inv_prove(p, f"{self.qual}: invariant preserved: {lab}", c)
    p.cover("loop body")
    raise PathEnd("loop body done")


def _known_objects(L):
  """Arrays and lists reachable from the locals by at most one attribute"""
  from pyvc import nparr

  def add(path, v):
    if isinstance(v, (nparr.SArr, SList)):
      out.append((path, v))
      return True
    return False

  out = []
  for k in sorted(L):
    v = L[k]
    if not add((k,), v) and hasattr(v, "__dict__") and not isinstance(
        v, (type, types.ModuleType, types.FunctionType)):
      for a in sorted(vars(v)):
        add((k, a), vars(v)[a])
  return out


def _identity(v):
  st = getattr(v, "store", None)
  return id(getattr(st, "of", st)) if st is not None else id(v)


def loop_writes(o, msg):
  """A loop body writes an object that has not been havocked: remember that
  and start over"""
  p = cur()
  for lp, objs in reversed(p.loops):
    for path, v in objs:
      if _identity(v) == id(o):
        if path in p.ex.memory.get(("writes", lp.key), ()):
          break
        p.ex.learn(("writes", lp.key), path)
  raise Unsupported(msg)


def _announce(lp, spec, L):
  """What the loop is known to write"""
  p = cur()
  objs = _known_objects(L)
  p.loops.append((lp, objs))
  spec.key = lp.key
  spec.written = []
  done = set()
  for path, v in objs:
    if path in p.ex.memory.get(("writes", lp.key), ()) and \
        _identity(v) not in done:
      done.add(_identity(v))
      spec.written.append((path, v))


def _enter(spec, i):
  """Havoc what the loop is known to write"""
  from pyvc import nparr
  p = cur()
  for path, v in spec.written:
    p.keep.append(v)
    if isinstance(v, nparr.SArr):
      st = v.store
      st = getattr(st, "of", st)
      st.fn = nparr.memo(nparr.sym_elem(path[-1], len(st.shape), st.kind))
      st.version += 1
      p.havocked.add(id(st))
    else:
      p.havocked.add(id(v))
      if not spec.havoc_list(path, v, i):
        raise Unsupported("a loop writes a list that its invariant does not "
                          "describe")


def _leave(lp):
  p = cur()
  while p.loops and p.loops.pop()[0] is not lp:
    pass


class All:
  """A universally quantified invariant: forall k: body(*k)"""

  def __init__(self, arity, body):
    self.arity, self.body = arity, body


def inv_prove(p, name, c):
  if isinstance(c, All):
    ks = [fresh("sk") for _ in range(c.arity)]
    st = len(p.terms)
    p.reg(*ks)
    p.prove(name, c.body(*ks))
    del p.terms[st:]
  else:
    p.prove(name, c)


def inv_valid(p, c):
  if isinstance(c, All):
    ks = [fresh("sk") for _ in range(c.arity)]
    st = len(p.terms)
    p.reg(*ks)
    r = p.provable(c.body(*ks))
    del p.terms[st:]
    return r
  return p.provable(c)


def inv_assume(p, c):
  if isinstance(c, All):
    p.fact(c.body, c.arity, "invariant")
  else:
    p.assume(c)


def vc_loop(it, qual, site, L):
  if isinstance(it, SFilter):
    it = it._vc_list()
  if not is_symseq(it):
    return Loop(it)
  spec = _pick(L, it, qual, site)
  if spec is None:
    raise Unsupported(f"no invariant for a loop over a sequence of unknown "
                      f"length in {qual}")
  return SymLoop(it, spec, qual, site)


class While:
  sym = False

  def leave(self):
    pass

  def cond(self, f):
    return f()


class WhileSpec:

  def match(self, L, seq):
    return True

  def objects(self, L):
    return []

  def havoc(self, L, name, value, i):
    return auto_havoc(name, value)

  def havoc_list(self, path, lst, i):
    """Replace the contents of a list that the body is known to write"""
    return False

  def preserve(self, L, i, n):
    """Before the invariant is checked at the end of the body"""

  def havoc_heap(self, L, i):
    pass

  def inv(self, L, i, n):
    return []

  def variant(self, L):
    """Decreasing non-negative integer measure or None"""
    return None


class SymWhile:
  sym = True

  def leave(self):
    """break"""
    p = cur()
    p.frozen, p.havocked = self.saved
    _leave(self)

  def __init__(self, spec, qual, key):
    self.spec, self.qual, self.key = spec, qual, key
    self.state = 0

  def havoc(self, L, names):
    r = SymLoop.havoc
    p = cur()
    L = dict(L)
    spec = self.spec
    self.modified = tuple(names)
    spec.names = _flat_names(L, names)
    L = flat_locals(L, names)
    spec.entry = dict(L)
    spec.start = True
    _announce(self, spec, L)
    for lab, c in spec.inv(L, z3.IntVal(0), None):
      inv_prove(p, f"{self.qual}: invariant holds on entry: {lab}", c)
    spec.start = False
    i = self.i = fresh("iter")
    p.assume(i >= 0)
    self.saved = (p.frozen, set(p.havocked))
    p.heap_clock += 1
    p.frozen = p.heap_clock
    for o in spec.objects(L):
      p.havocked.add(id(o))
      p.keep.append(o)
    _enter(spec, i)
    spec.havoc_heap(L, i)
    out = []
    for nm in names:
      v = havoc_local(spec, L, nm, L.get(nm, UNBOUND), i)
      L[nm] = v
      if type(v) is builtins.tuple:
        _flat_into(L, nm, v)
      out.append(v)
    for _, c in spec.inv(L, i, None):
      inv_assume(p, c)
    return out

  def cond(self, f):
    p = cur()
    if self.state == 0:
      self.state = 1
      self.v0 = self.spec.variant(
          flat_locals(sys._getframe(1).f_locals, self.modified))
      c = f()
      r = p.branch(to_zbool(c)) if isinstance(c, V.SVal) else builtins.bool(c)
      if not r:
        p.frozen, p.havocked = self.saved
        _leave(self)
      return r
    L = end_locals(self, sys._getframe(1).f_locals)
    nxt = z3.simplify(self.i + 1)
    self.spec.preserve(L, nxt, None)
    for lab, c in self.spec.inv(L, nxt, None):
      inv_prove(p, f"{self.qual}: invariant preserved: {lab}", c)
    if self.v0 is not None:
      v1 = self.spec.variant(L)
      p.prove(f"{self.qual}: variant decreases and is bounded",
              z3.And(to_zint(v1) < to_zint(self.v0), to_zint(self.v0) >= 0))
    raise PathEnd("loop body done")


def vc_while(qual, site, L):
  p = core.maybe_cur()
  if p is None:
    return While()
  for spec in p.loop_specs if isinstance(p.loop_specs, list) else []:
    if isinstance(spec, WhileSpec):
      if p.spec_site.get(id(spec), site) != site:
        continue
      if spec.match(L, None):
        p.spec_site[id(spec)] = site
        return SymWhile(spec, qual, site)
  return While()


# ---------------------------------------------------------------------------
# comprehensions
# ---------------------------------------------------------------------------
def vc_unpack(x, n):
  from pyvc import nparr
  if isinstance(x, nparr.SArr):
    nparr.dim_eq_or_raise(x.shape[0], n, "not enough values to unpack")
    return [x[i] for i in range(n)]
  if isinstance(x, SSeq):
    nparr.dim_eq_or_raise(x._vc_len(), n, "not enough values to unpack")
    return [x.get(z3.IntVal(i)) for i in range(n)]
  x = builtins.list(x)
  if len(x) != n:
    raise ValueError("not enough or too many values to unpack")
  return x


def each(p, f, n, k):
  """What the body at an arbitrary index k logs is logged for each of the n
  elements"""
  log = getattr(p, "effects", None)
  if log is None:
    return f()
  mark = len(log)
  r = f()
  ev = log[mark:]
  del log[mark:]
  if ev:
    log.append(("each", n, k, ev))
  return r


def muted(p, f):
  """The description of an element, whose effects are logged already"""
  if getattr(p, "effects", None) is None:
    return f

  def g(*a):
    log = p.effects
    mark = len(log)
    p.muting = getattr(p, "muting", 0) + 1
    try:
      return f(*a)
    finally:
      p.muting -= 1
      del log[mark:]

  return g


def vc_listcomp(f, it, cond):
  if isinstance(it, SChain):
    r = SList(0, None)
    for q in it.parts:
      r.extend(vc_listcomp(f, q, cond))
    return r
  if isinstance(it, SFilter):
    it = it._vc_list()
  if is_symseq(it):
    if cond is not None:
      return SFilter(it, cond, f)._vc_list()
    s = _seq(it)
    g = s.snapshot()
    n = s._vc_len()
    p = cur()
    # evaluate the body once at an arbitrary index, so that its exceptions and
    # obligations are explored
    # (in the description of an element this has been done for the element)
    k = fresh("lc")
    if not p.in_template and p.branch(to_zint(n) > 0):
      p.reg(k)
      p.assume(k >= 0, k < to_zint(n))
      each(p, lambda: f(g(k)), n, k)
    return SList(n, muted(p, lambda i: f(g(i))))
  if cond is None:
    return [f(x) for x in it]
  return [f(x) for x in it if cond(x)]


def vc_genexp(f, it, cond):
  if isinstance(it, SChain):
    return SChain(vc_genexp(f, q, cond) for q in it.parts)
  if isinstance(it, SFilter):
    if cond is not None:
      it = vfilter(cond, it)
    post = it.post or (lambda e: e)
    return SFilter(it.src, it.pred, lambda e: f(post(e)))
  if is_symseq(it):
    if cond is not None:
      return SFilter(it, cond, f)
    return vc_listcomp(f, it, None)
  if cond is None:
    return (f(x) for x in it)
  return (f(x) for x in it if cond(x))


def vc_is_map(it, qual, site, L):
  """A loop that maps a sequence of unknown length, of which no contract says
  more"""
  return (is_symseq(it) or isinstance(it, (SFilter, SChain))) and _pick(
      L, it, qual, site) is None


def vc_map_append(acc, f, it, cond, new):
  r = vc_listcomp(f, it, cond)
  if isinstance(acc, SList):
    acc.extend(r)
    return acc
  if type(acc) is list and not acc and new:
    return r
  raise Unsupported("a list of known length grows by an unknown number")


def vc_map_sum(acc, f, it, cond, new):
  if not V.is_num(acc):
    raise Unsupported("a sum of what are not numbers, by a loop")
  return acc + vsum(vc_genexp(f, it, cond))


def vc_emptylist():
  """An empty list display; of the symbolic kind where the contract of the
  function under verification says that it may grow by an unknown number"""
  p = core.maybe_cur()
  return SList(0, None) if p is not None and \
      getattr(p, "sym_lists", False) else []


def vc_display(is_list, *parts):
  """[*a, b] and (*a, b)"""
  out = [[]]
  for star, x in parts:
    if not star:
      out[-1].append(x)
      continue
    if isinstance(x, SFilter):
      x = x._vc_list()
    if is_symseq(x):
      out += [x if isinstance(x, SSeq) else _seq(x), []]
    else:
      out[-1].extend(x)
  if len(out) == 1:
    return out[0] if is_list else builtins.tuple(out[0])
  cls = SList if is_list else SSeq
  r = None
  for x in out:
    if isinstance(x, list) and not x:
      continue
    r = x if r is None else concat(r, x, cls)
  if r is None or type(r) is not cls:
    r = concat(r, [], cls)
  return r


def vc_flat(it):
  if is_symseq(it):
    return flatten(it)
  return [x for y in it for x in y]


def vc_conc(it):
  if is_symseq(it) or isinstance(it, SFilter):
    raise Unsupported("set/dict comprehension over a symbolic sequence")
  return it


def vc_not(x):
  return SBool(z3.Not(x.z)) if type(x) is SBool else not x


def vc_div(a, b):
  if type(a) in (int, bool, Fraction) and type(b) in (int, bool, Fraction):
    return Fraction(a) / Fraction(b)  # ZeroDivisionError as in Python
  return a / b


def vc_fstring(*parts):
  from pyvc import strs
  return strs.fstring(*parts)


def vc_join(sep, parts):
  from pyvc import strs
  return strs.join(sep, parts)


BUILTINS = dict(
    __vc_is_map__=vc_is_map, __vc_map_append__=vc_map_append,
    __vc_map_sum__=vc_map_sum,
    __vc_fstring__=vc_fstring, __vc_join__=vc_join,
    len=vlen, int=vint, float=vfloat, bool=vbool, complex=vcomplex,
    list=vlist, tuple=vtuple, range=vrange, zip=vzip, map=vmap,
    enumerate=venumerate, filter=vfilter, reversed=vreversed, max=vmax,
    min=vmin, sum=vsum, any=vany, all=vall, sorted=vsorted, divmod=vdivmod,
    __vc_loop__=vc_loop, __vc_while__=vc_while, __vc_unpack__=vc_unpack,
    __vc_listcomp__=vc_listcomp, __vc_genexp__=vc_genexp,
    __vc_flat__=vc_flat, __vc_star__=vstar, __vc_display__=vc_display, __vc_emptylist__=vc_emptylist, __vc_conc__=vc_conc, __vc_div__=vc_div, __vc_not__=vc_not,
    __vc_num__=lambda s: Fraction(s), __vc_locals__=builtins.locals)
