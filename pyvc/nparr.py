"""Symbolic numpy arrays: a shape (concrete or symbolic), an element function
over mathematical integers and reals, views over shared storage, and the
contracts of the numpy operations used by the code under verification."""
import math

import z3

from pyvc import axioms as ax
from pyvc import core
from pyvc import values as V
from pyvc.core import Unsupported, cur, fresh, fresh_fn
from pyvc.values import (SBool, SCplx, SInt, SReal, arith, compare, ite, kind,
                         lift, raise_, to_zbool, to_zint, to_zreal)

_simp = z3.simplify


# ---------------------------------------------------------------------------
# dtypes
# ---------------------------------------------------------------------------
class DType:
  """numpy dtype; kind b i u f c"""

  def __init__(self, k, name=None, bits=64):
    self.kind = k
    self.name = name or {"b": "bool", "i": "int64", "f": "float64",
                         "c": "complex128", "O": "object"}.get(k, k)
    self.bits = bits

  def __call__(self, x=0):
    if self.kind in "iu":
      raise Unsupported("fixed width integer scalar")
    r = astype_scalar(lift(x), self)
    r.np = True
    return r

  def __eq__(self, o):
    o = as_dtype(o, None)
    return o is not None and o.kind == self.kind and o.bits == self.bits

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash((self.kind, self.bits))

  @property
  def type(self):
    return self

  itemsize = property(lambda s: max(1, s.bits // 8) *
                      (2 if s.kind == "c" else 1))

  def __repr__(self):
    return f"dtype({self.name})"


def as_dtype(d, default="f"):
  if d is None:
    return None if default is None else DType(default)
  if isinstance(d, DType):
    return d
  n = getattr(d, "_vc_dtype", None)
  if n is not None:
    return DType(n)
  if d is bool or d in ("bool", "?", "b"):
    return DType("b")
  if d is int or d in ("int", "int64", "i"):
    return DType("i")
  if d is float or d in ("float", "float64", "f", "d"):
    return DType("f")
  if d is complex or d in ("complex", "complex128", "c"):
    return DType("c")
  if d is object:
    return DType("O")
  if default is None:
    return None
  raise Unsupported(f"dtype {d!r}")


def astype_scalar(x, dtype):
  k = as_dtype(dtype).kind
  x = lift(x)
  if k == kind(x):
    return x
  if k == "f":
    if isinstance(x, SCplx):
      return SReal(x.re, None, True)
    return SReal(_simp(to_zreal(x)), V.nan_of(x), True)
  if k == "c":
    return V.cplx(x)
  if k == "i":
    if isinstance(x, SReal):
      r = x.__trunc__()
      r.np = True
      return r
    return SInt(_simp(to_zint(x)), True)
  if k == "b":
    return SBool(_simp(to_zbool(x)), True)
  raise Unsupported(f"conversion to {k}")


# ---------------------------------------------------------------------------
# dimensions and indices
# ---------------------------------------------------------------------------
def zi(x):
  return _simp(to_zint(x))


def dim(z):
  """z3 term -> python int when it is a numeral, SInt otherwise"""
  if isinstance(z, (int, SInt)) and not isinstance(z, bool):
    if isinstance(z, SInt):
      c = V._conc(_simp(z.z))
      return int(c) if c is not None else z
    return z
  z = _simp(z)
  c = V._conc(z)
  return int(c) if c is not None else SInt(z)


def same(a, b):
  """Provable equality of two dims without forking"""
  a, b = zi(a), zi(b)
  e = _simp(a == b)
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  return cur().valid(e)


def dim_eq_or_raise(a, b, msg="shape mismatch"):
  a, b = zi(a), zi(b)
  e = _simp(a == b)
  if z3.is_true(e):
    return
  if z3.is_false(e) or not cur().branch(e):
    raise_(ValueError, msg)


def vite(c, a, b):
  """if-then-else on z3 ints, decided when the path decides it"""
  c = _simp(c)
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  p = cur()
  if p.valid(c):
    return a
  if p.valid(z3.Not(c)):
    return b
  return z3.If(c, a, b)


def zmax(a, b):
  return vite(a >= b, a, b)


def zmin(a, b):
  return vite(a <= b, a, b)


def memo(fn):
  """Cache element terms by index identity"""
  table = {}

  def g(*idx):
    k = tuple(i.get_id() for i in idx)
    e = table.get(k)
    if e is None:
      e = table[k] = (idx, fn(*idx))
    return e[1]

  return g


# ---------------------------------------------------------------------------
# storage and arrays
# ---------------------------------------------------------------------------
class Store:
  __slots__ = ("shape", "fn", "born", "kind", "readonly", "version")

  def __init__(self, shape, fn, k, readonly=False):
    self.shape = tuple(shape)
    self.fn = memo(fn)
    self.kind = k
    p = core.maybe_cur()
    self.born = -1
    if p is not None:
      p.heap_clock += 1
      self.born = p.heap_clock
    self.readonly = readonly
    self.version = 0

  def write(self, fn):
    p = core.maybe_cur()
    if p is not None and p.frozen and self.born < p.frozen and \
        id(self) not in p.havocked:
      from pyvc import seq
      seq.loop_writes(self, "a loop body writes an array that its invariant "
                      "does not describe")
    self.fn = memo(fn)
    self.version += 1


class PartStore:
  """The real or imaginary parts of a store of complex numbers"""
  kind = "f"

  def __init__(self, of, part):
    self.of, self.part = of, part

  shape = property(lambda self: self.of.shape)
  born = property(lambda self: self.of.born)
  version = property(lambda self: self.of.version)
  readonly = property(lambda self: self.of.readonly)

  @property
  def fn(self):
    f, g = self.of.fn, (s_real, s_imag)[self.part]
    return lambda *i: g(f(*i))

  def write(self, fn):
    old, part = self.of.fn, self.part

    def new(*i):
      c, v = V.cplx(old(*i)), to_zreal(fn(*i))
      return SCplx(c.re, v) if part else SCplx(v, c.im)

    self.of.write(new)


class SArr:
  """ndarray"""
  __array_priority__ = 2000
  _vc_array = True

  def __init__(self, shape, fn=None, k="f", store=None, fwd=None, inv=None,
               writeable=True):
    self._shape = tuple(dim(d) for d in shape)
    if store is None:
      store = Store(self._shape, fn, k)
    self.store = store
    self.fwd = fwd  # None: identity
    self.inv = inv  # None with fwd: not invertible (not writable)
    self.kind = store.kind if k is None else store.kind
    self.writeable = writeable

  # -- elements -----------------------------------------------------------
  def elem(self):
    """Element function of the current contents"""
    f, fwd = self.store.fn, self.fwd
    if fwd is None:
      return f
    return lambda *i: f(*fwd(*i))

  def at(self, *idx):
    return self.elem()(*[to_zint(i) for i in idx])

  def z(self, *idx):
    return to_zreal(self.at(*idx))

  # -- attributes ---------------------------------------------------------
  @property
  def shape(self):
    return self._shape

  @property
  def ndim(self):
    return len(self._shape)

  @property
  def size(self):
    n = 1
    for d in self._shape:
      n = n * d
    return n

  @property
  def dtype(self):
    return DType(self.kind)

  # Distance between consecutive elements of a one-dimensional view, in items
  # (None: contiguous)
  cell = None

  @property
  def strides(self):
    s = []
    n = DType(self.kind).itemsize
    if self.cell is not None:
      return (SInt(self.cell * n),)
    for d in reversed(self._shape):
      s.append(n)
      n = n * d
    return tuple(reversed(s))

  @property
  def itemsize(self):
    return DType(self.kind).itemsize

  @property
  def T(self):
    return self.transpose()

  @property
  def real(self):
    return real(self)

  @property
  def imag(self):
    return imag(self)

  @property
  def flat(self):
    return reshape(self, -1)

  def _vc_len(self):
    if not self._shape:
      raise_(TypeError, "len() of unsized object")
    return self._shape[0]

  def __len__(self):
    n = self._vc_len()
    if isinstance(n, int):
      return n
    raise Unsupported("len() of a symbolic array in uninstrumented code")

  def __iter__(self):
    n = self._vc_len()
    if not isinstance(n, int):
      raise Unsupported("iteration over a symbolic array here")
    return iter([self[i] for i in range(n)])

  def __bool__(self):
    if all(isinstance(d, int) for d in self._shape):
      n = 1
      for d in self._shape:
        n *= d
      if n == 1:
        return bool(self.at(*[0] * self.ndim))
    raise_(ValueError, "The truth value of an array with more than one "
           "element is ambiguous. Use a.any() or a.all()")

  def __repr__(self):
    return f"<SArr {self.kind} {self._shape}>"

  def _as_scalar(self):
    if self.ndim == 0:
      return self.at()
    raise Unsupported("array used as a scalar")

  # -- methods ------------------------------------------------------------
  def copy(self):
    e = self.elem()
    return SArr(self._shape, e, self.kind)

  def astype(self, dtype, copy=True):
    d = as_dtype(dtype)
    e = self.elem()
    return SArr(self._shape, lambda *i: astype_scalar(e(*i), d), d.kind)

  def transpose(self, *axes):
    n = self.ndim
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
      axes = tuple(axes[0])
    axes = tuple(axes) or tuple(reversed(range(n)))
    back = [axes.index(i) for i in range(n)]
    return _view(self, [self._shape[a] for a in axes],
                 lambda *i: tuple(i[b] for b in back),
                 lambda *s: (True, tuple(s[a] for a in axes)))

  def reshape(self, *shape, order="C"):
    if len(shape) == 1:
      shape = shape[0]
    return reshape(self, shape)

  def ravel(self):
    return reshape(self, -1)

  def flatten(self):
    return reshape(self, -1).copy()

  def squeeze(self, axis=None):
    return squeeze(self, axis)

  def item(self, *a):
    if a:
      return self[a].item()
    return reshape(self, -1)[0].item()

  def fill(self, v):
    self[...] = v

  def tolist(self):
    from pyvc import seq
    return seq.from_array(self)

  def sum(self, axis=None, keepdims=False, **kw):
    return reduce_sum(self, axis, keepdims, **kw)

  def mean(self, axis=None, keepdims=False, **kw):
    return mean(self, axis, keepdims=keepdims, **kw)

  def max(self, axis=None, keepdims=False, **kw):
    return reduce_ext(self, axis, keepdims, "max", **kw)

  def min(self, axis=None, keepdims=False, **kw):
    return reduce_ext(self, axis, keepdims, "min", **kw)

  def std(self, axis=None, **kw):
    return std(self, axis, **kw)

  def any(self, axis=None):
    return any_(self, axis)

  def all(self, axis=None):
    return all_(self, axis)

  def argmax(self, axis=None):
    return arg_ext(self, axis, "max")

  def argmin(self, axis=None):
    return arg_ext(self, axis, "min")

  def argsort(self, axis=-1, kind=None):
    return argsort(self)

  def conj(self):
    return conjugate(self)

  conjugate = conj

  def dot(self, o):
    return matmul(self, o)

  def setflags(self, write=None, **kw):
    if write is not None:
      self.writeable = bool(write)

  @property
  def flags(self):
    me = self

    class F:

      @property
      def writeable(self):
        return me.writeable

      @writeable.setter
      def writeable(self, v):
        me.writeable = bool(v)

    return F()

  # -- indexing -------------------------------------------------------------
  def __getitem__(self, key):
    from pyvc import seq
    if isinstance(key, seq.SSeq):
      key = asarray(key)
    if isinstance(key, list):
      key = asarray(key)
    if isinstance(key, SArr) and key.ndim > 0:
      return fancy_get(self, key)
    if isinstance(key, tuple) and any(
        isinstance(k, SArr) and k.ndim > 0 for k in key):
      return mixed_get(self, key)
    v = basic_view(self, key)
    if v.ndim == 0 and not _has_ellipsis(key):
      r = v.at()
      return np_scalar(r)
    return v

  def __setitem__(self, key, value):
    from pyvc import seq
    if isinstance(key, seq.SSeq):
      key = asarray(key)
    if isinstance(key, SArr) and key.ndim > 0:
      fancy_set(self, key, value)
      return
    if isinstance(key, tuple) and any(
        isinstance(k, SArr) and k.ndim > 0 for k in key):
      raise Unsupported("mixed fancy assignment")
    v = basic_view(self, key)
    assign(v, value)


def _bin(name):
  return lambda self, o: _op2(name, self, o), lambda self, o: _op2(
      name, o, self), lambda self, o: _iop(name, self, o)


def _op2(name, a, b):
  if b is None or a is None or isinstance(a, str) or isinstance(b, str):
    raise_(TypeError, "unsupported operand type(s)")
  from pyvc import seq
  if isinstance(a, (list, tuple, seq.SSeq)):
    a = asarray(a)
  if isinstance(b, (list, tuple, seq.SSeq)):
    b = asarray(b)
  if not _arr_like(a) or not _arr_like(b):
    return NotImplemented
  return UF[name](a, b)


def _iop(name, a, b):
  return UF[name](a, b, out=a)


for _n, _m in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"),
               ("truediv", "true_divide"), ("floordiv", "floor_divide"),
               ("mod", "mod"), ("pow", "power"), ("and", "bitwise_and"),
               ("or", "bitwise_or"), ("xor", "bitwise_xor")):
  _f, _r, _i = _bin(_m)
  setattr(SArr, f"__{_n}__", _f)
  setattr(SArr, f"__r{_n}__", _r)
  setattr(SArr, f"__i{_n}__", _i)
for _n, _m in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
               ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
  setattr(SArr, f"__{_n}__", _bin(_m)[0])
SArr.__hash__ = object.__hash__
SArr.__neg__ = lambda self: UF["negative"](self)
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: UF["absolute"](self)
SArr.__invert__ = lambda self: UF["invert"](self)
SArr.__matmul__ = lambda self, o: matmul(self, o)
SArr.__rmatmul__ = lambda self, o: matmul(o, self)


def _arr_like(x):
  return isinstance(x, SArr) or V.is_num(x) or isinstance(x, complex)


def np_scalar(x):
  """Fresh scalar flagged as a numpy scalar"""
  x = lift(x)
  if isinstance(x, SInt):
    return SInt(x.z, True)
  if isinstance(x, SReal):
    return SReal(x.z, x.nan, True)
  if isinstance(x, SBool):
    return SBool(x.z, True)
  return x


def _has_ellipsis(key):
  return key is Ellipsis or isinstance(key, tuple) and any(
      k is Ellipsis for k in key)


def _view(a, shape, fwd, inv, writeable=None):
  """View of a view; fwd: idx -> a-idx; inv: a-idx -> (cond, idx)"""
  af, ai = a.fwd, a.inv
  if af is None:
    nf, ni = fwd, inv
  else:

    def nf(*i):
      return af(*fwd(*i))

    if ai is None or inv is None:
      ni = None
    else:

      def ni(*s):
        c1, m = ai(*s)
        c2, r = inv(*m)
        return _and(c1, c2), r

  r = SArr(shape, k=a.kind, store=a.store, fwd=nf, inv=ni,
           writeable=a.writeable if writeable is None else writeable)
  r.base = a
  return r


def _and(a, b):
  if a is True:
    return b
  if b is True:
    return a
  return z3.And(a, b)


def norm_index(i, n, what="index is out of bounds"):
  """Python index -> non-negative z3 index, IndexError when out of range"""
  i, n = zi(i), zi(n)
  ok = _simp(z3.And(i >= -n, i < n))
  if z3.is_false(ok) or not z3.is_true(ok) and not cur().branch(ok):
    raise_(IndexError, what)
  return _simp(vite(i >= 0, i, i + n))


def norm_slice(sl, n):
  """-> (start, step, length) as z3 terms, Python slice semantics"""
  n = zi(n)
  step = zi(1 if sl.step is None else sl.step)
  sc = V._conc(step)
  if sc == 0:
    raise_(ValueError, "slice step cannot be zero")
  if sc is None:
    if cur().valid(step > 0):
      pos = True
    elif cur().valid(step < 0):
      pos = False
    elif cur().branch(step == 0):
      raise_(ValueError, "slice step cannot be zero")
    else:
      pos = cur().branch(step > 0)
  else:
    pos = sc > 0

  def clamp(v, lo, hi):
    v = zi(v)
    v = vite(v < 0, v + n, v)
    return _simp(vite(v < lo, lo, vite(v > hi, hi, v)))

  zero, one = z3.IntVal(0), z3.IntVal(1)
  if pos:
    a = zero if sl.start is None else clamp(sl.start, zero, n)
    b = n if sl.stop is None else clamp(sl.stop, zero, n)
    ln = b - a if sc == 1 else (b - a + step - 1) / step
  else:
    a = n - 1 if sl.start is None else clamp(sl.start, -one, n - 1)
    b = z3.IntVal(-1) if sl.stop is None else clamp(sl.stop, -one, n - 1)
    ln = a - b if sc == -1 else (a - b - step - 1) / (-step)
  ln = _simp(ln)
  if sc in (1, -1):
    ln = _simp(zmax(ln, zero))
  else:
    ln = _simp(vite((b > a) if pos else (a > b), ln, zero))
  return _simp(a), step, ln


def basic_view(a, key):
  if not isinstance(key, tuple):
    key = (key,)
  key = [k for k in key]
  n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
  if n_real > a.ndim:
    raise_(IndexError, "too many indices for array")
  if any(k is Ellipsis for k in key):
    e = [k is Ellipsis for k in key].index(True)
    key[e:e + 1] = [slice(None)] * (a.ndim - n_real)
  else:
    key += [slice(None)] * (a.ndim - n_real)
  # plan: one entry per key element
  shape, plan = [], []
  ax_ = 0
  for k in key:
    if k is None:
      plan.append(("new",))
      shape.append(1)
    elif isinstance(k, slice):
      if k.start is None and k.stop is None and k.step is None:
        plan.append(("all",))
        shape.append(a.shape[ax_])
      else:
        s, st, ln = norm_slice(k, a.shape[ax_])
        plan.append(("slice", s, st, ln))
        shape.append(dim(ln))
      ax_ += 1
    else:
      if isinstance(k, (bool, SBool)):
        raise Unsupported("boolean scalar index")
      if isinstance(k, (SReal, float)):
        raise_(IndexError, "only integers, slices (`:`), ellipsis (`...`), "
               "numpy.newaxis (`None`) and integer or boolean arrays are "
               "valid indices")
      if isinstance(k, SArr):
        k = k.at()
      plan.append(("int", norm_index(k, a.shape[ax_])))
      ax_ += 1
  if all(q[0] == "all" for q in plan):
    return _view(a, a.shape, lambda *i: i, lambda *s: (True, s))

  def fwd(*i):
    out, j = [], 0
    for q in plan:
      if q[0] == "new":
        j += 1
      elif q[0] == "all":
        out.append(i[j])
        j += 1
      elif q[0] == "slice":
        out.append(_simp(q[1] + q[2] * i[j]))
        j += 1
      else:
        out.append(q[1])
    return tuple(out)

  def inv(*s):
    c, out, j = True, [], 0
    for q in plan:
      if q[0] == "new":
        out.append(z3.IntVal(0))
        continue
      x = s[j]
      j += 1
      if q[0] == "all":
        out.append(x)
      elif q[0] == "int":
        c = _and(c, x == q[1])
      else:
        _, st, step, ln = q
        sc = V._conc(step)
        if sc == 1:
          v = _simp(x - st)
        elif sc == -1:
          v = _simp(st - x)
        else:
          v = V.ifloordiv(x - st, step)
          c = _and(c, v * step + st == x)
        c = _and(c, z3.And(v >= 0, v < ln))
        out.append(v)
    return c, tuple(out)

  return _view(a, shape, fwd, inv)


def assign(view, value, where=None):
  """view[...] = value"""
  if not view.writeable or view.store.readonly:
    raise_(ValueError, "assignment destination is read-only")
  v = asarray(value)
  k = view.kind
  if v.kind == "c" and k != "c":
    # numpy discards the imaginary part with a warning
    pass
  val = broadcast_to_elem(v, view.shape)
  write_elem(view, val, where)


def write_elem(view, val, where=None):
  k = view.kind
  old = view.store.fn
  if view.fwd is None:
    if where is None:
      view.store.write(lambda *i: astype_scalar(val(*i), k))
    else:
      view.store.write(
          lambda *i: ite(where(*i), astype_scalar(val(*i), k), old(*i)))
    return
  if view.inv is None:
    raise Unsupported("write through a non-injective view")
  inv = view.inv

  def new(*s):
    c, i = inv(*s)
    if c is True:
      c = z3.BoolVal(True)
    c = _simp(c)
    if where is not None:
      c = z3.And(c, to_zbool(where(*i)))
    if z3.is_false(_simp(c)):
      return old(*s)
    return ite(c, astype_scalar(val(*i), k), old(*s))

  view.store.write(new)


# ---------------------------------------------------------------------------
# construction
# ---------------------------------------------------------------------------
def const_arr(shape, v, k=None):
  v = lift(v)
  return SArr(shape, lambda *i: v, k or kind(v))


def asarray(x, dtype=None):
  from pyvc import seq
  if isinstance(x, SArr):
    if dtype is not None and as_dtype(dtype).kind != x.kind:
      return x.astype(dtype)
    return x
  if hasattr(x, "_vc_asarray"):
    return asarray(x._vc_asarray(), dtype)
  if isinstance(x, seq.SSeq):
    r = seq.to_array(x)
    return asarray(r, dtype)
  if isinstance(x, range):
    x = list(x)
  if isinstance(x, (list, tuple)):
    if dtype is not None and as_dtype(dtype).kind == "O":
      raise Unsupported("object array")
    items = [asarray(e) for e in x]
    if not items:
      return SArr((0,), lambda i: lift(0.0), as_dtype(dtype).kind)
    sh = items[0].shape
    for it in items[1:]:
      if it.ndim != len(sh) or any(not same(p, q)
                                   for p, q in zip(it.shape, sh)):
        raise_(ValueError, "setting an array element with a sequence. The "
               "requested array has an inhomogeneous shape")
    k = "b"
    for it in items:
      k = V.join(k, it.kind)
    if dtype is not None:
      k = as_dtype(dtype).kind
    es = [it.elem() for it in items]

    def fn(i, *r):
      c = V._conc(i)
      if c is not None and 0 <= c < len(es):
        return astype_scalar(es[int(c)](*r), k)
      v = astype_scalar(es[-1](*r), k)
      for j in range(len(es) - 2, -1, -1):
        v = ite(i == j, astype_scalar(es[j](*r), k), v)
      return v

    return SArr((len(items),) + tuple(sh), fn, k)
  if x is None:
    raise Unsupported("array of None")
  if isinstance(x, str):
    raise Unsupported("array of str")
  v = lift(x)
  if dtype is not None:
    v = astype_scalar(v, dtype)
  return SArr((), lambda: v, kind(v))


def array(x, dtype=None, copy=True):
  a = asarray(x, dtype)
  return a.copy() if a is x or isinstance(x, SArr) else a


def _shape(s):
  from pyvc import seq
  if isinstance(s, SArr):
    s = [s[i] for i in range(s.shape[0])] if s.ndim else s.at()
  if isinstance(s, (list, tuple)):
    r = tuple(dim(lift(d) if not isinstance(d, int) else d) for d in s)
  else:
    r = (dim(lift(s)),)
  for d in r:
    if isinstance(d, int):
      if d < 0:
        raise_(ValueError, "negative dimensions are not allowed")
    elif not isinstance(d, SInt):
      raise_(TypeError, "'float' object cannot be interpreted as an integer")
    elif not cur().valid(d.z >= 0):
      if not cur().branch(d.z >= 0):
        raise_(ValueError, "negative dimensions are not allowed")
  return r


def zeros(shape, dtype=None, **kw):
  k = as_dtype(dtype).kind
  v = astype_scalar(0, k)
  return SArr(_shape(shape), lambda *i: v, k)


def ones(shape, dtype=None, **kw):
  k = as_dtype(dtype).kind
  v = astype_scalar(1, k)
  return SArr(_shape(shape), lambda *i: v, k)


def full(shape, v, dtype=None, **kw):
  v = asarray(v)
  k = as_dtype(dtype, None).kind if dtype is not None else v.kind
  sh = _shape(shape)
  e = broadcast_to_elem(v, sh)
  return SArr(sh, lambda *i: astype_scalar(e(*i), k), k)


def sym_elem(name, n, k):
  """Uninterpreted element function of n indices"""
  I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
  if k == "f":
    f = fresh_fn(name, *[I] * n, R) if n else None
    c = None if n else fresh(name, "Real")
    return (lambda *i: SReal(f(*i), None, True)) if n else (
        lambda: SReal(c, None, True))
  if k in "iu":
    f = fresh_fn(name, *[I] * n, I) if n else None
    c = None if n else fresh(name, "Int")
    return (lambda *i: SInt(f(*i), True)) if n else (lambda: SInt(c, True))
  if k == "b":
    f = fresh_fn(name, *[I] * n, B) if n else None
    c = None if n else fresh(name, "Bool")
    return (lambda *i: SBool(f(*i), True)) if n else (lambda: SBool(c, True))
  a, b = sym_elem(name + "_re", n, "f"), sym_elem(name + "_im", n, "f")
  return lambda *i: SCplx(to_zreal(a(*i)), to_zreal(b(*i)))


def empty(shape, dtype=None, **kw):
  k = as_dtype(dtype).kind
  sh = _shape(shape)
  return SArr(sh, sym_elem("empty", len(sh), k), k)


def _like(x, dtype):
  x = asarray(x)
  return x, (x.kind if dtype is None else as_dtype(dtype).kind)


def zeros_like(x, dtype=None, shape=None, **kw):
  x, k = _like(x, dtype)
  return zeros(x.shape if shape is None else shape, k)


def ones_like(x, dtype=None, shape=None, **kw):
  x, k = _like(x, dtype)
  return ones(x.shape if shape is None else shape, k)


def empty_like(x, dtype=None, shape=None, **kw):
  x, k = _like(x, dtype)
  return empty(x.shape if shape is None else shape, k)


def full_like(x, v, dtype=None, shape=None, **kw):
  x, k = _like(x, dtype)
  return full(x.shape if shape is None else shape, v, k)


def arange(start, stop=None, step=None, dtype=None):
  if stop is None:
    start, stop = 0, start
  step = 1 if step is None else step
  ks = {kind(v) for v in (start, stop, step)}
  if ks <= {"i", "b"}:
    a, b, s = zi(start), zi(stop), zi(step)
    sc = V._conc(s)
    if sc == 1:
      n = zmax(b - a, z3.IntVal(0))
    elif sc is not None and sc < 0:
      n = zmax((a - b + (-sc) - 1) / z3.IntVal(-sc), z3.IntVal(0))
    else:
      if not cur().valid(s > 0):
        raise Unsupported("arange step sign")
      n = zmax((b - a + s - 1) / s, z3.IntVal(0))
    k = "i" if dtype is None else as_dtype(dtype).kind
    return SArr((dim(n),),
                lambda i: astype_scalar(SInt(_simp(a + s * i), True), k), k)
  a, b, s = to_zreal(start), to_zreal(stop), to_zreal(step)
  q = (b - a) / s
  n = z3.If(q <= 0, z3.IntVal(0), -z3.ToInt(-q))
  n = _simp(n)
  c = V._conc(n)
  if c is None:
    k = fresh("arange_n")
    cur().assume(k == n, k >= 0)
    n = k
  return SArr((dim(n),), lambda i: SReal(_simp(a + s * z3.ToReal(i)), None,
                                         True), "f")


def linspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
  a, b = asarray(start), asarray(stop)
  if a.ndim or b.ndim:
    raise Unsupported("linspace of arrays")
  a, b = to_zreal(a.at()), to_zreal(b.at())
  n = dim(lift(num))
  (n,) = _shape(n)
  zn = zi(n)
  d = z3.ToReal(zn - 1) if endpoint else z3.ToReal(zn)
  d = z3.simplify(d)
  many = cur().valid(zn != 1)

  def fn(i):
    # numpy sets the last element to stop exactly; equal over the reals
    r = a + (b - a) * z3.ToReal(i) / d
    return SReal(_simp(r if many else z3.If(zn == 1, a, r)), None, True)

  return SArr((n,), fn, "f")


# ---------------------------------------------------------------------------
# broadcasting and ufuncs
# ---------------------------------------------------------------------------
def bdim(a, b):
  """-> (dim, a is broadcast, b is broadcast)"""
  if isinstance(a, int) and isinstance(b, int):
    if a == b:
      return a, False, False
    if a == 1:
      return b, True, False
    if b == 1:
      return a, False, True
    raise_(ValueError, "operands could not be broadcast together")
  if isinstance(a, int) and a == 1:
    return b, True, False
  if isinstance(b, int) and b == 1:
    return a, False, True
  za, zb = zi(a), zi(b)
  e = _simp(za == zb)
  if z3.is_true(e) or cur().branch(e):
    return (a if isinstance(a, int) else b if isinstance(b, int) else a,
            False, False)
  if not isinstance(a, int) and cur().branch(za == 1):
    return b, True, False
  if not isinstance(b, int) and cur().branch(zb == 1):
    return a, False, True
  raise_(ValueError, "operands could not be broadcast together")


def broadcast(arrs):
  """-> shape, list of element functions over that shape"""
  n = max(a.ndim for a in arrs)
  shape = [1] * n
  for a in arrs:
    off = n - a.ndim
    for j, d in enumerate(a.shape):
      shape[off + j] = bdim(shape[off + j], d)[0]
  els = [broadcast_to_elem(a, shape) for a in arrs]
  return tuple(shape), els


def broadcast_to_elem(a, shape):
  off = len(shape) - a.ndim
  if off < 0:
    # numpy allows leading dimensions of length one on assignment
    if all(isinstance(d, int) and d == 1 for d in a.shape[:-off]):
      b = basic_view(a, (0,) * (-off))
      return broadcast_to_elem(b, shape)
    raise_(ValueError, "could not broadcast input array from shape")
  flags = []
  for j, d in enumerate(a.shape):
    t = shape[off + j]
    if isinstance(d, int) and d == 1 and not (isinstance(t, int) and t == 1):
      flags.append(True)
    elif isinstance(d, int) and isinstance(t, int):
      if d != t:
        raise_(ValueError, "could not broadcast input array from shape")
      flags.append(False)
    else:
      e = _simp(zi(d) == zi(t))
      if z3.is_true(e) or cur().branch(e):
        flags.append(False)
      elif not isinstance(d, int) and cur().branch(zi(d) == 1):
        flags.append(True)
      else:
        raise_(ValueError, "could not broadcast input array from shape")
  e = a.elem()
  zero = z3.IntVal(0)
  if off == 0 and not any(flags):
    return e
  return lambda *i: e(*[zero if f else x for f, x in zip(flags, i[off:])])


WRAP = z3.Function("WRAP", z3.IntSort(), z3.IntSort())


def _wrapping(fn):
  """Unsigned integers: a negative result wraps around"""

  def g(*a):
    r = to_zint(fn(*a))
    return SInt(z3.If(r >= 0, r, WRAP(r)), True)

  return g


class ufunc:
  """Element-wise operation with numpy's out/where/casting rules"""

  def __init__(self, name, fn, nin, okind=None):
    self.__name__ = self.name = name
    self.fn = fn
    self.nin = nin
    self.okind = okind  # fn(kinds) -> result kind

  def __call__(self, *args, out=None, where=None, dtype=None, casting=None,
               **kw):
    if kw:
      raise Unsupported(f"ufunc {self.name} arguments {sorted(kw)}")
    if len(args) == self.nin + 1:
      out, args = args[-1], args[:-1]
    if len(args) != self.nin:
      raise_(TypeError, f"{self.name}() takes {self.nin} positional arguments")
    if isinstance(out, tuple):
      (out,) = out
    arrs = [asarray(a) for a in args]
    ks = [a.kind for a in arrs]
    rk = self.okind(ks) if self.okind else _join_all(ks)
    if dtype is not None:
      rk = as_dtype(dtype).kind
    shape, els = broadcast(arrs)
    fn = self.fn
    if rk == "u" and self.name in ("subtract", "negative"):
      fn = _wrapping(fn)
    scalar = all(a.ndim == 0 for a in arrs)

    def val(*i):
      return np_scalar(fn(*[np_scalar(e(*i)) for e in els]))

    wel = None
    if where is not None and where is not True:
      w = asarray(where)
      wel = broadcast_to_elem(w, shape)
    if out is not None:
      if not isinstance(out, SArr):
        raise_(TypeError, "return arrays must be of ArrayType")
      check_cast(self.name, rk, out.kind)
      if out.ndim < len(shape):
        raise_(ValueError, "non-broadcastable output operand")
      full_ = broadcast([SArr(shape, val, rk), out])[0] \
          if len(shape) else out.shape
      for d, o in zip(full_, out.shape):
        dim_eq_or_raise(d, o, "non-broadcastable output operand")
      ve = broadcast_to_elem(SArr(shape, val, rk), out.shape)
      if not out.writeable or out.store.readonly:
        raise_(ValueError, "output array is read-only")
      write_elem(out, memo(ve), wel)
      return out
    if wel is not None:
      junk = sym_elem("uninit", len(shape), rk)
      v0 = val
      val = lambda *i: ite(wel(*i), v0(*i), junk(*i))
    if scalar and not any(isinstance(a, SArr) and a.ndim for a in args):
      r = val()
      return np_scalar(astype_scalar(r, rk)) if kind(r) != rk else r
    return SArr(shape, lambda *i: astype_scalar(val(*i), rk), rk)

  def outer(self, a, b, **kw):
    a, b = asarray(a), asarray(b)
    return self(
        basic_view(a, (Ellipsis,) + (None,) * b.ndim), b, **kw)

  def reduce(self, a, axis=0, **kw):
    if self.name == "add":
      return reduce_sum(a, axis, **kw)
    if self.name == "maximum":
      return reduce_ext(a, axis, False, "max")
    if self.name == "minimum":
      return reduce_ext(a, axis, False, "min")
    raise Unsupported(f"{self.name}.reduce")

  def accumulate(self, a, axis=0, **kw):
    raise Unsupported(f"{self.name}.accumulate")


def _join_all(ks):
  k = "b"
  for x in ks:
    k = V.join(k, x)
  return k


def check_cast(name, frm, to):
  if V._ORDER.index(frm) > V._ORDER.index(to):
    raise_(TypeError, f"Cannot cast ufunc '{name}' output from {frm} to {to} "
           "with casting rule 'same_kind'")


def _atleast(k):
  return lambda ks: V.join(k, _join_all(ks))


def _bool(ks):
  return "b"


def _absk(ks):
  return "f" if ks[0] == "c" else ks[0]


def _realk(x):
  """Real argument -> z3 real, nan"""
  x = lift(x)
  return to_zreal(x), V.nan_of(x)


def _r1(f):

  def g(x):
    x = lift(x)
    if isinstance(x, SCplx):
      raise Unsupported(f"{f} of a complex number")
    return SReal(f(V._norm(to_zreal(x))), V.nan_of(x), True)

  return g


def s_exp(x):
  x = lift(x)
  if isinstance(x, SCplx):
    m = ax.EXP(V._norm(x.re))
    a = V._norm(x.im)
    if z3.is_rational_value(_simp(x.re)) and V._conc(_simp(x.re)) == 0:
      m = z3.RealVal(1)
    return SCplx(_simp(m * ax.COS(a)), _simp(m * ax.SIN(a)))
  return _r1(ax.EXP)(x)


def s_abs(x):
  return abs(lift(x))


def s_sqrt(x):
  return _r1(ax.SQRT)(x)


def s_angle(x):
  x = V.cplx(x)
  return SReal(ax.ATAN2(V._norm(x.im), V._norm(x.re)), None, True)


def s_real(x):
  return lift(x).real if isinstance(x, SCplx) else lift(x)


def s_imag(x):
  x = lift(x)
  return x.imag if isinstance(x, SCplx) else SReal(z3.RealVal(0), None, True)


def s_conj(x):
  x = lift(x)
  return x.conjugate() if isinstance(x, SCplx) else x


def s_sign(x):
  x = lift(x)
  z = to_zreal(x)
  r = z3.If(z > 0, 1, z3.If(z < 0, -1, 0))
  return SInt(_simp(r), True) if isinstance(x, SInt) else SReal(
      _simp(z3.ToReal(r)), V.nan_of(x), True)


def s_ceil(x):
  x = lift(x)
  return x if not isinstance(x, SReal) else SReal(
      _simp(z3.ToReal(-z3.ToInt(-x.z))), x.nan, True)


def s_floor(x):
  x = lift(x)
  return x if not isinstance(x, SReal) else SReal(
      _simp(z3.ToReal(z3.ToInt(x.z))), x.nan, True)


def s_rint(x):
  x = lift(x)
  return x if not isinstance(x, SReal) else SReal(
      _simp(z3.ToReal(x._rint().z)), x.nan, True)


def s_isnan(x):
  n = V.nan_of(lift(x))
  return SBool(z3.BoolVal(False) if n is None else n, True)


def s_isfinite(x):
  n = V.nan_of(lift(x))
  return SBool(z3.BoolVal(True) if n is None else _simp(z3.Not(n)), True)


def s_max(a, b):
  """np.maximum: NaN wins"""
  a, b = lift(a), lift(b)
  r = ite(compare(">=", a, b), a, b)
  n = V.or_nan(V.nan_of(a), V.nan_of(b))
  if n is not None:
    r = SReal(to_zreal(r), n, True)
  return r


def s_min(a, b):
  a, b = lift(a), lift(b)
  r = ite(compare("<=", a, b), a, b)
  n = V.or_nan(V.nan_of(a), V.nan_of(b))
  if n is not None:
    r = SReal(to_zreal(r), n, True)
  return r


def s_not(x):
  return SBool(_simp(z3.Not(to_zbool(x))), True)


def s_invert(x):
  return ~np_scalar(x)


def _lg(f):
  return lambda a, b: SBool(_simp(f(to_zbool(a), to_zbool(b))), True)


def _bw(f, name):

  def g(a, b):
    if kind(a) == "b" and kind(b) == "b":
      return SBool(_simp(f(to_zbool(a), to_zbool(b))), True)
    raise Unsupported(name)

  return g


def s_clip(x, lo, hi):
  return s_min(s_max(x, lo), hi)


def s_square(x):
  return arith("*", x, x)


def s_pow(a, b):
  return V.power(np_scalar(a), np_scalar(b)) if kind(a) != "c" else arith(
      "**", a, b)


def _powk(ks):
  return _join_all(ks)


def s_mod(a, b):
  return arith("%", a, b)


_f = _atleast("f")
UF = {}
for _name, _fn, _nin, _k in (
    ("add", lambda a, b: arith("+", a, b), 2, None),
    ("subtract", lambda a, b: arith("-", a, b), 2, None),
    ("multiply", lambda a, b: arith("*", a, b), 2, None),
    ("true_divide", lambda a, b: arith("/", a, b), 2, _f),
    ("divide", lambda a, b: arith("/", a, b), 2, _f),
    ("floor_divide", lambda a, b: arith("//", a, b), 2, None),
    ("mod", s_mod, 2, None),
    ("remainder", s_mod, 2, None),
    ("power", s_pow, 2, _powk),
    ("float_power", s_pow, 2, _f),
    ("maximum", s_max, 2, None),
    ("minimum", s_min, 2, None),
    ("less", lambda a, b: compare("<", a, b), 2, _bool),
    ("less_equal", lambda a, b: compare("<=", a, b), 2, _bool),
    ("greater", lambda a, b: compare(">", a, b), 2, _bool),
    ("greater_equal", lambda a, b: compare(">=", a, b), 2, _bool),
    ("equal", lambda a, b: compare("==", a, b), 2, _bool),
    ("not_equal", lambda a, b: compare("!=", a, b), 2, _bool),
    ("logical_and", _lg(z3.And), 2, _bool),
    ("logical_or", _lg(z3.Or), 2, _bool),
    ("logical_xor", _lg(z3.Xor), 2, _bool),
    ("bitwise_and", _bw(z3.And, "bitwise and"), 2, None),
    ("bitwise_or", _bw(z3.Or, "bitwise or"), 2, None),
    ("bitwise_xor", _bw(z3.Xor, "bitwise xor"), 2, None),
    ("logical_not", s_not, 1, _bool),
    ("invert", s_invert, 1, None),
    ("negative", lambda x: -lift(x), 1, None),
    ("positive", lambda x: lift(x), 1, None),
    ("absolute", s_abs, 1, _absk),
    ("abs", s_abs, 1, _absk),
    ("fabs", s_abs, 1, _f),
    ("exp", s_exp, 1, _f),
    ("exp2", _r1(ax.P2), 1, _f),
    ("log", _r1(ax.LN), 1, _f),
    ("log2", _r1(ax.LOG2), 1, _f),
    ("log10", _r1(ax.LOG10), 1, _f),
    ("sqrt", s_sqrt, 1, _f),
    ("square", s_square, 1, None),
    ("reciprocal", lambda x: arith("/", 1, x), 1, _f),
    ("sin", _r1(ax.SIN), 1, _f),
    ("cos", _r1(ax.COS), 1, _f),
    ("sinh", _r1(ax.SINH), 1, _f),
    ("arcsinh", _r1(ax.ASINH), 1, _f),
    ("arctan", _r1(ax.ATAN), 1, _f),
    ("arctan2", lambda a, b: SReal(
        ax.ATAN2(V._norm(to_zreal(a)), V._norm(to_zreal(b))), None, True), 2,
     _f),
    ("sign", s_sign, 1, None),
    ("ceil", s_ceil, 1, _f),
    ("floor", s_floor, 1, _f),
    ("rint", s_rint, 1, _f),
    ("trunc", lambda x: SReal(_simp(z3.ToReal(lift(x).__trunc__().z)), None,
                              True), 1, _f),
    ("isnan", s_isnan, 1, _bool),
    ("isfinite", s_isfinite, 1, _bool),
    ("isinf", lambda x: SBool(z3.BoolVal(False), True), 1, _bool),
    ("conjugate", s_conj, 1, None),
    ("conj", s_conj, 1, None),
):
  UF[_name] = ufunc(_name, _fn, _nin, _k)

_clip = ufunc("clip", s_clip, 3)
_real = ufunc("real", s_real, 1, _absk)
_imag = ufunc("imag", s_imag, 1, lambda ks: "f")
_angle = ufunc("angle", s_angle, 1, lambda ks: "f")
_where3 = ufunc("where", lambda c, a, b: ite(c, a, b), 3,
                lambda ks: _join_all(ks[1:]))


def conjugate(x, **kw):
  return UF["conjugate"](x, **kw)


def _part(x, j):
  if not isinstance(x, SArr):
    if not isinstance(x, (list, tuple)) and not _arr_like(x):
      return (_real, _imag)[j](x)
    x = asarray(x)
  if x.kind == "c":
    r = SArr(x.shape, store=PartStore(x.store, j), k="f", fwd=x.fwd,
             inv=x.inv, writeable=x.writeable)
    r.base = x
    return r
  if j == 0:
    return _view(x, x.shape, lambda *i: i, lambda *s: (True, s))
  r = zeros(x.shape)
  r.writeable = False
  return r


def real(x):
  """View of the real parts"""
  return _part(x, 0)


def imag(x):
  """View of the imaginary parts"""
  return _part(x, 1)


def angle(x, deg=False):
  if deg:
    raise Unsupported("angle in degrees")
  return _angle(x)


def clip(a, lo=None, hi=None, out=None, **kw):
  if lo is None and hi is None:
    raise_(ValueError, "One of max or min must be given")
  if lo is None:
    return UF["minimum"](a, hi, out=out)
  if hi is None:
    return UF["maximum"](a, lo, out=out)
  return _clip(a, lo, hi, out=out)


def where(c, a=None, b=None):
  if a is None:
    if asarray(c).ndim != 1:
      raise Unsupported("positions in several dimensions")
    return (flatnonzero(c),)
  return _where3(c, a, b)


def round_(x, decimals=0, out=None):
  if decimals != 0:
    raise Unsupported("round to decimals")
  a = asarray(x)
  if a.kind in "bi":
    return x if out is None else UF["positive"](x, out=out)
  return UF["rint"](x, out=out)


def copyto(dst, src, where=None, **kw):
  if where is None:
    assign(dst, src)
  else:
    assign(dst, src, broadcast_to_elem(asarray(where), dst.shape))


# ---------------------------------------------------------------------------
# operators over whole arrays: congruence by extensionality
# ---------------------------------------------------------------------------
class Op:
  """f(params...) is OP applied to arrays(params) and scalars(params)"""

  def __init__(self, op, decl, nparams, arrays, scalars, zero=False):
    self.op = op
    self.decl = decl
    self.nparams = nparams  # leading args that the operands depend on
    self.arrays = arrays  # params -> [(dims, body)]
    self.scalars = scalars  # params -> [z3]


def op_instances(path, idx, done):
  if not path.ops:
    return []
  apps = {}
  for name, o in path.ops.items():
    if name in idx.consts:
      e = idx.consts[name]
      apps.setdefault(o.op, {})[e.get_id()] = (o, e)
    for i, e in idx.apps.get(name, {}).items():
      apps.setdefault(o.op, {})[i] = (o, e)
  out = []
  for op, es in apps.items():
    es = list(es.values())[:24]
    for o, e in es:
      if op in EXTRA:
        key = ("opx", e.get_id())
        if key not in done:
          done.add(key)
          path.keep.append(e)
          out.extend(EXTRA[op](path, o, e))
    for x in range(len(es)):
      for y in range(x + 1, len(es)):
        (o1, e1), (o2, e2) = es[x], es[y]
        if e1.num_args() - o1.nparams != e2.num_args() - o2.nparams:
          continue
        key = ("op", e1.get_id(), e2.get_id())
        if key in done:
          continue
        done.add(key)
        path.keep += [e1, e2]
        out.append(_congruence(path, o1, e1, o2, e2))
  return out


def _op_data(path, o, e):
  key = (o.decl.name(),) + tuple(
      e.arg(i).get_id() for i in range(o.nparams))
  r = path.cache.get(("opdata", key))
  if r is None:
    ps = [e.arg(i) for i in range(o.nparams)]
    r = (o.arrays(*ps), o.scalars(*ps), ps)
    path.cache[("opdata", key)] = r
  return r


def _congruence(path, o1, e1, o2, e2):
  a1, s1, _ = _op_data(path, o1, e1)
  a2, s2, _ = _op_data(path, o2, e2)
  if len(a1) != len(a2) or len(s1) != len(s2):
    return z3.BoolVal(True)
  same_ = []
  for i in range(e1.num_args() - o1.nparams):
    same_.append(e1.arg(o1.nparams + i) == e2.arg(o2.nparams + i))
  key = ("cong",) + tuple(sorted((
      (o1.decl.name(),) + tuple(e1.arg(i).get_id() for i in range(o1.nparams)),
      (o2.decl.name(),) + tuple(
          e2.arg(i).get_id() for i in range(o2.nparams)))))
  prem = path.cache.get(key)
  if prem is None:
    conds = []
    for x, y in zip(s1, s2):
      if x.sort() != y.sort():
        x, y = to_zreal(x), to_zreal(y)
      conds.append(x == y)
    for (d1, b1), (d2, b2) in zip(a1, a2):
      if len(d1) != len(d2):
        path.cache[key] = z3.BoolVal(False)
        return z3.BoolVal(True)
      sk = [fresh("ext") for _ in d1]
      rng = [z3.And(k >= 0, k < n) for k, n in zip(sk, d1)]
      conds += [m == n for m, n in zip(d1, d2)]
      conds.append(
          z3.Not(z3.And(*rng, z3.Not(V.eq(b1(*sk), b2(*sk))))))
    prem = _simp(z3.And(*conds)) if conds else z3.BoolVal(True)
    path.cache[key] = prem
    path.keep.append(prem)
  return z3.Implies(z3.And(prem, *same_), e1 == e2)


EXTRA = {}


def register_op(op, decl, nparams, arrays, scalars=lambda *p: []):
  p = cur()
  p.ops[decl.name()] = Op(op, decl, nparams, arrays, scalars)
  if op_instances not in p.hooks:
    p.hooks.append(op_instances)
  return p.ops[decl.name()]


def arr_operand(a):
  """(dims, body) of an array for Op.arrays"""
  e = a.elem()
  return [zi(d) for d in a.shape], e


def opaque(op, arrays, scalars, shape, k="f", nan_free=True):
  """Result array of an uninterpreted (but functional) array operator"""
  arrs = [asarray(a) for a in arrays]
  data = [arr_operand(a) for a in arrs]
  sc = [lift(s) for s in scalars]
  sc = [x for s in sc for x in (
      [s.re, s.im] if isinstance(s, SCplx) else
      [to_zreal(s) if not isinstance(s, SInt) else z3.ToReal(s.z)])]
  n = len(shape)
  parts = []
  for suffix in (("_re", "_im") if k == "c" else ("",)):
    I = z3.IntSort()
    s = {"f": z3.RealSort(), "c": z3.RealSort(), "i": z3.IntSort(),
         "b": z3.BoolSort()}[k]
    f = fresh_fn(op + suffix, *[I] * n, s)
    if n == 0:
      f = z3.Function(f.name(), s)
    register_op(op + suffix, f, 0, lambda: data, lambda: sc)
    parts.append(f)
  if k == "c":
    fn = lambda *i: SCplx(parts[0](*i), parts[1](*i))
  elif k == "f":
    fn = lambda *i: SReal(parts[0](*i), None, True)
  elif k == "i":
    fn = lambda *i: SInt(parts[0](*i), True)
  else:
    fn = lambda *i: SBool(parts[0](*i), True)
  if n == 0:
    return np_scalar(fn())
  return SArr(shape, fn, k)


# ---------------------------------------------------------------------------
# reductions
# ---------------------------------------------------------------------------
def _axis(axis, nd):
  if isinstance(axis, SInt):
    axis = axis.__index__()
  if axis < -nd or axis >= nd:
    raise_(IndexError, f"axis {axis} is out of bounds")
  return axis % nd


def _split(a, axis):
  """-> outer shape, inner dim, body(outer idx, k)"""
  e = a.elem()
  if axis is None:
    if a.ndim == 1:
      axis = 0
    elif a.ndim == 0:
      return (), 1, lambda o, k: e()
    else:
      f = reshape(a, -1)
      return _split(f, 0)
  axis = _axis(axis, a.ndim)
  outer = a.shape[:axis] + a.shape[axis + 1:]
  return outer, a.shape[axis], lambda o, k: e(*o[:axis], k, *o[axis:])


def _mk(outer, fn, k, axis, a, keepdims, out=None):
  if keepdims:
    if axis is None:
      sh = (1,) * a.ndim
      r = SArr(sh, lambda *i: fn(), k)
    else:
      ax_ = _axis(axis, a.ndim)
      sh = outer[:ax_] + (1,) + outer[ax_:]
      r = SArr(sh, lambda *i: fn(*(i[:ax_] + i[ax_ + 1:])), k)
  elif not outer:
    r = np_scalar(fn())
  else:
    r = SArr(outer, fn, k)
  if out is not None:
    assign(out, r)
    return out
  return r


def sum_term(n, body, nouter=0, op="SUM"):
  """UF S(outer...) = sum_{k<n} body(outer, k); body returns z3 Real"""
  f = fresh_fn(op, *[z3.IntSort()] * nouter, z3.RealSort())
  if nouter == 0:
    f = z3.Function(f.name(), z3.RealSort())
  zn = zi(n)
  register_op(op, f, nouter,
              lambda *o: [([zn], lambda k: SReal(body(o, k)))])
  return f


def _sum_extra(path, o, e):
  """n <= 0 -> 0; n == 1 -> the element"""
  arrs, _, _ = _op_data(path, o, e)
  (n,), b = arrs[0]
  zero = z3.IntVal(0)
  out = [z3.Implies(n <= 0, e == 0),
         z3.Implies(n == 1, e == to_zreal(b(zero)))]
  if getattr(path, "sum_signs", False):
    # no negative summand: not negative; all summands zero: zero
    k, j = fresh("neg"), fresh("nz")
    out += [z3.Or(z3.And(0 <= k, k < n, to_zreal(b(k)) < 0), e >= 0),
            z3.Or(z3.And(0 <= j, j < n, to_zreal(b(j)) != 0), e == 0)]
  return out


EXTRA["SUM"] = _sum_extra


def reduce_sum(a, axis=None, keepdims=False, out=None, dtype=None, **kw):
  a = asarray(a)
  if isinstance(axis, tuple):
    if len(axis) == 1:
      axis = axis[0]
    else:
      raise Unsupported("sum over several axes")
  outer, n, body = _split(a, axis)
  if isinstance(n, int) and n <= 6:

    def direct(*o):
      t = lift(0) if a.kind in "bi" else lift(0.0)
      for k in range(n):
        v = body(o, z3.IntVal(k))
        if isinstance(v, SBool):
          v = SInt(to_zint(v), True)
        t = arith("+", t, v)
      return np_scalar(t)

    rk = "i" if a.kind in "bi" else a.kind
    return _mk(outer, direct, rk, axis, a, keepdims, out)
  if a.kind == "c":
    fr = sum_term(n, lambda o, k: body(o, k).re, len(outer))
    fi = sum_term(n, lambda o, k: body(o, k).im, len(outer))
    return _mk(outer, lambda *o: SCplx(fr(*o), fi(*o)), "c", axis, a,
               keepdims, out)
  if a.kind in "bi":
    f = sum_term(n, lambda o, k: z3.ToReal(to_zint(body(o, k))), len(outer))
    return _mk(outer, lambda *o: SInt(_simp(z3.ToInt(f(*o))), True), "i",
               axis, a, keepdims, out)
  f = sum_term(n, lambda o, k: to_zreal(body(o, k)), len(outer))
  # a NaN summand makes the sum NaN
  probe = body([fresh("pr") for _ in outer], fresh("pr"))
  if V.nan_of(probe) is not None:
    raise Unsupported("sum of values that may be NaN")
  return _mk(outer, lambda *o: SReal(f(*o), None, True), "f", axis, a,
             keepdims, out)


def mean(a, axis=None, keepdims=False, out=None, **kw):
  a = asarray(a)
  _, n, _ = _split(a, axis)
  s = reduce_sum(a, axis, keepdims)
  return UF["true_divide"](s, n, out=out)


def std(a, axis=None, ddof=0, keepdims=False, **kw):
  a = asarray(a)
  m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
  d = UF["subtract"](a, m)
  _, n, _ = _split(a, axis)
  return UF["sqrt"](UF["true_divide"](
      reduce_sum(UF["square"](UF["absolute"](d)), axis, keepdims), n - ddof))


def reduce_ext(a, axis=None, keepdims=False, which="max", out=None,
               initial=None, **kw):
  a = asarray(a)
  outer, n, body = _split(a, axis)
  if kw or initial is not None:
    raise Unsupported("max/min options")
  if isinstance(n, int) and n == 0 or not isinstance(n, int) and \
      not cur().valid(zi(n) > 0) and cur().branch(zi(n) <= 0):
    raise_(ValueError, "zero-size array to reduction operation " + which +
           "imum which has no identity")
  if isinstance(n, int) and n <= 4:

    def direct(*o):
      t = body(o, z3.IntVal(0))
      for k in range(1, n):
        t = (s_max if which == "max" else s_min)(t, body(o, z3.IntVal(k)))
      return np_scalar(t)

    return _mk(outer, direct, a.kind, axis, a, keepdims, out)
  no = len(outer)
  I = z3.IntSort()
  rng = z3.IntSort() if a.kind == "i" else z3.RealSort()
  M = fresh_fn(which.upper(), *[I] * no, rng)
  W = fresh_fn(which.upper() + "_at", *[I] * no, I)
  if no == 0:
    M, W = z3.Function(M.name(), rng), z3.Function(W.name(), I)
  zn = zi(n)
  tz = to_zint if a.kind == "i" else to_zreal
  cmp_ = (lambda x, m: x <= m) if which == "max" else (lambda x, m: x >= m)
  probe = body([fresh("pr") for _ in outer], fresh("pr"))
  if V.nan_of(probe) is not None:
    raise Unsupported("max/min of values that may be NaN")
  cur().fact(lambda *o: z3.And(W(*o) >= 0, W(*o) < zn,
                               M(*o) == tz(body(o, W(*o)))),
             no, which) if no else cur().assume(
                 W() >= 0, W() < zn, M() == tz(body((), W())))
  cur().fact(
      lambda k, *o: z3.Implies(z3.And(k >= 0, k < zn),
                               cmp_(tz(body(o, k)), M(*o))), no + 1, which)
  mkv = (lambda z: SInt(z, True)) if a.kind == "i" else (
      lambda z: SReal(z, None, True))
  return _mk(outer, lambda *o: mkv(M(*o)), a.kind, axis, a, keepdims, out)


def any_(a, axis=None, out=None, keepdims=False):
  a = asarray(a)
  outer, n, body = _split(a, axis)
  if isinstance(n, int) and n <= 12:
    return _mk(outer, lambda *o: SBool(_simp(z3.Or(
        *[to_zbool(body(o, z3.IntVal(k))) for k in range(n)])), True), "b",
               axis, a, keepdims, out)
  no = len(outer)
  I = z3.IntSort()
  B = fresh_fn("ANY", *[I] * no, z3.BoolSort())
  W = fresh_fn("ANY_at", *[I] * no, I)
  if no == 0:
    B, W = z3.Function(B.name(), z3.BoolSort()), z3.Function(W.name(), I)
  zn = zi(n)
  wf = lambda *o: z3.Implies(
      B(*o), z3.And(W(*o) >= 0, W(*o) < zn, to_zbool(body(o, W(*o)))))
  if no:
    cur().fact(wf, no, "any")
  else:
    cur().assume(wf())
  cur().fact(
      lambda k, *o: z3.Implies(
          z3.And(k >= 0, k < zn, to_zbool(body(o, k))), B(*o)), no + 1, "any")
  return _mk(outer, lambda *o: SBool(B(*o), True), "b", axis, a, keepdims,
             out)


def all_(a, axis=None, out=None, keepdims=False):
  r = any_(UF["logical_not"](asarray(a)), axis, None, keepdims)
  return UF["logical_not"](r, out=out)


def arg_ext(a, axis=None, which="max"):
  a = asarray(a)
  outer, n, body = _split(a, axis)
  if isinstance(n, int) and n == 0 or not isinstance(n, int) and \
      not cur().valid(zi(n) > 0) and cur().branch(zi(n) <= 0):
    raise_(ValueError, f"attempt to get arg{which} of an empty sequence")
  no = len(outer)
  I = z3.IntSort()
  A = fresh_fn("ARG" + which.upper(), *[I] * no, I)
  if no == 0:
    A = z3.Function(A.name(), I)
  zn = zi(n)
  num = (lambda v: z3.If(to_zbool(v), z3.IntVal(1), z3.IntVal(0))) \
      if a.kind == "b" else (to_zint if a.kind == "i" else to_zreal)
  probe = body([fresh("pr") for _ in outer], fresh("pr"))
  if V.nan_of(probe) is not None:
    raise Unsupported("argmax of values that may be NaN")
  le = (lambda x, y: x <= y) if which == "max" else (lambda x, y: x >= y)
  lt = (lambda x, y: x < y) if which == "max" else (lambda x, y: x > y)
  if no:
    cur().fact(lambda *o: z3.And(A(*o) >= 0, A(*o) < zn), no, "arg")
  else:
    cur().assume(A() >= 0, A() < zn)
  cur().fact(
      lambda k, *o: z3.Implies(
          z3.And(k >= 0, k < zn),
          z3.And(
              le(num(body(o, k)), num(body(o, A(*o)))),
              z3.Implies(k < A(*o), lt(num(body(o, k)), num(body(
                  o, A(*o))))))), no + 1, "arg")
  c = V._conc(z3.simplify(zn))
  if not no and c is not None and c <= 8:
    cur().reg(*[z3.IntVal(k) for k in range(int(c))])
  return _mk(outer, lambda *o: SInt(A(*o), True), "i", axis, a, False)


def argsort(a, axis=-1, kind=None, **kw):
  a = asarray(a)
  if a.ndim != 1:
    raise Unsupported("argsort of a matrix")
  n = zi(a.shape[0])
  I = z3.IntSort()
  P = fresh_fn("ARGSORT", I, I)
  Q = fresh_fn("ARGSORT_inv", I, I)
  e = a.elem()
  tz = to_zint if a.kind == "i" else to_zreal
  if V.nan_of(e(fresh("pr"))) is not None:
    raise Unsupported("argsort of values that may be NaN")
  p = cur()
  rng = lambda k: z3.And(k >= 0, k < n)
  p.fact(lambda k: z3.Implies(rng(k), z3.And(rng(P(k)), Q(P(k)) == k)), 1,
         "perm")
  p.fact(lambda k: z3.Implies(rng(k), z3.And(rng(Q(k)), P(Q(k)) == k)), 1,
         "perm")
  p.fact(
      lambda j, k: z3.Implies(z3.And(0 <= j, j <= k, k < n),
                              tz(e(P(j))) <= tz(e(P(k)))), 2, "sorted")
  register_op("ARGSORT", P, 0, lambda: [([n], e)])
  r = SArr((a.shape[0],), lambda i: SInt(P(i), True), "i")
  r.perm = (P, Q)
  if hasattr(p, "argsorts"):
    p.argsorts.append(r)
  return r


# ---------------------------------------------------------------------------
# masks and gathers
# ---------------------------------------------------------------------------
def enum_mask(m):
  """Increasing enumeration of the true positions of a 1-d mask ->
  (count dim, E, R)"""
  p = cur()
  e = m.elem()
  n = zi(m.shape[0])
  probe = z3.Int("mask!probe")
  key = ("mask", _simp(to_zbool(e(probe))).get_id(), n.get_id())
  hit = p.cache.get(key)
  if hit is not None:
    return hit
  I = z3.IntSort()
  E = fresh_fn("NZ", I, I)
  R = fresh_fn("RANK", I, I)
  cf = fresh_fn("COUNT", I, I)
  C = z3.Function(cf.name(), I)
  c = C()
  p.assume(c >= 0, c <= n)
  b = lambda k: to_zbool(e(k))
  p.fact(
      lambda k: z3.Implies(
          z3.And(0 <= k, k < c),
          z3.And(0 <= E(k), E(k) < n, b(E(k)), R(E(k)) == k)), 1, "nz")
  p.fact(
      lambda i: z3.Implies(
          z3.And(0 <= i, i < n, b(i)),
          z3.And(0 <= R(i), R(i) < c, E(R(i)) == i)), 1, "rank")
  p.fact(
      lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < c), E(j) < E(k)), 2,
      "nz-increasing")
  for nm, f in (("NZ", E), ("COUNT", C)):
    register_op(nm, f, 0, lambda: [([n], lambda k: SBool(b(k)))])
  p.keep.append(to_zbool(e(probe)))
  r = p.cache[key] = (dim(c), E, R)
  return r


def flatnonzero(m):
  m = reshape(asarray(m), -1)
  if m.kind != "b":
    m = UF["not_equal"](m, 0)
  c, E, R = enum_mask(m)
  return SArr((c,), lambda k: SInt(E(k), True), "i")


def fancy_get(a, key):
  if key.kind == "b":
    if key.ndim == a.ndim and key.ndim > 1:
      for d, q in zip(a.shape, key.shape):
        dim_eq_or_raise(d, q, "boolean index did not match")
      a, key = reshape(a, -1), reshape(key, -1)
    if key.ndim != 1:
      raise Unsupported("multi-dimensional mask")
    e0 = _simp(zi(key.shape[0]) == zi(a.shape[0]))
    if not z3.is_true(e0) and not cur().branch(e0):
      raise_(IndexError, "boolean index did not match indexed array")
    c, E, _ = enum_mask(key)
    e = a.elem()
    return SArr((c,) + a.shape[1:], lambda k, *r: e(E(k), *r), a.kind)
  if key.kind != "i":
    raise_(IndexError, "arrays used as indices must be of integer (or "
           "boolean) type")
  n = zi(a.shape[0])
  ke = key.elem()
  # bounds: an obligation-like fork (IndexError if some index is outside)
  sk = [fresh("gi") for _ in key.shape]
  rng = [z3.And(s >= 0, s < zi(d)) for s, d in zip(sk, key.shape)]
  p = cur()
  v = to_zint(ke(*sk))
  bad = z3.And(*rng, z3.Or(v < -n, v >= n))
  saved = len(p.terms)
  p.reg(*sk)
  if p.feasible(bad):
    # some element may be out of range: fork
    if p.branch(bad):
      raise_(IndexError, "index is out of bounds for axis 0")
    p.fact(
        lambda *i: z3.Implies(
            z3.And(*[z3.And(x >= 0, x < zi(d))
                     for x, d in zip(i, key.shape)]),
            z3.And(to_zint(ke(*i)) >= -n, to_zint(ke(*i)) < n)), key.ndim,
        "gather-bounds")
  neg = p.feasible(z3.And(*rng, v < 0))
  del p.terms[saved:]
  e = a.elem()
  nk = key.ndim

  def fn(*i):
    v = to_zint(ke(*i[:nk]))
    if neg:
      v = _simp(z3.If(v < 0, v + n, v))
    return e(v, *i[nk:])

  return SArr(key.shape + a.shape[1:], fn, a.kind)


def mixed_get(a, key):
  """a[:, mask] and a[..., ind]"""
  if any(k is None for k in key):
    raise Unsupported("newaxis in mixed fancy index")
  key = list(key)
  if any(k is Ellipsis for k in key):
    j = [k is Ellipsis for k in key].index(True)
    key[j:j + 1] = [slice(None)] * (a.ndim - len(key) + 1)
  key += [slice(None)] * (a.ndim - len(key))
  fancy = [j for j, k in enumerate(key) if isinstance(k, SArr)]
  if len(fancy) != 1:
    raise Unsupported("several fancy indices")
  j = fancy[0]
  if any(not isinstance(k, slice) for i, k in enumerate(key) if i != j):
    raise Unsupported("scalar in mixed fancy index")
  v = basic_view(a, tuple(key[:j]) + (slice(None),) + tuple(key[j + 1:]))
  perm = (j,) + tuple(i for i in range(a.ndim) if i != j)
  g = fancy_get(v.transpose(*perm), key[j])
  nk = key[j].ndim if key[j].kind != "b" else 1
  if nk != 1:
    raise Unsupported("matrix fancy index")
  back = tuple(range(1, j + 1)) + (0,) + tuple(range(j + 1, a.ndim))
  return g.transpose(*back)


def fancy_set(a, key, value):
  if key.kind == "b":
    for d, q in zip(a.shape, key.shape):
      e0 = _simp(zi(d) == zi(q))
      if not z3.is_true(e0) and not cur().branch(e0):
        raise_(IndexError, "boolean index did not match indexed array")
    ke = key.elem()
    nk = key.ndim
    v = asarray(value)
    if v.ndim == 0:
      ve = v.elem()
      write_elem(a if a.fwd is not None else a, lambda *i: ve(),
                 lambda *i: ke(*i[:nk]))
      return
    if key.ndim != 1:
      raise Unsupported("masked assignment of an array")
    c, E, R = enum_mask(key)
    val = broadcast_to_elem(v, (c,) + a.shape[1:])
    write_elem(a, lambda i, *r: val(R(i), *r), lambda i, *r: ke(i))
    return
  v = asarray(value)
  if key.ndim != 1 or a.ndim != 1:
    raise Unsupported("scatter")
  ke = key.elem()
  if v.ndim == 0 and key.kind in "iu":
    # a[key] = constant: an element is written when some key names it
    n, ln = zi(a.shape[0]), zi(key.shape[0])
    p = cur()
    s = fresh("sc")
    saved = len(p.terms)
    p.reg(s)
    x = to_zint(ke(s))
    bad = z3.And(s >= 0, s < ln, z3.Or(x < -n, x >= n))
    if p.feasible(bad):
      if p.branch(bad):
        raise_(IndexError, "index is out of bounds for axis 0")
      p.fact(
          lambda k: z3.Implies(
              z3.And(k >= 0, k < ln),
              z3.And(to_zint(ke(k)) >= -n, to_zint(ke(k)) < n)), 1,
          "scatter-bounds")
    neg = p.feasible(z3.And(s >= 0, s < ln, x < 0))
    del p.terms[saved:]

    def pos(k):
      x = to_zint(ke(k))
      return _simp(z3.If(x < 0, x + n, x)) if neg else x

    I = z3.IntSort()
    H = fresh_fn("HIT", I, z3.BoolSort())
    W = fresh_fn("HIT_at", I, I)
    p.fact(lambda j: z3.Implies(H(j), z3.And(
        W(j) >= 0, W(j) < ln, pos(W(j)) == j)), 1, "scatter")
    p.fact(lambda k: z3.Implies(z3.And(k >= 0, k < ln), H(pos(k))), 1,
           "scatter")
    ve = v.elem()
    write_elem(a, lambda i: ve(), lambda i: SBool(H(i), True))
    return
  n = zi(key.shape[0])
  p = cur()
  i, j = fresh("sc"), fresh("sc")
  p.reg(i, j)
  if not p.valid(
      z3.Implies(z3.And(0 <= i, i < j, j < n),
                 to_zint(ke(i)) != to_zint(ke(j)))):
    raise Unsupported("scatter to positions that may repeat")
  raise Unsupported("scatter")


# ---------------------------------------------------------------------------
# structure
# ---------------------------------------------------------------------------
def reshape(a, shape=None, order="C", newshape=None):
  shape = newshape if shape is None else shape
  a = asarray(a)
  if isinstance(shape, (tuple, list)):
    shape = tuple(shape)
  else:
    shape = (shape,)
  conc = [d.__index__() if isinstance(d, SInt) and V._conc(d.z) is not None
          else d for d in shape]
  if conc.count(-1) if all(isinstance(d, int) for d in conc) else any(
      isinstance(d, int) and d == -1 for d in conc):
    j = [isinstance(d, int) and d == -1 for d in conc].index(True)
    rest = [d for i, d in enumerate(conc) if i != j]
    tot = a.size
    known = 1
    for d in rest:
      known = known * d
    if isinstance(known, int) and known == 1:
      m = tot
    elif isinstance(known, int) and isinstance(tot, int):
      if known == 0 or tot % known:
        raise_(ValueError, "cannot reshape array")
      m = tot // known
    else:
      # divisibility is a numpy precondition
      zt, zk = zi(tot), zi(known)
      # cancel syntactically equal factors
      m = None
      sh = list(a.shape)
      left = list(sh)
      okc = True
      for d in rest:
        for x in left:
          if same(x, d):
            left.remove(x)
            break
        else:
          okc = False
      if okc:
        m = 1
        for x in left:
          m = m * x
      else:
        q = fresh("rs")
        if not cur().branch(zt == zk * (zt / zk)):
          raise_(ValueError, "cannot reshape array")
        cur().assume(q == zt / zk)
        m = SInt(q)
    conc[j] = m
  new = tuple(dim(d) for d in conc)
  old = a.shape
  # same shape
  if len(new) == len(old) and all(same(p, q) for p, q in zip(new, old)):
    r = _view(a, new, lambda *i: i, lambda *s: (True, s))
    r.cell = a.cell
    return r
  # only ones inserted / removed
  o1 = [(j, d) for j, d in enumerate(old) if not _isone(d)]
  n1 = [(j, d) for j, d in enumerate(new) if not _isone(d)]
  zero = z3.IntVal(0)
  if len(o1) == len(n1) and all(
      same(p[1], q[1]) for p, q in zip(o1, n1)):

    def fwd(*i):
      r = [zero] * len(old)
      for (jo, _), (jn, _) in zip(o1, n1):
        r[jo] = i[jn]
      return tuple(r)

    def inv(*s):
      r = [zero] * len(new)
      for (jo, _), (jn, _) in zip(o1, n1):
        r[jn] = s[jo]
      return True, tuple(r)

    return _view(a, new, fwd, inv)
  tot_o, tot_n = a.size, 1
  for d in new:
    tot_n = tot_n * d
  dim_eq_or_raise(tot_o, tot_n, "cannot reshape array")

  def lin(shape, idx):
    r = zero
    for d, i in zip(shape, idx):
      r = r * zi(d) + i
    return _simp(r)

  def unlin(shape, k):
    r = []
    for d in reversed(shape[1:]):
      zd = zi(d)
      r.append(_simp(k % zd))
      k = _simp(k / zd)
    r.append(k)
    return tuple(reversed(r))

  return _view(a, new, lambda *i: unlin(old, lin(new, i)),
               lambda *s: (True, unlin(new, lin(old, s))))


def _isone(d):
  return isinstance(d, int) and d == 1


def squeeze(a, axis=None):
  a = asarray(a)
  if axis is None:
    keep = []
    for j, d in enumerate(a.shape):
      if isinstance(d, int):
        if d != 1:
          keep.append(j)
      elif cur().valid(d.z != 1) or not cur().branch(d.z == 1):
        keep.append(j)
  else:
    axs = axis if isinstance(axis, tuple) else (axis,)
    axs = [_axis(x, a.ndim) for x in axs]
    for x in axs:
      dim_eq_or_raise(a.shape[x], 1, "cannot select an axis to squeeze out "
                      "which has size not equal to one")
    keep = [j for j in range(a.ndim) if j not in axs]
  zero = z3.IntVal(0)

  def fwd(*i):
    r = [zero] * a.ndim
    for j, x in zip(keep, i):
      r[j] = x
    return tuple(r)

  return _view(a, [a.shape[j] for j in keep], fwd,
               lambda *s: (True, tuple(s[j] for j in keep)))


def expand_dims(a, axis):
  a = asarray(a)
  axs = axis if isinstance(axis, (tuple, list)) else (axis,)
  n = a.ndim + len(axs)
  axs = [_axis(x, n) for x in axs]
  return basic_view(
      a, tuple(None if j in axs else slice(None) for j in range(n)))


def flip(a, axis=None):
  a = asarray(a)
  axs = range(a.ndim) if axis is None else (
      axis if isinstance(axis, tuple) else (axis,))
  axs = [_axis(x, a.ndim) for x in axs]
  return basic_view(
      a,
      tuple(
          slice(None, None, -1) if j in axs else slice(None)
          for j in range(a.ndim)))


def concatenate(arrs, axis=0, out=None, **kw):
  from pyvc import seq
  if isinstance(arrs, seq.SSeq):
    raise Unsupported("concatenation of a symbolic number of arrays")
  arrs = [asarray(a) for a in arrs]
  if not arrs:
    raise_(ValueError, "need at least one array to concatenate")
  if axis is None:
    arrs = [reshape(a, -1) for a in arrs]
    axis = 0
  nd = arrs[0].ndim
  if nd == 0:
    raise_(ValueError, "zero-dimensional arrays cannot be concatenated")
  axis = _axis(axis, nd)
  for a in arrs[1:]:
    if a.ndim != nd:
      raise_(ValueError, "all the input array dimensions must match")
    for j in range(nd):
      if j != axis:
        dim_eq_or_raise(a.shape[j], arrs[0].shape[j],
                        "all the input array dimensions must match")
  k = _join_all([a.kind for a in arrs])
  offs = [z3.IntVal(0)]
  for a in arrs:
    offs.append(_simp(offs[-1] + zi(a.shape[axis])))
  es = [a.elem() for a in arrs]

  def fn(*i):
    x = i[axis]
    r = None
    for j in range(len(es) - 1, -1, -1):
      ii = i[:axis] + (_simp(x - offs[j]),) + i[axis + 1:]
      v = astype_scalar(es[j](*ii), k)
      r = v if r is None else ite(x < offs[j + 1], v, r)
    return r

  sh = arrs[0].shape[:axis] + (dim(offs[-1]),) + arrs[0].shape[axis + 1:]
  r = SArr(sh, fn, k)
  if out is not None:
    assign(out, r)
    return out
  return r


def stack(arrs, axis=0):
  arrs = [asarray(a) for a in arrs]
  return concatenate([expand_dims(a, axis) for a in arrs], axis)


def hstack(arrs):
  arrs = [atleast_1d(a) for a in arrs]
  return concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)


def vstack(arrs):
  arrs = [atleast_1d(a) for a in arrs]
  return concatenate([expand_dims(a, 0) if a.ndim == 1 else a for a in arrs],
                     0)


def append(arr, values, axis=None):
  if axis is None:
    return concatenate([reshape(asarray(arr), -1),
                        reshape(asarray(values), -1)])
  return concatenate([arr, values], axis)


def count_nonzero(a):
  return SInt(zi(flatnonzero(a).shape[0]))


def atleast_1d(a):
  return asarray(a) if ndim(a) else reshape(a, 1)


def diff(a, n=1, axis=-1):
  a = asarray(a)
  if n != 1:
    raise Unsupported("higher differences")
  axis = _axis(axis, a.ndim)
  sl = [slice(None)] * a.ndim
  hi, lo = list(sl), list(sl)
  hi[axis], lo[axis] = slice(1, None), slice(None, -1)
  op = "not_equal" if a.kind == "b" else "subtract"
  return UF[op](basic_view(a, tuple(hi)), basic_view(a, tuple(lo)))


def pad(a, width, mode="constant", constant_values=0, **kw):
  a = asarray(a)
  if mode != "constant" or a.ndim != 1:
    raise Unsupported("pad")
  if isinstance(width, (tuple, list)):
    w = list(width)
    if len(w) == 1 and isinstance(w[0], (tuple, list)):
      w = list(w[0])
    if len(w) == 1:
      w = w * 2
  else:
    w = [width, width]
  c = lift(constant_values)
  for x in w:
    if not cur().valid(zi(x) >= 0) and cur().branch(zi(x) < 0):
      raise_(ValueError, "index can't contain negative values")
  return concatenate(
      (full((w[0],), c, a.kind), a, full((w[1],), c, a.kind)))


def _interp_few(x, pe, fe, n, left, right):
  P = [to_zreal(pe(z3.IntVal(k))) for k in range(n)]
  F = [to_zreal(fe(z3.IntVal(k))) for k in range(n)]
  p = cur()
  if not p.in_template:
    for a, b in zip(P, P[1:]):
      p.prove("precondition of np.interp: increasing points", a < b)
  xe = x.elem()
  lv = F[0] if left is None else to_zreal(left)
  rv = F[-1] if right is None else to_zreal(right)

  def fn(*i):
    v = to_zreal(xe(*i))
    r = z3.If(v == P[-1], F[-1], rv)
    for k in reversed(range(n - 1)):
      r = z3.If(v < P[k + 1], F[k] + (F[k + 1] - F[k]) * (v - P[k]) /
                (P[k + 1] - P[k]), r)
    return SReal(_simp(z3.If(v < P[0], lv, r)), None, True)

  return SArr(x.shape, fn, "f") if x.ndim else np_scalar(fn())


def interp(x, xp, fp, left=None, right=None, period=None):
  """Piecewise linear interpolation; xp increasing"""
  x, xp, fp = asarray(x), asarray(xp), asarray(fp)
  n = zi(xp.shape[0])
  dim_eq_or_raise(xp.shape[0], fp.shape[0], "fp and xp are not of the same "
                  "length.")
  if not cur().valid(n > 0) and cur().branch(n <= 0):
    raise_(ValueError, "array of sample points is empty")
  xe, pe, fe = x.elem(), xp.elem(), fp.elem()
  p = cur()
  if isinstance(xp.shape[0], int) and xp.shape[0] <= 4:
    return _interp_few(x, pe, fe, xp.shape[0], left, right)
  I = z3.IntSort()
  nd = x.ndim
  f = fresh_fn("INTERP_j", *[I] * nd, I)
  if nd == 0:
    f = z3.Function(f.name(), I)
  ops_ = [arr_operand(x), arr_operand(xp)]
  register_op("INTERPJ", f, 0, lambda: ops_)
  X = lambda *i: to_zreal(xe(*i))
  P = lambda k: to_zreal(pe(k))
  F = lambda k: to_zreal(fe(k))
  zero = z3.IntVal(0)

  # j: segment index, valid when P(0) <= x < P(n-1)
  def seg(*i):
    j = f(*i)
    return z3.Implies(
        z3.And(P(zero) <= X(*i), X(*i) < P(n - 1)),
        z3.And(0 <= j, j < n - 1, P(j) <= X(*i), X(*i) < P(j + 1)))

  if nd:
    p.fact(seg, nd, "interp")
  else:
    p.assume(seg())
  lv = F(zero) if left is None else to_zreal(left)
  rv = F(n - 1) if right is None else to_zreal(right)

  def fn(*i):
    j = f(*i)
    v = X(*i)
    lin = F(j) + (F(j + 1) - F(j)) * (v - P(j)) / (P(j + 1) - P(j))
    return SReal(
        _simp(z3.If(v < P(zero), lv, z3.If(v > P(n - 1), rv, z3.If(
            v == P(n - 1), F(n - 1), lin)))), None, True)

  if nd == 0:
    return np_scalar(fn())
  return SArr(x.shape, fn, "f")


def matmul(a, b, out=None):
  a, b = asarray(a), asarray(b)
  if a.ndim == 1 and b.ndim == 1:
    dim_eq_or_raise(a.shape[0], b.shape[0], "shapes not aligned")
    return reduce_sum(UF["multiply"](a, b))
  if a.ndim == 0 or b.ndim == 0:
    return UF["multiply"](a, b)
  dim_eq_or_raise(a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0],
                  "shapes not aligned")
  A = a if a.ndim > 1 else basic_view(a, (None,))
  B = b if b.ndim > 1 else basic_view(b, (slice(None), None))
  prod = UF["multiply"](
      basic_view(A, (slice(None), slice(None), None)),
      basic_view(B, (None,)))
  r = reduce_sum(prod, 1)
  if a.ndim == 1:
    r = r[0]
  if b.ndim == 1:
    r = r[..., 0]
  if out is not None:
    assign(out, r)
    return out
  return r


def dot(a, b, out=None):
  a, b = asarray(a), asarray(b)
  if a.ndim == 0 or b.ndim == 0:
    return UF["multiply"](a, b, out=out)
  return matmul(a, b, out)


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
  """Only over contiguous one-dimensional storage; accesses must be in bounds
  (a precondition of the library, proved at every call)"""
  if x.ndim != 1:
    raise Unsupported("as_strided of a matrix")
  shape = _shape(shape)
  item = DType(x.kind).itemsize
  st = []
  for s in strides:
    z = zi(s)
    if x.cell is not None:
      # the stride of the view is factored out
      q = z3.simplify(z3.substitute(z, (x.cell, z3.IntVal(1))))
      q = _simp(q / item)
      d = z3.simplify(q * x.cell * item - z, som=True)
      if not (z3.is_int_value(d) and d.as_long() == 0):
        cur().prove("as_strided stays on the elements of the view", d == 0)
      st.append(q)
      continue
    q = _simp(z / item)
    # strides are multiples of the item size when derived from x.strides
    if not cur().valid(q * item == z):
      raise Unsupported("stride is not a multiple of the item size")
    st.append(q)
  p = cur()
  idx = [fresh("as") for _ in shape]
  n = zi(x.shape[0])
  pos = sum((i * s for i, s in zip(idx, st)), z3.IntVal(0))
  p.prove(
      "as_strided stays inside the buffer",
      z3.Implies(
          z3.And(*[z3.And(i >= 0, i < zi(d)) for i, d in zip(idx, shape)]),
          z3.And(pos >= 0, pos < n)))

  def fwd(*i):
    return (_simp(sum((a * b for a, b in zip(i, st)), z3.IntVal(0))),)

  return _view(x, shape, fwd, None, writeable=bool(writeable))


def unwrap(p, axis=-1, **kw):
  a = asarray(p)
  if a.ndim != 1:
    raise Unsupported("unwrap of a matrix")
  return opaque("UNWRAP", [a], [], a.shape)


def median(a, axis=None, **kw):
  a = asarray(a)
  if a.ndim != 1:
    raise Unsupported("median of a matrix")
  return opaque("MEDIAN", [a], [], ())


def isscalar(x):
  return V.is_num(x) or isinstance(x, (complex, str))


def ndim(x):
  return asarray(x).ndim


def shape(x):
  return asarray(x).shape


def size(x, axis=None):
  a = asarray(x)
  return a.size if axis is None else a.shape[_axis(axis, a.ndim)]


def result_type(*a):
  from pyvc import seq as S
  ks = []
  for x in a:
    if isinstance(x, S.Star):
      # Of a sequence that is not empty, all elements of the same kind
      if not cur().valid(to_zint(x.seq._vc_len()) > 0):
        raise Unsupported("result_type of a sequence that may be empty")
      x = S._seq(x.seq).get(fresh("any"))
    d = as_dtype(x, None) if not V.is_num(x) and not isinstance(x, SArr) \
        else None
    ks.append(d.kind if d is not None else asarray(x).kind)
  return DType(_join_all(ks))
