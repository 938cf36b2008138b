"""numpy, scipy, sklearn and math as seen by the code under verification:
each function is replaced by its contract (trusted, cross-checked against the
real library by the battery)."""
import copy as _copy
import inspect
import itertools as _it
import math as _math
import types
from fractions import Fraction

import z3

from pyvc import axioms as ax
from pyvc import core
from pyvc import nparr as N
from pyvc import seq
from pyvc import values as V
from pyvc.core import Unsupported, cur, fresh
from pyvc.values import (SBool, SCplx, SInt, SReal, lift, raise_, to_zint,
                         to_zreal)


class FakeModule(types.ModuleType):
  """Module with contracts; unknown names are stubs that refuse to be used"""

  def __init__(self, name, **members):
    super().__init__(name)
    self.__path__ = []
    self.__dict__.update(members)

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    from pyvc.loader import make_stub
    s = make_stub(self.__name__, name)
    self.__dict__[name] = s
    return s


class _NdMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, N.SArr)


class ndarray(metaclass=_NdMeta):
  _vc_ndarray = True


def _npscalar(kinds, name):

  class M(type):

    def __instancecheck__(cls, x):
      return isinstance(x, V.SVal) and getattr(
          x, "np", False) and V.kind(x) in kinds

    def __call__(cls, x=0):
      return N.DType(kinds[0])(x)

  return M(name, (), {"_vc_dtype": kinds[0]})


class finfo:

  def __init__(self, d):
    d = N.as_dtype(d)
    if d.kind not in "fc":
      raise_(ValueError, "data type not inexact")
    self.eps = SReal(V.EPS, None, True)
    self.tiny = SReal(z3.Q(1, 2**1022), None, True)
    self.max = SReal(z3.RealVal(2**1024 - 2**970), None, True)
    self.min = SReal(-z3.RealVal(2**1024 - 2**970), None, True)


class iinfo:

  def __init__(self, d):
    d = N.as_dtype(d)
    if d.kind not in "iu":
      raise_(ValueError, "Invalid integer data type")
    b = d.bits
    self.bits = b
    self.max = 2**b - 1 if d.kind == "u" else 2**(b - 1) - 1
    self.min = 0 if d.kind == "u" else -2**(b - 1)


def _issubdtype(a, b):
  k = N.as_dtype(a).kind
  n = getattr(b, "__name__", "")
  if n == "integer":
    return k in "iu"
  if n == "floating":
    return k == "f"
  if n == "complexfloating":
    return k == "c"
  if n == "number":
    return k in "iufc"
  return k == N.as_dtype(b).kind


def _iscomplexobj(x):
  return N.asarray(x).kind == "c"


def _copy_arr(x, **k):
  return N.asarray(x).copy()


def _ndindex(*shape):
  if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
    shape = tuple(shape[0])
  if all(isinstance(n, int) for n in shape):
    import itertools
    return itertools.product(*[range(n) for n in shape])
  if len(shape) == 1:
    return seq.SSeq(shape[0], lambda k: (SInt(k),))
  raise Unsupported("ndindex of several dimensions")


def make_numpy():
  np = FakeModule("numpy")
  d = np.__dict__
  d.update(N.UF)
  for n in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like",
            "empty_like", "full_like", "arange", "linspace", "asarray",
            "array", "conjugate", "real", "imag", "angle", "clip", "where",
            "copyto", "mean", "std", "flatnonzero", "reshape", "squeeze",
            "expand_dims", "flip", "concatenate", "stack", "diff", "pad",
            "interp", "matmul", "dot", "unwrap", "median", "ndim", "shape",
            "size", "hstack", "vstack", "append", "count_nonzero",
            "result_type", "isscalar", "argsort"):
    d[n] = getattr(N, n)
  for n in ("hamming", "hanning", "blackman", "bartlett"):
    d[n] = _window(n)
  d["conj"] = N.conjugate
  d["nonzero"] = lambda a: N.where(a)
  U = N.UF
  d["log1p"] = lambda x, out=None: U["log"](U["add"](x, 1), out=out)
  d["expm1"] = lambda x, out=None: U["subtract"](U["exp"](x), 1, out=out)
  d["hypot"] = lambda x, y, out=None: U["sqrt"](U["add"](
      U["square"](x), U["square"](y)), out=out)
  d["ndindex"] = _ndindex
  d["round"] = d["around"] = N.round_
  d["sum"] = N.reduce_sum
  d["max"] = d["amax"] = lambda a, axis=None, **k: N.reduce_ext(
      a, axis, which="max", **k)
  d["min"] = d["amin"] = lambda a, axis=None, **k: N.reduce_ext(
      a, axis, which="min", **k)
  d["any"], d["all"] = N.any_, N.all_
  d["argmax"] = lambda a, axis=None: N.arg_ext(a, axis, "max")
  d["argmin"] = lambda a, axis=None: N.arg_ext(a, axis, "min")
  d["ravel"] = lambda a: N.reshape(a, -1)
  d["copy"] = _copy_arr
  d["fliplr"] = lambda a: N.flip(a, 1)
  d["flipud"] = lambda a: N.flip(a, 0)
  d["transpose"] = lambda a, axes=None: N.asarray(a).transpose(
      *(axes or ()))
  d["asanyarray"] = N.asarray

  def ascontiguousarray(a, dtype=None):
    a = N.asarray(a) if dtype is None else N.asarray(a, dtype)
    if a.cell is not None and not cur().branch(a.cell == 1):
      return a.copy()
    return a

  d["ascontiguousarray"] = ascontiguousarray
  d["atleast_1d"] = lambda a: N.asarray(a) if N.ndim(a) else N.reshape(a, 1)
  d["newaxis"] = None
  d["pi"] = SReal(V.PI)
  d["e"] = SReal(ax.EXP(z3.RealVal(1)))
  d["nan"] = float("nan")
  d["inf"] = float("inf")
  d["ndarray"] = ndarray
  d["dtype"] = N.as_dtype
  d["finfo"], d["iinfo"] = finfo, iinfo
  d["issubdtype"] = _issubdtype
  d["iscomplexobj"] = _iscomplexobj
  d["isrealobj"] = lambda x: not _iscomplexobj(x)
  for b in (8, 16, 32, 64):
    d[f"int{b}"] = N.DType("i", f"int{b}", b)
    d[f"uint{b}"] = N.DType("u", f"uint{b}", b)
  d["float32"] = N.DType("f", "float32", 32)
  d["complex64"] = N.DType("c", "complex64", 64)
  d["float64"] = _npscalar("f", "float64")
  d["complex128"] = _npscalar("c", "complex128")
  d["bool_"] = _npscalar("b", "bool_")
  d["integer"] = _npscalar("i", "integer")
  d["floating"] = _npscalar("f", "floating")
  d["complexfloating"] = _npscalar("c", "complexfloating")
  d["number"] = _npscalar("ifc", "number")
  d["generic"] = _npscalar("bifc", "generic")
  d["lib"] = FakeModule("numpy.lib")
  d["lib"].stride_tricks = FakeModule("numpy.lib.stride_tricks",
                                      as_strided=N.as_strided)
  d["random"] = FakeModule("numpy.random")
  d["fft"] = FakeModule("numpy.fft")
  d["linalg"] = FakeModule("numpy.linalg")
  d["testing"] = FakeModule("numpy.testing")
  fft = d["fft"]
  fft.rfft, fft.irfft, fft.fft, fft.ifft = _rfft, _irfft, _fft, _ifft
  fft.rfftfreq = _rfftfreq
  return np


def _window(name):
  """An unspecified function of the length only"""

  def f(M):
    M = N._shape(M)[0]
    return N.opaque("WIN_" + name, [], [lift(M)], (M,))

  return f


def _resized(x, n):
  """Zero-padded or truncated to n samples"""
  x = N.asarray(x)
  if x.ndim != 1:
    raise Unsupported("Fourier transform of a matrix")
  if n is None or N.same(n, x.shape[0]):
    return x
  m, e = N.zi(x.shape[0]), x.elem()
  zero = V.lift(0.0) if x.kind != "c" else V.cplx(0)
  return N.SArr((n,), lambda k: V.ite(k < m, e(k), zero), x.kind)


def _fftop(name, length, k):

  def f(x, n=None, axis=-1):
    if name in ("IRFFT",) and n is None:
      n = N.dim(z3.simplify(2 * (N.zi(N.asarray(x).shape[0]) - 1)))
    if name == "IRFFT":
      # the spectrum of an n-sample signal
      y = _resized(x, N.dim(z3.simplify(N.zi(n) / 2 + 1)))
      return N.opaque("IRFFT", [y], [n], (n,), "f")
    y = _resized(x, n)
    return N.opaque(name, [y], [], (N.dim(z3.simplify(length(N.zi(
        y.shape[0])))),), k)

  return f


_rfft = _fftop("RFFT", lambda m: m / 2 + 1, "c")
_irfft = _fftop("IRFFT", None, "f")
_fft = _fftop("FFT", lambda m: m, "c")
_ifft = _fftop("IFFT", lambda m: m, "c")


def _rfftfreq(n, d=1):
  n = lift(n)
  m = N.dim(n // 2 + 1)
  dn = to_zreal(d) * z3.ToReal(to_zint(n))
  return N.SArr((m,), lambda i: SReal(z3.simplify(z3.ToReal(i) / dn), None,
                                      True), "f")


# ---------------------------------------------------------------------------
# math
# ---------------------------------------------------------------------------
def make_math():
  m = FakeModule("math")

  def un(f, dom=None, msg="math domain error"):

    def g(x):
      x = lift(x)
      if isinstance(x, SCplx):
        raise_(TypeError, "must be real number, not complex")
      z = to_zreal(x)
      if dom is not None:
        c = z3.simplify(dom(z))
        if not z3.is_true(c) and (z3.is_false(c) or not cur().branch(c)):
          raise_(ValueError, msg)
      return SReal(f(V._norm(z)), V.nan_of(x))

    return g

  def nan_guard(x, exc=ValueError):
    if isinstance(x, float) and _math.isnan(x):
      raise_(ValueError, "cannot convert float NaN to integer")
    if isinstance(x, float) and _math.isinf(x):
      raise_(OverflowError, "cannot convert float infinity to integer")
    x = lift(x)
    n = V.nan_of(x)
    if n is not None and cur().branch(n):
      raise_(ValueError, "cannot convert float NaN to integer")
    return x

  d = m.__dict__
  d["sqrt"] = un(ax.SQRT, lambda z: z >= 0)
  d["exp"] = un(ax.EXP)
  d["log10"] = un(ax.LOG10, lambda z: z > 0)
  d["log2"] = un(ax.LOG2, lambda z: z > 0)
  ln = un(ax.LN, lambda z: z > 0)

  def log(x, base=None):
    if base is None:
      return ln(x)
    return ln(x) / ln(base)

  d["log"] = log
  d["sin"], d["cos"], d["atan"] = un(ax.SIN), un(ax.COS), un(ax.ATAN)
  d["sinh"], d["asinh"] = un(ax.SINH), un(ax.ASINH)
  d["ceil"] = lambda x: SInt(nan_guard(x).__ceil__().z)
  d["floor"] = lambda x: SInt(nan_guard(x).__floor__().z)
  d["trunc"] = lambda x: SInt(nan_guard(x).__trunc__().z)
  d["pow"] = lambda a, b: V.power(lift(a), lift(b))
  d["fabs"] = lambda x: abs(lift(x))
  d["isnan"] = lambda x: SBool(N.s_isnan(x).z)
  d["isfinite"] = lambda x: (not (_math.isnan(x) or _math.isinf(
      x))) if isinstance(x, float) else SBool(N.s_isfinite(x).z)
  d["isinf"] = lambda x: _math.isinf(x) if isinstance(x, float) else False
  d["pi"] = SReal(V.PI)
  d["inf"], d["nan"] = _math.inf, _math.nan
  d["e"] = SReal(ax.EXP(z3.RealVal(1)))
  d["gcd"] = _math.gcd
  d["factorial"] = _math.factorial
  d["copysign"] = lambda a, b: V.ite(V.compare("<", b, 0), -abs(lift(a)),
                                     abs(lift(a)))
  return m


def make_itertools():
  m = FakeModule("itertools")
  for n in ("repeat", "count", "cycle", "product", "permutations",
            "combinations", "tee", "groupby"):
    setattr(m, n, getattr(_it, n))

  def repeat(x, *times, **kw):
    t = times[0] if times else kw.get("times")
    return seq.repeat([x], t) if isinstance(t, SInt) else _it.repeat(
        x, *times, **kw)

  m.repeat = repeat

  def chain(*xs):
    if getattr(cur(), "lazy_chain", False):
      return seq.SChain(q for x in xs for q in (
          x.parts if isinstance(x, seq.SChain) else [x]))
    if any(seq.is_symseq(x) or isinstance(x, seq.SFilter) for x in xs):
      r = None
      for x in xs:
        if isinstance(x, seq.SFilter):
          x = x._vc_list()
        x = seq._seq(x) if seq.is_symseq(x) else x
        r = x if r is None else seq.concat(r, x, seq.SList)
      return r
    return _it.chain(*xs)

  class Chain:

    def __call__(self, *xs):
      return chain(*xs)

    def from_iterable(self, it):
      if isinstance(it, seq.SFilter):
        it = it._vc_list()
      if seq.is_symseq(it):
        return seq.flatten(it)
      return chain(*it)

  m.chain = Chain()

  def starmap(f, it):
    if seq.is_symseq(it):
      return seq.vmap(lambda t: f(*t), it)
    return _it.starmap(f, it)

  m.starmap = starmap

  def islice(it, *a):
    if seq.is_symseq(it):
      return seq._seq(it)[slice(*a)]
    return _it.islice(it, *a)

  m.islice = islice

  def accumulate(*a):
    return _it.accumulate(*a)

  m.accumulate = accumulate
  def zip_longest(*xs, fillvalue=None):
    if not any(seq.is_symseq(x) for x in xs):
      return _it.zip_longest(*xs, fillvalue=fillvalue)
    ns = [seq.vlen(x) for x in xs]
    gs = [seq.getter(x) for x in xs]
    n = to_zint(ns[0])
    for q in ns[1:]:
      q = to_zint(q)
      n = z3.If(q > n, q, n)

    def get(k):
      return tuple(g(k) if cur().branch(k < to_zint(q)) else fillvalue
                   for g, q in zip(gs, ns))

    return seq.SSeq(SInt(z3.simplify(n)), get)

  m.zip_longest = zip_longest

  def takewhile(f, it):
    from pyvc import strs
    return strs.takewhile(f, it)

  def dropwhile(f, it):
    from pyvc import strs
    return strs.dropwhile(f, it)

  m.takewhile, m.dropwhile = takewhile, dropwhile
  return m


# ---------------------------------------------------------------------------
# sklearn
# ---------------------------------------------------------------------------
class BaseEstimator:
  """sklearn.base.BaseEstimator: parameters are the constructor arguments"""

  @classmethod
  def _get_param_names(cls):
    init = getattr(cls.__init__, "deprecated_original", cls.__init__)
    if init is object.__init__:
      return []
    sig = inspect.signature(init)
    return sorted(p.name for p in sig.parameters.values()
                  if p.name != "self" and p.kind != p.VAR_KEYWORD)

  def get_params(self, deep=True):
    out = {}
    for k in self._get_param_names():
      v = getattr(self, k)
      if deep and hasattr(v, "get_params") and not isinstance(v, type):
        out.update((k + "__" + n, w) for n, w in v.get_params().items())
      out[k] = v
    return out

  def set_params(self, **params):
    if not params:
      return self
    valid = self.get_params(deep=True)
    nested = {}
    for k, v in params.items():
      k, delim, sub = k.partition("__")
      if k not in valid:
        raise_(ValueError, f"Invalid parameter {k!r} for estimator")
      if delim:
        nested.setdefault(k, {})[sub] = v
      else:
        setattr(self, k, v)
        valid[k] = v
    for k, s in nested.items():
      valid[k].set_params(**s)
    return self


def clone(est, *, safe=True):
  if type(est) in (list, tuple, set, frozenset):
    return type(est)([clone(e, safe=safe) for e in est])
  if not hasattr(est, "get_params") or isinstance(est, type):
    if not safe:
      return _copy.deepcopy(est)
    raise_(TypeError, "Cannot clone object")
  ps = est.get_params(deep=False)
  ps = {k: clone(v, safe=False) for k, v in ps.items()}
  return type(est)(**ps)


class _LinReg(BaseEstimator):

  def __init__(self, fit_intercept=True):
    self.fit_intercept = fit_intercept

  def fit(self, x, y):
    x, y = N.asarray(x), N.asarray(y)
    if x.ndim != 2:
      raise_(ValueError, "Expected 2D array, got 1D array instead")
    N.dim_eq_or_raise(x.shape[0], y.shape[0], "inconsistent numbers of "
                      "samples")
    col = y.ndim == 2 and N.same(y.shape[1], 1)
    if not N.same(x.shape[1], 1) or y.ndim != 1 and not col:
      raise Unsupported("multivariate regression")
    ys = y[:, 0] if col else y
    self.col_ = col
    if not cur().valid(N.zi(x.shape[0]) >= 1) and cur().branch(
        N.zi(x.shape[0]) < 1):
      raise_(ValueError, "Found array with 0 sample(s)")
    xs = x[:, 0]
    self.coef_ = N.reshape(N.opaque("OLS_slope", [xs, ys], [], ()),
                           (1, 1) if col else 1)
    self.intercept_ = N.opaque("OLS_intercept", [xs, ys], [], ())
    if col:
      self.intercept_ = N.reshape(self.intercept_, 1)
    return self

  def predict(self, x):
    x = N.asarray(x)
    if self.col_:
      r = x[:, 0] * self.coef_[0, 0] + self.intercept_[0]
      return N.reshape(r, (-1, 1))
    return x[:, 0] * self.coef_[0] + self.intercept_


def make_sklearn():
  sk = FakeModule("sklearn")
  base = FakeModule("sklearn.base", BaseEstimator=BaseEstimator,
                    RegressorMixin=type("RegressorMixin", (), {}),
                    TransformerMixin=type("TransformerMixin", (), {}),
                    ClusterMixin=type("ClusterMixin", (), {}), clone=clone)
  sk.base = base
  sk.linear_model = FakeModule("sklearn.linear_model",
                               LinearRegression=_LinReg)
  sk.utils = FakeModule("sklearn.utils")
  return sk


def _cumtrapz(y, x=None, dx=1, axis=-1, initial=None):
  """c[0] = initial, c[k+1] = c[k] + (x[k+1]-x[k]) (y[k]+y[k+1])/2"""
  y, x = N.asarray(y), N.asarray(x)
  if y.ndim == 0:
    raise_(ValueError, "at least one point is required")
  if initial is None or y.ndim != 1 or x.ndim != 1:
    raise Unsupported("cumulative_trapezoid without initial value")
  N.dim_eq_or_raise(y.shape[0], x.shape[0], "shapes not compatible")
  c = N.opaque("CUMTRAPZ", [y, x], [initial], y.shape)
  e, ye, xe = c.elem(), y.elem(), x.elem()
  n = N.zi(y.shape[0])
  r = to_zreal
  cur().assume(r(e(z3.IntVal(0))) == to_zreal(initial))
  cur().fact(lambda k: z3.Implies(
      z3.And(0 <= k, k + 1 < n),
      r(e(k + 1)) == r(e(k)) + (r(xe(k + 1)) - r(xe(k))) *
      (r(ye(k + 1)) + r(ye(k))) / 2), 1, "trapezoid")
  return c


def make_scipy():
  sp = FakeModule("scipy")
  sp.optimize = FakeModule("scipy.optimize")
  sp.signal = FakeModule("scipy.signal")
  sp.signal.windows = FakeModule("scipy.signal.windows")
  sp.stats = FakeModule("scipy.stats")
  sp.special = FakeModule("scipy.special")
  sp.io = FakeModule("scipy.io")
  sp.io.wavfile = FakeModule("scipy.io.wavfile")
  sp.fft = FakeModule("scipy.fft", rfft=_rfft, irfft=_irfft, fft=_fft,
                      ifft=_ifft, rfftfreq=_rfftfreq)
  sp.interpolate = FakeModule("scipy.interpolate")
  sp.ndimage = FakeModule("scipy.ndimage")
  sp.linalg = FakeModule("scipy.linalg")
  sp.integrate = FakeModule("scipy.integrate",
                            cumulative_trapezoid=_cumtrapz)
  return sp


def make_chromatictools():
  ch = FakeModule("chromatictools")

  class cli:

    @staticmethod
    def main(name, *names, **kw):
      return lambda f: f

    def __getattr__(self, n):
      raise Unsupported("chromatictools.cli." + n)

  ch.cli = cli
  return ch


_PG = []


def real_paragraph():
  """The installed paragraph library itself (pure Python): its graph evaluation
  is executed, not assumed"""
  if _PG:
    return _PG[0]
  import glob
  import importlib.util
  import sys
  base = glob.glob("/opt/venv/lib/python3*/site-packages/paragraph")[0]
  spec = importlib.util.spec_from_file_location(
      "paragraph", base + "/__init__.py", submodule_search_locations=[base])
  m = importlib.util.module_from_spec(spec)
  sys.modules["paragraph"] = m
  spec.loader.exec_module(m)
  _PG.append(m)
  return m


def make_sys(world):
  import sys
  m = FakeModule("sys")
  for k in dir(sys):
    if not k.startswith("__"):
      m.__dict__[k] = getattr(sys, k)
  m.modules = world.modules
  return m


def make_mp():
  mp = FakeModule("multiprocessing")

  def Pool(*a, **k):
    raise Unsupported("multiprocessing.Pool without a contract")

  mp.Pool = Pool
  mp.managers = FakeModule(
      "multiprocessing.managers", public_methods=lambda o: [
          n for n in dir(o) if n[0] != "_" and callable(getattr(o, n))],
      NamespaceProxy=type("NamespaceProxy", (), {}),
      BaseManager=type("BaseManager", (), {
          "register": classmethod(lambda cls, *a, **k: None)}))
  mp.cpu_count = lambda: SInt(fresh("cpu_count"))
  return mp


def make(world):
  return {
      "multiprocessing": make_mp(),
      "sys": make_sys(world),
      "chromatictools": make_chromatictools(),
      "throttle": FakeModule("throttle", wrap=lambda *a, **k: lambda f: f),
      "paragraph": real_paragraph(),
      "numpy": make_numpy(),
      "math": make_math(),
      "itertools": make_itertools(),
      "sklearn": make_sklearn(),
      "scipy": make_scipy(),
  }
