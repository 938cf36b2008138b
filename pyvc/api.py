"""What the contract modules use."""
import signal
import time
from fractions import Fraction

import z3

from pyvc import axioms as ax
from pyvc import core, loader
from pyvc import nparr as N
from pyvc import seq
from pyvc import values as V
from pyvc.core import (Explorer, PathEnd, Unsupported, cur, fresh, fresh_fn,
                       zbool, zint, zreal)
from pyvc.seq import LoopSpec, SList, SSeq, WhileSpec
from pyvc.values import SBool, SCplx, SInt, SReal, eq, ite, lift

And, Or, Not, Implies, If, Q = (z3.And, z3.Or, z3.Not, z3.Implies, z3.If,
                                z3.Q)
ToReal, ToInt, IntVal, RealVal = z3.ToReal, z3.ToInt, z3.IntVal, z3.RealVal


class VC:

  def __init__(self, prop, name, fn, functions, replay=None, max_paths=None,
               timeout=150):
    self.prop, self.name, self.fn = prop, name, fn
    self.functions = functions
    self.replay = replay
    self.max_paths = max_paths
    self.timeout = timeout


REGISTRY = {}


def vc(prop, name, functions=(), replay=None, **kw):

  def deco(fn):
    REGISTRY.setdefault(prop, []).append(
        VC(prop, name, fn, list(functions), replay, **kw))
    return fn

  return deco


class Timeout(BaseException):
  pass


def run_vc(v):
  """Explore one verification condition; returns a plain dict"""
  w = loader.World()
  w.patches = []

  def patch(mod, attr, value):
    obj = w.load(mod) if isinstance(mod, str) else mod
    had = attr in vars(obj)
    old = vars(obj).get(attr)
    w.patches.append((obj, attr, had, old))
    setattr(obj, attr, value)

  w.patch = patch
  ex = Explorer(v.name, v.max_paths)

  def body(p):
    p.world = w
    try:
      v.fn(p, w)
    finally:
      while w.patches:
        obj, attr, had, old = w.patches.pop()
        if had:
          setattr(obj, attr, old)
        else:
          delattr(obj, attr)

  def alarm(*_):
    raise Timeout()

  old = signal.signal(signal.SIGALRM, alarm)
  signal.alarm(v.timeout)
  t0 = time.time()
  crash = None
  try:
    ex.run(body)
  except Timeout:
    ex.undecided.append(f"time limit of {v.timeout} s")
  except Unsupported as e:
    ex.undecided.append(f"unsupported: {e}")
  except SyntaxError as e:
    ex.undecided.append(f"the source does not parse: {e}")
  except Exception as e:  # pylint: disable=W0703
    import traceback
    crash = traceback.format_exc()[-1500:]
    ex.undecided.append(f"engine: {type(e).__name__}: {e}")
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
  return {
      "vc": v.name, "functions": v.functions, "replay": v.replay,
      "paths": ex.paths, "secs": round(time.time() - t0, 2),
      "obligations": [o.as_dict() for o in ex.obligations],
      "covers": ex.covers, "undecided": ex.undecided, "crash": crash,
      "queries": core.STATS["queries"], "solver_s": core.STATS["solver_s"],
  }


# ---------------------------------------------------------------------------
# symbolic inputs (registered for replay)
# ---------------------------------------------------------------------------
def num(m, z):
  """Value of a z3 term in a model as int/float"""
  v = m.eval(z, model_completion=True)
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_rational_value(v):
    return float(v.as_fraction())
  if z3.is_algebraic_value(v):
    return float(v.approx(20).as_fraction())
  if z3.is_true(v):
    return True
  if z3.is_false(v):
    return False
  raise ValueError(f"no value for {z}")


def evals(m, v):
  """Scalar SVal -> JSON"""
  v = lift(v)
  if isinstance(v, SCplx):
    return {"re": num(m, v.re), "im": num(m, v.im)}
  n = V.nan_of(v)
  if n is not None and num(m, n):
    return {"f": "nan"}
  return num(m, v.z)


def evarr(m, a):
  dims = [num(m, N.zi(d)) for d in a.shape]
  tot = 1
  for d in dims:
    tot *= d
  if tot > 4096:
    raise ValueError(f"model array too large {dims}")

  def rec(pre, ds):
    if not ds:
      return evals(m, a.at(*[z3.IntVal(i) for i in pre]))
    return [rec(pre + [i], ds[1:]) for i in range(ds[0])]

  return {"nd": rec([], dims), "dtype": {
      "f": "float64", "i": "int64", "b": "bool", "c": "complex128"
  }[a.kind], "shape": dims}


def real(p, name, *conds, np=False, lo=None, hi=None):
  z = fresh(name, "Real")
  s = SReal(z, None, np)
  if lo is not None:
    p.assume(z >= zreal(lo))
  if hi is not None:
    p.assume(z <= zreal(hi))
  p.input(name, lambda m: evals(m, s))
  return s


def integer(p, name, lo=None, hi=None, np=False):
  z = fresh(name)
  s = SInt(z, np)
  if lo is not None:
    p.assume(z >= zint(lo))
  if hi is not None:
    p.assume(z <= zint(hi))
  p.input(name, lambda m: evals(m, s))
  return s


def boolean(p, name):
  s = SBool(fresh(name, "Bool"))
  p.input(name, lambda m: evals(m, s))
  return s


def length(p, name, lo=0, small=8):
  z = fresh(name)
  p.assume(z >= lo)
  p.small.append(z <= small)
  p.input(name, lambda m: num(m, z))
  return SInt(z)


def array(p, name, shape, k="f", lo=None, hi=None, nan=False):
  """Symbolic array; shape entries are ints or SInt"""
  shape = shape if isinstance(shape, tuple) else (shape,)
  e = N.sym_elem(name, len(shape), k)
  if nan:
    nf = fresh_fn(name + "_isnan", *[z3.IntSort()] * len(shape),
                  z3.BoolSort())
    e0 = e
    e = lambda *i: SReal(e0(*i).z, nf(*i), True)
  a = N.SArr(shape, e, k)
  if lo is not None:
    p.fact(lambda *i: zreal(e(*i)) >= zreal(lo), len(shape), name + " lower")
  if hi is not None:
    p.fact(lambda *i: zreal(e(*i)) <= zreal(hi), len(shape), name + " upper")
  snap = N.SArr(shape, e, k)
  p.input(name, lambda m: evarr(m, snap))
  return a


def frozen_copy(a):
  """Contents of an array now (for 'unchanged' and old() in postconditions)"""
  e = a.elem()
  return N.SArr(a.shape, e, a.kind)


def prove_array(p, name, got, shape, spec, **kw):
  """got has the shape and got[i] == spec(i) for every index"""
  if not isinstance(got, N.SArr):
    if len(shape) == 0:
      return p.prove(name, eq(got, spec()), **kw)
    p.fail(name, "not an array")
    return False
  if got.ndim != len(shape):
    p.fail(name + ": number of dimensions", "wrong ndim")
    return False
  if shape:
    p.prove(name + ": shape", And(*[
        N.zi(d) == N.zi(s) for d, s in zip(got.shape, shape)]))
  if not shape:
    return p.prove(name, eq(got.at(), spec()), **kw)
  return p.prove_all(name, shape, lambda *i: eq(got.at(*i), spec(*i)), **kw)


def prove_same(p, name, a, b, **kw):
  """Array equality"""
  return prove_array(p, name, a, b.shape, lambda *i: b.at(*i), **kw)


def raises(f, *exc):
  """The exception of one of the given types that f raises, or None"""
  try:
    f()
  except exc as e:  # pylint: disable=W0703
    return e
  return None
