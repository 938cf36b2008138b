"""Helpers for the concrete contracts"""
import numpy as np


def close(a, b, msg="value", rtol=1e-6, atol=1e-8):
  a, b = np.asarray(a), np.asarray(b)
  assert a.shape == b.shape, f"{msg}: shape {a.shape} instead of {b.shape}"
  ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
  assert np.all(ok), f"{msg}: {a[~ok][:3] if a.ndim else a} instead of " \
      f"{b[~ok][:3] if b.ndim else b}"


def same(a, b, msg="unchanged"):
  a, b = np.asarray(a), np.asarray(b)
  assert a.shape == b.shape and a.dtype == b.dtype and np.array_equal(
      a, b, equal_nan=a.dtype.kind in "fc"), f"{msg}: {a} != {b}"


SHAPES = [(), (1,), (5,), (0,), (2, 3), (3, 1, 2), (1, 1)]


def out_rules(fn, x, out, msg="", rtol=1e-9):
  """Scalars, arrays, out=, and out=x"""
  old = np.copy(x)
  want = np.array([float(fn(v)) for v in old.ravel().tolist()]).reshape(
      old.shape)
  if np.ndim(x) == 0:
    r = fn(x)
    assert not isinstance(r, np.ndarray), "a scalar must give a scalar"
    close(r, want, msg)
    return
  if out == "none":
    o = fn(x)
    close(o, want, msg + " result", rtol)
  else:
    o = x if out == "self" else np.full(np.shape(x), 7.5)
    r = fn(x, out=o)
    close(r, want, msg + " result", rtol)
    close(o, want, msg + " output array", rtol)
  if out != "self":
    same(x, old, "input modified")
