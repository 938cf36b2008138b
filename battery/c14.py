"""Concrete contracts of the decibel conversions"""
import numpy as np

from sample.utils import dsp

FN = {
    "db2a": (dsp.db2a, lambda x: 10.0**(np.asarray(x, float) / 20), "f"),
    "a2db": (dsp.a2db, lambda x: 20 * np.log10(np.asarray(x, float)), "p"),
    "a2db.floorless": (dsp.a2db.floorless,
                       lambda x: 20 * np.log10(np.asarray(x, float)), "p"),
    "complex2db": (dsp.complex2db, lambda x: 20 * np.log10(np.abs(x)), "c"),
    "complex2db(real)": (dsp.complex2db, lambda x: 20 * np.log10(np.abs(x)),
                         "f"),
}


def close(a, b, msg="value"):
  a, b = np.asarray(a), np.asarray(b)
  assert a.shape == b.shape, f"{msg}: shape {a.shape} instead of {b.shape}"
  ok = np.isclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)
  assert np.all(ok), f"{msg}: {a[~ok][:3] if a.ndim else a} instead of " \
      f"{b[~ok][:3] if b.ndim else b}"


def rnd(rng, kind, shape):
  x = rng.normal(size=shape) * 10.0**rng.integers(-3, 3)
  if kind == "p":
    x = np.abs(x) + 1e-6
  if kind == "c":
    x = x + 1j * rng.normal(size=shape)
  if kind == "i":
    x = rng.integers(1, 100, size=shape)
  return x


SHAPES = [(), (1,), (5,), (0,), (2, 3), (3, 1, 2), (1, 1)]


def gen_conv(rng, i):
  f = list(FN)[i % len(FN)]
  sh = SHAPES[(i // len(FN)) % len(SHAPES)]
  out = ["none", "other", "self"][(i // 35) % 3]
  k = FN[f][2]
  if k in "fp" and rng.random() < .25 and out != "self":
    k = "i"
  if sh == ():
    out = "none"
  if FN[f][2] == "c" and out == "self":
    out = "other"
  x = rnd(rng, k, sh if sh else (1,))
  return {"f": f, "x": x if sh else x[0], "out": out}


def conv(f, x, out="none", **_):
  fn, spec, _k = FN[f]
  old = np.copy(x)
  with np.errstate(all="ignore"):
    want = spec(old)
    if out == "none":
      r = fn(x)
    else:
      o = x if out == "self" else np.full(np.shape(x), 7.0)
      r = fn(x, out=o)
  if np.ndim(x) == 0:
    assert not isinstance(r, np.ndarray), "a scalar must give a scalar"
  close(r, want, f)
  if out != "none":
    close(o, want, "output array")
  if out != "self":
    assert np.array_equal(x, old, equal_nan=True), "input modified"


def gen_floor(rng, i):
  kind = ["scalar", "array", "complex"][i % 3]
  out = ["none", "other", "self"][(i // 3) % 3]
  if kind == "scalar" or (kind == "complex" and out == "self"):
    out = "none"
  fdb = bool((i // 9) % 2)
  x = rnd(rng, "c" if kind == "complex" else "f",
          SHAPES[1 + (i // 18) % 6])
  if kind == "array" and rng.random() < .5 and x.size:
    x.flat[0] = 0
  x = x if kind != "scalar" else float(rng.normal())
  return {"x": x, "kind": kind, "out": out, "floor_db": fdb,
          "floor": float(rng.uniform(-90, 10)) if fdb else
          float(10**rng.uniform(-4, 1))}


def floor(x, floor, floor_db, kind, out="none", **_):
  fn = dsp.complex2db if kind == "complex" else dsp.a2db
  old = np.copy(x)
  lin = 10**(floor / 20) if floor_db else floor
  m = np.abs(old) if kind == "complex" else old
  want = 20 * np.log10(np.maximum(m, lin))
  kw = {}
  if out != "none":
    kw["out"] = x if out == "self" else np.full(np.shape(x), 3.0)
  r = fn(x, floor=floor, floor_db=floor_db, **kw)
  if kind == "scalar":
    assert not isinstance(r, np.ndarray), "a scalar must give a scalar"
  close(r, want)
  if kw:
    close(kw["out"], want, "output array")
  if out != "self":
    assert np.array_equal(x, old), "input modified"


def inverse(a):
  a = float(a)
  if a > 0:
    assert np.isclose(dsp.db2a(dsp.a2db(a)), a, rtol=1e-9)


def inverse_db(d):
  d = float(d)
  if abs(d) < 3000:
    assert np.isclose(dsp.a2db(dsp.db2a(d)), d, atol=1e-7)


CASES = {
    "conv": (gen_conv, conv, 420),
    "floor": (gen_floor, floor, 216),
    "inverse": (lambda r, i: {"a": float(10**r.uniform(-9, 9))}, inverse, 50),
    "inverse_db": (lambda r, i: {"d": float(r.uniform(-300, 300))},
                   inverse_db, 50),
}
