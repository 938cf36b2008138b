"""Concrete contract of strided convolutions"""
import numpy as np

from battery.util import close, same
from sample.utils import dsp


def gen(cplx):
  def g(rng, i):
    n, W = int(rng.integers(0, 30)), int(rng.integers(1, 9))
    ker = rng.normal(size=W)
    if cplx:
      ker = ker + 1j * rng.normal(size=W)
    dflt = not cplx and i % 4 == 0
    return {"n": n, "W": W, "s": 1 if dflt else int(rng.integers(1, 8)),
            "x": rng.normal(size=n), "ker": ker, "dflt": dflt,
            "out": ["none", "other"][i % 2]}
  return g


def want(x, ker, s):
  return np.array([np.sum(x[i:i + ker.size] * ker[::-1])
                   for i in range(0, x.size - ker.size + 1, s)],
                  dtype=np.result_type(x, ker))


def ok(x, ker, s):
  return 1 <= s <= 1e6 and np.size(ker) and max(
      [1, *np.abs(x), *np.abs(ker)]) < 1e9


def real(s, x, ker, out="none", dflt=False, **_):
  if not ok(x, ker, s):
    return
  ox, k0 = x.copy(), ker.copy()
  w = want(ox, k0, s)
  kw = {} if dflt else {"stride": s}
  if out == "other":
    kw["out"] = np.full((w.size, 1), 3.25)
  r = dsp.strided_convolution(x, ker, **kw)
  close(np.ravel(r), w, "strided convolution", 1e-9, 1e-9)
  if out == "other":
    close(kw["out"].ravel(), w, "output array", 1e-9, 1e-9)
  same(x, ox, "signal modified")
  same(ker, k0, "kernel modified")


def cplx(s, x, ker, out="none", **_):
  if not ok(x, ker, s):
    return
  ker = ker.astype(complex)
  ox, k0 = x.copy(), ker.copy()
  w = want(ox, k0, s)
  kw = {"stride": s}
  if out == "other":
    kw["out"] = np.full(w.size, 3.25 - 2j)
    w = w.astype(complex)
  r = dsp.strided_convolution_complex_kernel(x, ker, **kw)
  close(r, w, "strided convolution", 1e-9, 1e-9)
  assert np.iscomplexobj(r) == np.iscomplexobj(w), "type"
  if out == "other":
    close(kw["out"], w, "output array", 1e-9, 1e-9)
  same(x, ox, "signal modified")
  same(ker, k0, "kernel modified")


CASES = {"real": (gen(False), real, 250), "complex": (gen(True), cplx, 250)}
