"""C17: strided convolution"""
from contracts.c07 import count
from contracts.common import *  # noqa: F403

M = "sample.utils.dsp"
FN = [f"{M}:strided_convolution", f"{M}:overlapping_windows",
      f"{M}:n_windows"]
FC = [f"{M}:strided_convolution_complex_kernel"] + FN


def setup(p, k):
  n, W = length(p, "n", 0), length(p, "W", 1)
  s = integer(p, "s", lo=1)
  p.small.append(s.z <= 4)
  return n, W, s, array(p, "x", (n,)), array(p, "ker", (W,), k)


for _out in ("none", "other"):
  for _dflt in (False, True):

    @vc("C17", f"real kernel, out={_out}, {'default ' if _dflt else ''}stride",
        FN, replay="real")
    def real_kernel(p, w, _out=_out, _dflt=_dflt):
      m = w.load(M)
      n, W, s, x, ker = setup(p, "f")
      if _dflt:
        p.assume(s.z == 1)
      p.input("out", lambda mo: _out)
      p.input("dflt", lambda mo: _dflt)
      ox, ok = frozen_copy(x), frozen_copy(ker)
      c = SInt(count(n.z, W.z, s.z))
      kw = {} if _dflt else {"stride": s}
      if _out == "other":
        kw["out"] = array(p, "o", (c, 1))
      r = m.strided_convolution(x, ker, **kw)
      spec = N.sum_term(W.z, lambda o, k: zreal(ox.at(o[0] * s.z + k)) *
                        zreal(ok.at(W.z - 1 - k)), 1)
      flat = N.reshape(r, -1)
      prove_array(p, "value at lag i s of the fully overlapping convolution",
                  flat, (c,), lambda i: SReal(spec(i)))
      if _out == "other":
        prove_array(p, "the output array holds the result", kw["out"], (c, 1),
                    lambda i, j: SReal(spec(i)))
      prove_same(p, "signal unmodified", x, ox)
      prove_same(p, "kernel unmodified", ker, ok)


for _out in ("none", "other"):
  @vc("C17", f"complex kernel, out={_out}", FC, replay="complex")
  def complex_kernel(p, w, _out=_out):
    m = w.load(M)
    n, W, s, x, ker = setup(p, "c")
    p.input("out", lambda mo: _out)
    ox, ok = frozen_copy(x), frozen_copy(ker)
    c = SInt(count(n.z, W.z, s.z))
    kw = {"stride": s}
    if _out == "other":
      kw["out"] = array(p, "o", (c,), "c")
    r = m.strided_convolution_complex_kernel(x, ker, **kw)

    def part(f):
      return N.sum_term(W.z, lambda o, k: zreal(ox.at(o[0] * s.z + k)) *
                        zreal(f(ok.at(W.z - 1 - k))), 1)

    re, im = part(N.s_real), part(N.s_imag)
    spec = lambda i: SCplx(re(i), im(i))
    prove_array(p, "complex result of the same formula", r, (c,), spec)
    if _out == "other":
      prove_array(p, "the output array holds the result", kw["out"], (c,),
                  spec)
    prove_same(p, "signal unmodified", x, ox)
    prove_same(p, "kernel unmodified", ker, ok)
