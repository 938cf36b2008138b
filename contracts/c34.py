"""C34: frequency bins, Lomb-Scargle spectra, autocorrelograms, detrending"""
import inspect

from contracts.common import *  # noqa: F403
from pyvc import fakes

M = "sample.utils.dsp"
NOTE = ("scipy.signal.lombscargle, the inverse FFT and the trend models by "
        "contract.")


def nf(p):
  n, fs = integer(p, "nfft", lo=1), real(p, "fs")
  p.assume(fs.z > 0)
  return n, fs


def freq(k, n, fs):
  return z3.ToReal(k) * fs.z / z3.ToReal(n.z)


def _b2f(w, x, **k):
  n, fs = z3.Int("nfft"), z3.Real("fs")
  cur().assume(n >= 1, fs > 0)
  return w.load(M).bin2f(x, nfft=SInt(n), fs=SReal(fs), **k)


elementwise("C34", "bin2f", _b2f, [f"{M}:bin2f"], replay="bin2f")


@vc("C34", "bins to frequencies", [f"{M}:bin2f"], replay="bins")
def b2f(p, w):
  m = w.load(M)
  n, fs = nf(p)
  b = integer(p, "b")
  p.prove("b fs/n", eq(m.bin2f(b, n, fs), SReal(freq(b.z, n, fs))))
  p.prove("by name", eq(m.bin2f(b, nfft=n, fs=fs), SReal(freq(b.z, n, fs))))
  p.prove("unit rate by default", eq(m.bin2f(b, n), SReal(
      z3.ToReal(b.z) / z3.ToReal(n.z))))


def smallest(b, f, n, fs):
  return And(freq(b, n, fs) >= f, freq(b - 1, n, fs) < f)


@vc("C34", "frequencies to bins", [f"{M}:f2bin"], replay="bins")
def f2b(p, w):
  m = w.load(M)
  n, fs = nf(p)
  f = real(p, "f")
  r = m.f2bin(f, n, fs)
  p.prove("an integer", zbool(isinstance(r, SInt)))
  p.prove("smallest bin not below", smallest(zint(r), f.z, n, fs))
  r = m.f2bin(f, n)
  p.prove("unit rate by default", And(
      z3.ToReal(zint(r)) >= f.z * z3.ToReal(n.z),
      z3.ToReal(zint(r)) - 1 < f.z * z3.ToReal(n.z)))
  b = integer(p, "b")
  p.prove("inverse of bin2f", eq(m.f2bin(m.bin2f(b, n, fs), n, fs), b))


for _k in ("array", "tuple"):

  @vc("C34", f"frequencies to bins, {_k}", [f"{M}:f2bin"], replay="f2bin")
  def f2ba(p, w, _k=_k):
    m = w.load(M)
    n, fs = nf(p)
    if _k == "tuple":
      f = tuple(real(p, k) for k in "fg")
      r = m.f2bin(f, nfft=n, fs=fs)
      for j in (0, 1):
        p.prove("smallest bin not below", smallest(
            zint(r[j]), f[j].z, n, fs))
      return
    L = length(p, "L", 0)
    f = array(p, "f", (L,))
    old = frozen_copy(f)
    r = m.f2bin(f, n, fs)
    p.prove("shape", And(zbool(r.ndim == 1 and r.kind == "i"),
                         N.zi(r.shape[0]) == L.z))
    k = fresh("k")
    p.reg(k)
    p.assume(0 <= k, k < L.z)
    p.prove("smallest bin not below", smallest(zint(r.at(k)),
                                               zreal(old.at(k)), n, fs))
    prove_same(p, "frequencies unmodified", f, old)


# -- Lomb-Scargle -----------------------------------------------------------
LS = z3.Function("LOMBSCARGLE", z3.RealSort(), z3.RealSort())
_SIG = inspect.signature(lambda x, y, freqs, precenter=False,
                         normalize=False: 0)


def ls_lib(w, calls):

  def lombscargle(*a, **k):
    b = _SIG.bind(*a, **k)
    b.apply_defaults()
    calls.append(b.arguments)
    fr = N.asarray(b.arguments["freqs"])
    return N.SArr(fr.shape, lambda i, e=fr.elem(): SReal(LS(V._norm(zreal(
        e(i))))), "f")

  lib(w, "scipy.signal.lombscargle", lombscargle)


def ls_spec(x, n, fs, hpf, lpf):
  mean = zreal(N.mean(x))

  def at(k):
    f = freq(k, n, fs)
    band = And(f >= hpf.z if hpf is not None else True,
               f < (lpf if lpf is not None else fs).z)
    dc = hpf.z <= 0 if hpf is not None else zbool(True)
    return SReal(If(k == 0, If(dc, mean * mean, z3.RealVal(0)), If(
        band, LS(V._norm(2 * V.PI * f)), z3.RealVal(0))))

  return at


def ls_inputs(p):
  n, fs = nf(p)
  L = length(p, "L", 1)
  t, x = array(p, "t", (L,)), array(p, "x", (L,))
  return n, fs, L, t, x


for _h in (False, True):
  for _l in (False, True):

    @vc("C34", f"Lomb-Scargle spectrum, high-pass={_h}, low-pass={_l}",
        [f"{M}:lombscargle_as_fft", f"{M}:f2bin", f"{M}:bin2f"], replay="ls")
    def ls(p, w, _h=_h, _l=_l):
      calls = []
      ls_lib(w, calls)
      m = w.load(M)
      n, fs, L, t, x = ls_inputs(p)
      old = frozen_copy(t), frozen_copy(x)
      kw, hpf, lpf = {}, None, None
      if _h:
        kw["hpf"] = hpf = real(p, "hpf", lo=0)
      if _l:
        kw["lpf"] = lpf = real(p, "lpf", lo=0)
      r = m.lombscargle_as_fft(t, x, n, fs, normalize="N", **kw)
      if len(r) != 2:
        return p.fail("spectrum and frequencies", len(r))
      bins = SInt(n.z / 2 + 1)
      prove_array(p, "non-negative FFT frequencies", r[1], (bins,),
                  lambda k: SReal(freq(k, n, fs)))
      prove_array(p, "periodogram in the pass band, zero outside, squared "
                  "mean at zero frequency", r[0], (bins,),
                  ls_spec(old[1], n, fs, hpf, lpf))
      for a in calls:
        p.prove("options of the periodogram", zbool(a["normalize"] == "N"))
        prove_same(p, "sample times", a["x"], old[0])
        prove_same(p, "samples", a["y"], old[1])
      prove_same(p, "times unmodified", t, old[0])
      prove_same(p, "signal unmodified", x, old[1])


# -- autocorrelogram --------------------------------------------------------
def inverse(real_, a, nfft):
  return (fakes._irfft if real_ else fakes._ifft)(a, n=nfft)


def ac_check(p, r, real_, pw, n, nfft):
  c = inverse(real_, pw, nfft)
  ln = If(n.z < nfft.z, n.z, nfft.z)
  prove_array(p, "inverse transform of the squared modulus, truncated",
              r, (SInt(z3.simplify(ln)),), lambda k: c.at(k))


for _real in (True, False):
  for _kind in ("c", "f"):
    for _power in (False, True):
      for _n in ("default", "n", "n and nfft"):
        if _kind == "c" and _power:
          continue

        @vc("C34", f"autocorrelogram, real={_real}, {_kind} spectrum, "
            f"power={_power}, {_n}", [f"{M}:fft2autocorrelogram"],
            replay="autocorr")
        def ac(p, w, _real=_real, _kind=_kind, _power=_power, _n=_n):
          m = w.load(M)
          S = length(p, "S", 2)
          a = array(p, "a", (S,), _kind)
          for k, v in (("real", _real), ("power", _power)):
            p.input(k, lambda mo, v=v: v)
          old = frozen_copy(a)
          kw = {}
          n = nfft = SInt(2 * (S.z - 1)) if _real else S
          if _n != "default":
            kw["n"] = n = nfft = integer(p, "n", lo=1)
          if _n == "n and nfft":
            kw["nfft"] = nfft = integer(p, "nfft", lo=1)
          if not _real:
            kw["real"] = False
          if _power:
            kw["power"] = True
          r = m.fft2autocorrelogram(a, **kw)

          def sq(k):
            v = old.at(k)
            if _power:
              return v
            v = V.cplx(v)
            return SReal(v.re * v.re + v.im * v.im)

          ac_check(p, r, _real, N.SArr((S,), sq, "f"), n, nfft)
          prove_same(p, "spectrum unmodified", a, old)


for _n in ("default", "n", "n and nfft"):

  @vc("C34", f"autocorrelogram of an unevenly sampled signal, {_n}",
      [f"{M}:lombscargle_autocorrelogram", f"{M}:lombscargle_as_fft",
       f"{M}:fft2autocorrelogram"], replay="lsac")
  def lsac(p, w, _n=_n):
    calls = []
    ls_lib(w, calls)
    m = w.load(M)
    fs = real(p, "fs")
    p.assume(fs.z > 0)
    L = length(p, "L", 1)
    t, x = array(p, "t", (L,)), array(p, "x", (L,))
    hpf = real(p, "hpf", lo=0)
    kw = {}
    if _n == "default":
      tm = zreal(N.reduce_ext(t, which="max"))
      p.assume(tm > 0)
      n = SInt(-z3.ToInt(-(tm * fs.z)))
      cut(p, "duration", n.z >= 1)
    else:
      kw["n"] = n = integer(p, "n", lo=1)
    nfft = SInt(2 * n.z)
    if _n == "n and nfft":
      kw["nfft"] = nfft = integer(p, "nfft", lo=1)
    old = frozen_copy(x)
    r = m.lombscargle_autocorrelogram(t, x, fs=fs, hpf=hpf, **kw)
    sp = N.SArr((SInt(nfft.z / 2 + 1),), ls_spec(old, nfft, fs, hpf, None),
                "f")
    ac_check(p, r, True, sp, n, nfft)


# -- detrending -------------------------------------------------------------
DET = [f"{M}:detrend"]


class Model:
  """An estimator with any trend, predicted as given (column or flat)"""

  def __init__(self, p, flat):
    self.p, self.flat, self.fits = p, flat, []

  def fit(self, X, y):
    X, y = N.asarray(X), N.asarray(y)
    self.fits.append((X, y))
    return self

  def predict(self, X):
    X = N.asarray(X)
    if X.ndim != 2:
      return self.p.fail("one sample per row", X.ndim)
    e = X.elem()
    t = lambda *i: SReal(TREND(zreal(e(i[0], z3.IntVal(0)))))
    return N.SArr(X.shape[:1] + (() if self.flat else (1,)), t, "f")


TREND = z3.Function("TREND", z3.RealSort(), z3.RealSort())

for _flat in (False, True):
  for _x in (False, True):
    for _k in ("f", "i"):

      @vc("C34", f"detrending, given model, {'flat' if _flat else 'column'} "
          f"predictions, {'given' if _x else 'default'} times, {_k}", DET,
          replay="detrend")
      def det(p, w, _flat=_flat, _x=_x, _k=_k):
        m = w.load(M)
        L = length(p, "L", 1)
        y = array(p, "y", (L,), _k)
        x = array(p, "t", (L,)) if _x else None
        p.input("flat", lambda mo: _flat)
        old = frozen_copy(y), frozen_copy(x) if _x else None
        mod = Model(p, _flat)
        r = m.detrend(y, *((x,) if _x else ()), model=mod)
        at = (lambda k: zreal(old[1].at(k))) if _x else z3.ToReal
        if len(mod.fits) != 1:
          return p.fail("the model is fitted once", len(mod.fits))
        fx, fy = (N.reshape(v, -1) for v in mod.fits[0])
        p.prove("one row per sample", zbool(mod.fits[0][0].ndim == 2))
        prove_array(p, "fitted at the sample times", fx, (L,),
                    lambda k: SReal(at(k)))
        prove_array(p, "fitted to the signal", fy, (L,),
                    lambda k: SReal(zreal(old[0].at(k))))
        prove_array(p, "signal minus trend", r, (L,), lambda k: SReal(
            zreal(old[0].at(k)) - TREND(at(k))))
        prove_same(p, "signal unmodified", y, old[0])


for _x in (False, True):

  @vc("C34", f"linear detrending by default, {'given' if _x else 'default'} "
      "times", DET, replay="detrend")
  def lin(p, w, _x=_x):
    m = w.load(M)
    L = length(p, "L", 1)
    y = array(p, "y", (L,))
    x = array(p, "t", (L,)) if _x else N.SArr((L,), lambda k: SInt(k), "i")
    old = frozen_copy(y)
    r = m.detrend(y, *((x,) if _x else ()))
    a = zreal(N.opaque("OLS_slope", [x, old], [], ()))
    b = zreal(N.opaque("OLS_intercept", [x, old], [], ()))
    prove_array(p, "signal minus least-squares line", r, (L,),
                lambda k: SReal(zreal(old.at(k)) - (a * zreal(x.at(k)) + b)))


for _d in (0, 2, 3):

  @vc("C34", f"no {_d}-d detrending", DET, replay="nd")
  def nd(p, w, _d=_d):
    m = w.load(M)
    p.input("dims", lambda mo: _d)
    y = array(p, "y", tuple(length(p, f"n{j}", 0) for j in range(_d))) \
        if _d else real(p, "y")
    mod = Model(p, True)
    p.prove("rejected", zbool(raises(lambda: m.detrend(y, model=mod),
                                     ValueError) is not None))
