"""C08: zero-phase windowed transform"""
from contracts.common import *  # noqa: F403

M = "sample.sms.dsp"
FN = [f"{M}:dft"]
EPS = V.EPS


def reference(p, w, x, win, W, n, tol):
  """The documented spectra, from the same transform of the documented
  buffer"""
  h = W.z / 2

  def buf(k):
    # sample k modulo n is the windowed frame sample at W//2 + k
    kk = If(k < W.z - h, k, k - n.z)
    i = kk + h
    return SReal(If(And(i >= 0, i < W.z), zreal(x.at(i)) * zreal(win.at(i)),
                    z3.RealVal(0)))

  from pyvc import fakes
  X = fakes._rfft(N.SArr((n,), buf, "f"))

  def mod(k):
    c = X.at(k)
    return ax.SQRT(c.re * c.re + c.im * c.im)

  mag = lambda k: SReal(20 * ax.LOG10(If(mod(k) >= EPS, mod(k), EPS)))

  def ang(k):
    c = X.at(k)
    return SReal(If(mod(k) < zreal(tol), z3.RealVal(0),
                    zreal(N.s_angle(c))))

  ph = N.unwrap(N.SArr(X.shape, ang, "f"))
  return X.shape, mag, ph


for _tol in (False, True):

  @vc("C08", f"dft, {'given' if _tol else 'default'} tolerance", FN,
      replay="dft")
  def dft(p, w, _tol=_tol):
    m = w.load(M)
    W = length(p, "W", 1)
    n = length(p, "n", 1)
    p.assume(n.z >= W.z)
    x, win = array(p, "x", (W,)), array(p, "w", (W,))
    kw = {}
    tol = SReal(z3.Q(1, 10**14))
    if _tol:
      kw["tol"] = tol = real(p, "tol", lo=SReal(2 * EPS))
    olds = frozen_copy(x), frozen_copy(win)
    r = m.dft(x, win, n, **kw)
    if len(r) != 2:
      return p.fail("two spectra", len(r))
    mx, px = r
    sh, mag, ph = reference(p, w, olds[0], olds[1], W, n, tol)
    half = SInt(n.z / 2 + 1)
    prove_array(p, "magnitude: 20 log10 of the floored modulus of the "
                "zero-phase buffer's transform", mx, (half,), mag)
    p.prove_all("magnitude floor", (half,), lambda k: zreal(mx.at(k)) >=
                20 * ax.LOG10(EPS))
    prove_array(p, "phase: unwrapped argument, zero below the tolerance", px,
                (half,), lambda k: ph.at(k))
    prove_same(p, "frame unmodified", x, olds[0])
    prove_same(p, "window unmodified", win, olds[1])


@vc("C08", "the analysis window has unit sum",
    ["sample.sms.sm:SinusoidalModel._normalized_window"], replay="window")
def window(p, w):
  sm = w.load("sample.sms.sm")
  W = length(p, "W", 1)
  win = array(p, "w", (W,))
  mod = sm.SinusoidalModel(w=win)
  s = zreal(N.reduce_sum(win))
  p.assume(s != 0)
  old = frozen_copy(win)
  r = mod._normalized_window
  prove_array(p, "the window divided by its sum", r, (W,),
              lambda k: SReal(zreal(old.at(k)) / s))
  prove_same(p, "the configured window is unmodified", mod.w, old)


@vc("C08", "each frame is transformed with the analysis window and FFT size",
    ["sample.sms.sm:SinusoidalModel.dft_frames"], replay="frames")
def frames(p, w):
  sm = w.load("sample.sms.sm")
  m = w.load(M)
  W, n, N_ = length(p, "W", 1), length(p, "n", 0), length(p, "nfft", 1)
  p.assume(N_.z >= W.z)
  h = integer(p, "H", lo=1)
  p.small.append(h.z <= 4)
  win, x = array(p, "w", (W,)), array(p, "x", (n,))
  mod = sm.SinusoidalModel(w=win, n=N_, tracker__h=h)
  mod.w_ = mod._normalized_window
  fr = mod.time_frames(x)
  s = seq._seq(mod.dft_frames(x))
  p.prove("one spectrum per frame", N.zi(s._vc_len()) == N.zi(fr.shape[0]))
  i = fresh("fi")
  p.assume(i >= 0, i < N.zi(fr.shape[0]))
  p.reg(i)
  got = s.get(i)
  want = m.dft(fr[SInt(i)], mod.w_, N_)
  prove_same(p, "magnitude of frame i", got[0], want[0])
  prove_same(p, "phase of frame i", got[1], want[1])
