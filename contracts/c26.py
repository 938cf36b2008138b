"""C26: evaluation losses"""
import inspect

from contracts.common import *  # noqa: F403
from pyvc.values import raise_

M = "sample.evaluation.metrics"
LP = [f"{M}:lp_distance"]
NOTE = "STFT values by contract of scipy.signal.stft."


def terms(x, y, q):
  """|x - y|^q"""
  shape, (a, b) = N.broadcast([x, y])
  one = isinstance(q, int) and q == 1

  def t(*i):
    d = zreal(a(*i)) - zreal(b(*i))
    d = SReal(If(d < 0, -d, d))
    return SReal(zreal(d if one else V.power(d, lift(q))))

  return N.SArr(shape, t, "f")


def lp_spec(x, y, q):
  s = N.reduce_sum(terms(x, y, q))
  return SReal(zreal(s)) if isinstance(q, int) and q == 1 else V.power(
      SReal(zreal(s)), lift(1) / lift(q))


def exponent(p, which):
  if which == "any":
    q = real(p, "q", lo=1)
    p.assume(q.z != 1)
    return q
  p.input("q", lambda mo: which)
  return which


def vectors(p, shape, kx, ky):
  x, y = array(p, "x", shape, kx), array(p, "y", shape, ky)
  for v, k in ((x, kx), (y, ky)):
    if k == "u":
      p.fact(lambda *i: zreal(v.at(*i)) >= 0, len(shape), "unsigned")
  return x, y


for _q in (1, 2, "any"):
  for _d in (1, 2):
    for _kx, _ky in (("f", "f"), ("i", "f"), ("f", "i"), ("u", "u"),
                     ("i", "i")):
      if _d == 2 and (_kx, _ky) != ("f", "f"):
        continue

      @vc("C26", f"p-distance, p={_q}, {_d}-d {_kx}/{_ky}", LP, replay="lp")
      def lp(p, w, _q=_q, _d=_d, _kx=_kx, _ky=_ky):
        p.sum_signs = True
        m = w.load(M)
        shape = tuple(length(p, f"n{j}", 0) for j in range(_d))
        x, y = vectors(p, shape, _kx, _ky)
        q = exponent(p, _q)
        old = frozen_copy(x), frozen_copy(y)
        kw = {} if _q == 1 else {"p": q}
        r = m.lp_distance(x, y, **kw)
        p.prove("(sum |x-y|^p)^(1/p)", eq(r, lp_spec(*old, q)))
        if _kx == _ky == "f":
          p.prove("not negative", zreal(r) >= 0)
          p.prove("symmetric", eq(r, m.lp_distance(y, x, **kw)))
          p.prove("zero for equal inputs",
                  zreal(m.lp_distance(x, frozen_copy(x), **kw)) == 0)
          p.prove("zero for the same input",
                  zreal(m.lp_distance(x, x, **kw)) == 0)
        prove_same(p, "first input unmodified", x, old[0])
        prove_same(p, "second input unmodified", y, old[1])


_STFT = inspect.signature(
    lambda x, fs=1.0, window="hann", nperseg=256, noverlap=None, nfft=None,
    detrend=False, return_onesided=True, boundary="zeros", padded=True,
    axis=-1, scaling="spectrum": 0)


def _db(x, floor):
  f = ax.P10(V._norm(zreal(floor) / 20))

  def t(*i):
    v = zreal(x.at(*i))
    return SReal(20 * ax.LOG10(If(v >= f, v, f)))

  return N.SArr(x.shape, t, "f")


def _mag(c):

  def t(*i):
    v = V.cplx(c.at(*i))
    return SReal(ax.SQRT(V._norm(v.re * v.re + v.im * v.im)))

  return N.SArr(c.shape, t, "f")


for _given in (False, True):
  for _q in (1, 2, "any"):

    @vc("C26", f"spectral loss, {'given' if _given else 'default'} options, "
        f"p={_q}", [f"{M}:lin_log_spectral_loss"] + LP +
        ["sample.utils.dsp:a2db"], replay="spectral")
    def spectral(p, w, _given=_given, _q=_q):
      calls, wins = [], []
      F, T = length(p, "F", 0), length(p, "T", 0)

      def stft(*a, **k):
        b = _STFT.bind(*a, **k)
        b.apply_defaults()
        # the values depend on all the arguments; one matrix per signal
        z = array(p, f"S{len(calls)}", (F, T), "c")
        calls.append((b.arguments, z, frozen_copy(z)))
        return array(p, "sf", (F,)), array(p, "st", (T,)), z

      def get_window(window, Nx, fftbins=True):
        wins.append((window, Nx, fftbins))
        return array(p, "win", (Nx,))

      lib(w, "scipy.signal.stft", stft)
      lib(w, "scipy.signal.get_window", get_window)
      m = w.load(M)
      nx = length(p, "nx", 1)
      x, y = array(p, "x", (nx,)), array(p, "y", (nx,))
      old = frozen_copy(x), frozen_copy(y)
      n = length(p, "n", 1)
      kw = {"n": n}
      olap, alpha, floor = SReal(z3.Q(3, 4)), None, SReal(z3.RealVal(-60))
      q = exponent(p, _q)
      if _q != 1:
        kw["norm_p"] = q
      if _given:
        W = length(p, "W", 1)
        kw["w"] = array(p, "w", (W,))
        kw["olap"] = olap = real(p, "olap", lo=0)
        p.assume(olap.z < 1)
        kw["alpha"] = alpha = real(p, "alpha", lo=0)
        kw["floor_db"] = floor = real(p, "floor")
        kw["detrend"] = "linear"
        kw["scaling"] = "psd"
      else:
        W = n
        alpha = SReal(z3.Q(1, 60))
      r = m.lin_log_spectral_loss(x, y, **kw)
      if len(calls) != 2:
        return p.fail("one transform per signal", len(calls))
      if not _given:
        p.prove("hamming window of the size of the transform", And(*[
            And(zbool(t == "hamming"), N.zi(s) == n.z) for t, s, _ in wins],
            zbool(len(wins) == 1)))
      sig = []
      for b, z, z0 in calls:
        s = b["x"]
        sig.append(0 if s is x else 1 if s is y else None)
        win = b["window"]
        p.prove("analysis window", zbool(win is kw["w"] if _given else
                                         isinstance(win, N.SArr)))
        p.prove("segments of the size of the window",
                lift(b["nperseg"]).z == W.z)
        p.prove("transform size", lift(b["nfft"]).z == n.z)
        p.prove("overlap: that fraction of the window",
                lift(b["noverlap"]).z == z3.ToInt(olap.z * z3.ToReal(W.z)))
        p.prove("options of the transform", zbool(
            (b["detrend"], b["scaling"]) == (("linear", "psd") if _given else
                                             (False, "spectrum"))))
      if sorted(sig, key=str) != [0, 1]:
        return p.fail("the two signals are transformed", sig)
      X, Y = [_mag(calls[sig.index(i)][2]) for i in (0, 1)]
      want = zreal(lp_spec(X, Y, q)) + alpha.z * zreal(lp_spec(
          _db(X, floor), _db(Y, floor), q))
      p.prove("distance of magnitudes plus weighted distance of floored "
              "decibel values", zreal(r) == want)
      prove_same(p, "first signal unmodified", x, old[0])
      prove_same(p, "second signal unmodified", y, old[1])


@vc("C26", "spectral loss, window type and size; default weight",
    [f"{M}:lin_log_spectral_loss"], replay="spectral")
def window(p, w):
  wins, calls = [], []

  def stft(*a, **k):
    b = _STFT.bind(*a, **k)
    b.apply_defaults()
    calls.append(b.arguments)
    z = array(p, f"S{len(calls)}", (2, 2), "c")
    return None, None, z

  def get_window(window, Nx, fftbins=True):
    wins.append((window, Nx))
    return array(p, "win", (Nx,))

  lib(w, "scipy.signal.stft", stft)
  lib(w, "scipy.signal.get_window", get_window)
  m = w.load(M)
  x, y = array(p, "x", (8,)), array(p, "y", (8,))
  W, n = length(p, "W", 1), length(p, "n", 1)
  floor = real(p, "floor")
  r = m.lin_log_spectral_loss(x, y, n=n, wtype="hann", wsize=W,
                              floor_db=floor)
  r1 = m.lin_log_spectral_loss(x, y, n=n, wtype="hann", wsize=W,
                               floor_db=floor, alpha=0.)
  del r1
  p.prove("window of that type and size", And(*[
      And(zbool(t == "hann"), N.zi(s) == W.z) for t, s in wins],
      zbool(len(wins) == 2)))
  p.prove("segments of that size", And(*[lift(b["nperseg"]).z == W.z
                                         for b in calls]))


@vc("C26", "spectral loss, default weight of the logarithmic part",
    [f"{M}:lin_log_spectral_loss"], replay="spectral")
def weight(p, w):
  zs = []

  def stft(*a, **k):
    zs.append(array(p, f"S{len(zs)}", (1, 1), "c"))
    return None, None, zs[-1]

  lib(w, "scipy.signal.stft", stft)
  m = w.load(M)
  x, y = array(p, "x", (8,)), array(p, "y", (8,))
  win = array(p, "w", (4,))
  floor = real(p, "floor")
  r = m.lin_log_spectral_loss(x, y, n=4, w=win, floor_db=floor)
  a = If(-floor.z > 1, 1 / -floor.z, z3.RealVal(1))
  X, Y = [_mag(z) for z in zs]
  want = zreal(lp_spec(X, Y, 1)) + a * zreal(lp_spec(
      _db(X, floor), _db(Y, floor), 1))
  p.prove("inverse of the depth of the floor, at most one", zreal(r) == want)


# -- sum over scales --------------------------------------------------------
LOSS = z3.Function("LOSS", z3.IntSort(), z3.RealSort(), z3.RealSort(),
                   z3.RealSort(), z3.RealSort(), z3.RealSort())
MS = [f"{M}:MultiScaleSpectralLoss", f"{M}:multiscale_spectral_loss"]


class Pool:
  """Contract of multiprocessing.Pool: func(*args, **kwds) in some process"""

  def __init__(self, lazy=False):
    self.open, self.lazy = True, lazy

  def _check(self):
    # (lists of unknown length are evaluated when used)
    if not self.open and not self.lazy:
      raise_(ValueError, "Pool not running")

  def apply(self, func, args=(), kwds={}):
    self._check()
    return func(*args, **kwds)

  def apply_async(self, func, args=(), kwds={}, *_, **__):
    self._check()
    return Result(lambda: func(*args, **kwds))

  def map(self, func, it, chunksize=None):
    self._check()
    return [func(x) for x in it]

  imap = imap_unordered = map

  def starmap(self, func, it, chunksize=None):
    self._check()
    return [func(*x) for x in it]

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.open = False

  def close(self):
    pass

  join = terminate = close


class Result:

  def __init__(self, f):
    self.f, self.v = f, None

  def get(self, timeout=None):
    if self.v is None:
      self.v = (self.f(),)
    return self.v[0]

  def wait(self, timeout=None):
    self.get()


def base(x, y, extra=0., *, n=7, alpha=.5, olap=.25):
  return SReal(LOSS(lift(n).z, zreal(x), zreal(y), zreal(extra), zreal(alpha)))


for _how in ("sequential", "pool", "njobs"):
  for _api in ("class", "function"):

    @vc("C26", f"sum over any number of scales, {_how}, {_api}", MS,
        replay="multi")
    def multi(p, w, _how=_how, _api=_api):
      pools = []

      def mk(*a, **k):
        pools.append((a, k))
        return Pool(True)

      lib(w, "multiprocessing.Pool", mk)
      m = w.load(M)
      K = length(p, "K", 0)
      ns, al = array(p, "ns", (K,), "i"), array(p, "al", (K,))
      stfts = seq.SSeq(K, lambda i: {"n": ns.at(i), "alpha": al.at(i)})
      x, y, e = real(p, "x"), real(p, "y"), real(p, "e")
      p.input("how", lambda mo: _how)
      kw = {"pool": {"pool": Pool()}, "njobs": {"njobs": 3}}.get(_how, {})
      for over in (False, True):
        kw2 = dict(kw)
        if over:
          # options given to the call are given to every scale
          kw2["alpha"] = SReal(z3.Q(1, 8))
        if _api == "class":
          r = m.MultiScaleSpectralLoss(base, stfts)(x, y, e, **kw2)
        else:
          r = m.multiscale_spectral_loss(x, y, e, spectral_loss=base,
                                         stfts=stfts, **kw2)
        s = N.sum_term(K, lambda o, k: LOSS(
            lift(ns.at(k)).z, x.z, y.z, e.z,
            z3.Q(1, 8) if over else zreal(al.at(k))))
        p.prove("sum of the losses of the scales", zreal(r) == s())


for _how in ("sequential", "pool", "njobs"):

  @vc("C26", f"each scale once, {_how}", MS, replay="multi")
  def once(p, w, _how=_how):
    pools = []

    def mk(*a, **k):
      pools.append((a, k))
      return Pool()

    lib(w, "multiprocessing.Pool", mk)
    m = w.load(M)
    p.input("how", lambda mo: _how)
    kw = {"pool": {"pool": Pool()}, "njobs": {"njobs": 3}}.get(_how, {})
    for k in range(4):
      vals = [real(p, f"l{k}{j}") for j in range(k)]
      rec = Rec(lambda *a, **kk: vals[kk["j"]])
      loss = m.MultiScaleSpectralLoss(rec, iter([{"j": j, "o": j * j}
                                                 for j in range(k)]))
      for again in (1, 2):
        r = loss("x", "y", z=5, **kw)
        p.prove("sum", zreal(r) == sum((v.z for v in vals), z3.RealVal(0)))
        got = sorted((c[1]["j"], c[1]["o"], c[1]["z"], c[0], len(c[1]))
                     for c in rec.calls)
        p.prove("every scale computed once, with its own options", zbool(
            got == sorted([(j, j * j, 5, ("x", "y"), 3)
                           for j in range(k)] * again)))


@vc("C26", "default scales", MS, replay="defaults")
def defaults(p, w):
  m = w.load(M)
  x, y = real(p, "x"), real(p, "y")
  r = m.multiscale_spectral_loss(x, y, spectral_loss=base)
  want = sum((LOSS(z3.IntVal(1 << i), x.z, y.z, z3.RealVal(0), z3.Q(1, 2))
              for i in range(6, 12)), z3.RealVal(0))
  p.prove("sizes 64 to 2048", zreal(r) == want)
