"""C19: mel filterbanks and mel spectra"""
from contracts.common import *  # noqa: F403

M = "sample.psycho"
FB = [f"{M}:mel_triangular_filterbank"]
NOTE = ("Corner frequencies are strictly increasing, bandwidths positive; the "
        "given frequency transformations are arbitrary with the inverse "
        "strictly increasing on the points it is given.")


def triangle(v, l, c, r):
  return z3.If(Or(v <= l, v >= r), z3.RealVal(0),
               z3.If(v <= c, (v - l) / (c - l), (r - v) / (r - c)))


def freq_axis(p):
  n = length(p, "n", 1)
  return n, array(p, "freqs", (n,))


def loops(p, f, tri):
  """Rows before i are filled"""
  p.loop_specs = [
      ForRoles(arrays=lambda i, n: [lambda v, r, k: Implies(
          r < i, zreal(v) == tri(zreal(f.at(k)), r))])]


def check(p, res, nf, n, f, tri, centre):
  if not isinstance(res, tuple) or len(res) != 2:
    return p.fail("matrix and centre frequencies", repr(res))
  filts, c = res
  prove_array(p, "triangular filters", filts, (nf, n), lambda r, k: SReal(
      tri(zreal(f.at(k)), r)))
  prove_array(p, "centre frequencies", N.asarray(c), (nf,),
              lambda r: SReal(centre(r)))
  r, k = fresh("r"), fresh("k")
  for v, m in ((r, nf), (k, n)):
    p.assume(0 <= v, v < N.zi(m))
  t = zreal(filts.at(r, k))
  p.prove("weights in [0, 1]", And(0 <= t, t <= 1))


def by_corners(p, C, f, shift=0):
  return lambda v, r: triangle(v, C(r), C(r + 1), C(r + 2)), lambda r: C(r + 1)


def by_bandwidth(p, C, B):
  return lambda v, r: triangle(v, C(r) - B(C(r)), C(r), C(r) + B(C(r))), C


def bandwidth(p):
  B = fresh_fn("B", z3.RealSort(), z3.RealSort())

  def bw(x):
    return SReal(B(zreal(x)), None, True)

  return B, bw


def points(p, name, m):
  a = array(p, name, (m,))
  C = lambda k: zreal(a.at(k))
  p.fact(lambda k: Implies(And(0 <= k, k + 1 < m.z), C(k) < C(k + 1)), 1,
         "increasing")
  return a, C


@vc("C19", "filters between given corners", FB, replay="corners")
def corners(p, w):
  m = w.load(M)
  n, f = freq_axis(p)
  nl = length(p, "nl", 3)
  fl, C = points(p, "flim", nl)
  tri, centre = by_corners(p, C, f)
  loops(p, f, tri)
  old, oldf = frozen_copy(fl), frozen_copy(f)
  r = m.mel_triangular_filterbank(f, flim=fl)
  check(p, r, nl - 2, n, f, tri, centre)
  prove_same(p, "limits unmodified", fl, old)
  prove_same(p, "frequency axis unmodified", f, oldf)


@vc("C19", "filters around given centres", FB, replay="centres")
def centres(p, w):
  m = w.load(M)
  n, f = freq_axis(p)
  nl = length(p, "nl", 1)
  fl, C = points(p, "flim", nl)
  B, bw = bandwidth(p)
  p.fact(lambda k: Implies(And(0 <= k, k < nl.z), B(C(k)) > 0), 1, "bandwidth")
  tri, centre = by_bandwidth(p, C, B)
  loops(p, f, tri)
  old = frozen_copy(fl)
  r = m.mel_triangular_filterbank(f, flim=fl, bandwidth=bw)
  check(p, r, nl, n, f, tri, centre)
  prove_same(p, "limits unmodified", fl, old)


def spaced(p, N_, lo, hi):
  """Equally spaced points on a transformed scale: (transformations, point k
  of N_ + 2). The transformation back is described on the equally spaced
  points, which is where it has to be evaluated"""
  T = fresh_fn("T", z3.RealSort(), z3.RealSort())
  C = fresh_fn("CORNER", z3.IntSort(), z3.RealSort())
  a, b = T(lo), T(hi)
  G = lambda k: a + (b - a) * ToReal(k) / ToReal(N_.z + 1)

  def fwd(x):
    return SReal(T(zreal(x)), None, True)

  def inv(x):
    x = N.asarray(x)
    if x.ndim != 1:
      raise Unsupported("points are not transformed together")
    n = N.zi(x.shape[0])
    k = integer(p, "point").z
    p.assume(0 <= k, k < n)
    s = 1 if p.valid(zreal(x.at(k)) == G(k + 1)) else 0
    p.prove("equally spaced on the transformed scale",
            And(zreal(x.at(k)) == G(k + s), n + s <= N_.z + 2))
    return N.SArr(x.shape, lambda i: SReal(C(i + s), None, True), "f")

  p.assume(a < b)
  p.fact(lambda k: Implies(And(0 <= k, k <= N_.z), C(k) < C(k + 1)), 1,
         "increasing")
  return {"freq_transform": (fwd, inv)}, C


def limits(p, f, n):
  """(keyword, lowest, highest)"""
  if p.choose("limits given"):
    lo, hi = real(p, "lo"), real(p, "hi")
    p.assume(lo.z >= 0, lo.z < hi.z)
    if p.choose("more than two"):
      return {"flim": (lo, real(p, "mid"), hi)}, lo.z, hi.z
    return {"flim": [lo, hi]}, lo.z, hi.z
  lo, hi = zreal(f.at(IntVal(0))), zreal(f.at(n.z - 1))
  p.assume(lo >= 0, lo < hi)
  return {}, lo, hi


@vc("C19", "requested number of filters", FB, replay="number")
def number(p, w):
  m = w.load(M)
  n, f = freq_axis(p)
  nf = length(p, "nf", 1)
  kw, lo, hi = limits(p, f, n)
  tr, C = spaced(p, nf, lo, hi)
  p.input("fn", lambda mo: True)
  tri, centre = by_corners(p, C, f)
  loops(p, f, tri)
  check(p, m.mel_triangular_filterbank(f, nf, **kw, **tr), nf, n, f, tri,
        centre)


@vc("C19", "requested number of filters on the mel scale", FB, replay="number")
def number_mel(p, w):
  m = w.load(M)
  n, f = freq_axis(p)
  nf = length(p, "nf", 1)
  kw, lo, hi = limits(p, f, n)
  T = lambda x: zreal(m.hz2mel(SReal(x)))
  a, b = T(lo), T(hi)
  mel = lambda k: SReal(a + (b - a) * ToReal(k) / ToReal(nf.z + 1))
  C = lambda k: zreal(m.mel2hz(mel(k)))
  p.fact(lambda k: Implies(And(0 <= k, k <= nf.z), C(k) < C(k + 1)), 1,
         "increasing (monotonicity of mel2hz: C15)")
  p.loop_specs = [ForRoles()]
  _, c = m.mel_triangular_filterbank(f, n_filters=nf, **kw)
  prove_array(p, "centre frequencies", N.asarray(c), (nf,),
              lambda r: SReal(C(r + 1)))


@vc("C19", "requested number of filters with a bandwidth", FB,
    replay="number")
def number_bw(p, w):
  m = w.load(M)
  n, f = freq_axis(p)
  nf = length(p, "nf", 1)
  kw, lo, hi = limits(p, f, n)
  tr, C = spaced(p, nf, lo, hi)
  p.input("fn", lambda mo: True)
  B, bw = bandwidth(p)
  p.input("bw", lambda mo: True)
  D = lambda k: C(k + 1)
  p.fact(lambda k: Implies(And(0 <= k, k < nf.z), B(D(k)) > 0), 1,
         "bandwidth")
  tri, centre = by_bandwidth(p, D, B)
  loops(p, f, tri)
  check(p, m.mel_triangular_filterbank(f, nf, bw, **kw, **tr), nf, n, f, tri,
        centre)


@vc("C19", "no filter", FB, replay="none")
def none(p, w):
  m = w.load(M)
  n, f = freq_axis(p)
  kw = {}
  if p.choose("number"):
    kw["n_filters"] = integer(p, "nf", hi=0)
    p.input("number", lambda mo: True)
    if p.choose("bandwidth"):
      kw["bandwidth"] = lambda x: 1
    if p.choose("limits"):
      kw["flim"] = (real(p, "lo"), real(p, "hi"))
  elif p.choose("limits"):
    nl = length(p, "nl", 0)
    p.assume(nl.z <= 2)
    kw["flim"] = array(p, "flim", (nl,))
  elif p.choose("bandwidth"):
    kw["flim"], kw["bandwidth"] = (), lambda x: 1
    p.input("empty", lambda mo: True)
  p.prove("an error is raised", zbool(bool(raises(
      lambda: m.mel_triangular_filterbank(f, **kw), ValueError))))


@vc("C19", "mel spectrum", [f"{M}:stft2mel"], replay="spectrum")
def spectrum(p, w):
  m = w.load(M)
  np = w.fakes["numpy"]
  nf, n, t = length(p, "nf", 1), length(p, "n", 1), length(p, "t", 1)
  x = array(p, "stft", (n, t), "c")
  fb = array(p, "fb", (nf, n))
  freqs = array(p, "freqs", (n,))
  kw = {}
  pw = 2
  if p.choose("power"):
    pw = None if p.choose("no power") else 1 if p.choose("magnitude") else \
        2 if p.choose("two") else real(p, "power")
    kw["power"] = pw
    if isinstance(pw, SReal):
      p.assume(pw.z != 0)
    else:
      p.input("power", lambda mo: pw)
  old, oldfb = frozen_copy(x), frozen_copy(fb)
  opts, made = {}, []
  if p.choose("filterbank given"):
    kw["filterbank"] = fb
    ec = None
  else:
    opts = {"n_filters": Token("n"), "flim": Token("limits")}
    ec = Token("centres")

    def bank(*a, **k):
      made.append((a, k))
      return fb, ec

    w.patch(m, "mel_triangular_filterbank", bank)
  r = m.stft2mel(x, freqs, **kw, **opts)
  if not isinstance(r, tuple) or len(r) != 2:
    return p.fail("matrix and centre frequencies", repr(r))
  mel, c = r
  p.prove("centre frequencies", zbool(c is ec))
  if ec is not None:
    p.prove("filterbank arguments", zbool(len(made) == 1 and same_args(
        made[0], [freqs], opts) or len(made) == 1 and same_args(
            made[0], [], dict(opts, freqs=freqs))))
  prove_same(p, "STFT unmodified", x, old)
  prove_same(p, "filterbank unmodified", fb, oldfb)
  if pw is None:
    e = oldfb @ old
  elif isinstance(pw, int) and pw == 1:
    e = oldfb @ np.abs(old)
  else:
    e = np.power(oldfb @ np.power(np.abs(old), pw), 1 / pw if isinstance(
        pw, SReal) else SReal(z3.RealVal("1/2")))
  if e.kind != mel.kind:
    return p.fail("complex if and only if no power", mel.kind)
  prove_array(p, "filtered spectrum", mel, (nf, t), lambda i, j: e.at(i, j))


@vc("C19", "mel spectrogram", [f"{M}:mel_spectrogram"], replay="spectrogram")
def spectrogram(p, w):
  calls = []
  f, t, st = Token("freqs"), Token("times"), Token("stft")

  def stft(*a, **k):
    calls.append((a, k))
    return f, t, st

  lib(w, "scipy.signal.stft", stft)
  m = w.load(M)
  mel, c = Token("mel"), Token("centres")
  made = []

  def s2m(*a, **k):
    made.append((a, k))
    return mel, c

  w.patch(m, "stft2mel", s2m)
  x = Token("x")
  kws = {"nperseg": Token("nperseg")} if p.choose("options") else None
  opts = {"power": Token("power")} if p.choose("power") else {}
  r = m.mel_spectrogram(x, kws, **opts)
  p.prove("centres, times, mel spectrum", zbool(
      isinstance(r, tuple) and len(r) == 3 and r[0] is c and r[1] is t and
      r[2] is mel))
  p.prove("spectrum of the signal", zbool(len(calls) == 1 and same_args(
      calls[0], [x], kws or {})))
  p.prove("mel spectrum of that", zbool(
      len(made) == 1 and any(same_args(made[0], a, dict(k, **opts))
                             for a, k in (([], {"stft": st, "freqs": f}),
                                          ([st, f], {}),
                                          ([st], {"freqs": f})))))
