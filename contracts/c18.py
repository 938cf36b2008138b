"""C18: gammatone impulse responses and cochleagrams"""
from contracts.c07 import count
from contracts.common import *  # noqa: F403

M = "sample.psycho"
GF = [f"{M}:GammatoneFilter.ir", f"{M}:GammatoneFilter.wavefun",
      f"{M}:GammatoneFilter.envelope", f"{M}:GammatoneFilter._envelope",
      f"{M}:GammatoneFilter.bandwidth", f"{M}:GammatoneFilter.t_c",
      f"{M}:GammatoneFilter.phi", f"{M}:GammatoneFilter.a"]


def parameter(p, name, how, lo=None):
  """(argument, value) of a filter parameter given as number or function of
  the filter; None for the default"""
  if how == "none":
    return None, None
  v = real(p, name, lo)
  seen = []
  if how == "call":

    def f(*a, **k):
      seen.append((a, k))
      return v

    return f, v
  return v, v


def filt(p, w, n, how, normalize=False):
  m = w.load(M)
  f = real(p, "f", 0)
  p.assume(f.z > 0)
  p.input("n", lambda mo: n)
  p.input("how", lambda mo: how)
  b, bv = parameter(p, "b", how[0])
  tc, tv = parameter(p, "t_c", how[1])
  phi, pv = parameter(p, "phi", how[2])
  a, av = parameter(p, "a", how[3])
  if bv is None:
    bv = real(p, "erb")

    def erb(x, *a, **k):
      if a or k or not p.valid(zreal(x) == f.z):
        raise Unsupported("erb of something else than the centre frequency")
      return bv

    w.patch(m, "erb", erb)
  p.assume(zreal(bv) > 0)
  if tv is None:
    tv = (n - 1) / (2 * V.PI * zreal(bv))
  if pv is None:
    pv = -2 * V.PI * f.z * zreal(tv)
  g = m.GammatoneFilter(f=f, n=n, bandwidth=b, t_c=tc, phi=phi,
                        normalize=normalize, a=a)
  return m, g, f, bv, tv, pv, av


for n in (1, 4):
  for how in (("none",) * 4, ("num",) * 4, ("call",) * 4):
    for kind in "fi":

      @vc("C18", f"envelope of order {n}, {how[0]} parameters, {kind} times",
          GF, replay="filter")
      def envelope(p, w, n=n, how=how, kind=kind):
        m, g, f, b, tc, phi, a = filt(p, w, n, how)
        nt = length(p, "nt", 0)
        t = array(p, "t", (nt,), kind)
        r = g.envelope(t)
        tz = lambda k: zreal(t.at(k)) + zreal(tc)
        np_ = w.fakes["numpy"]
        p.prove("one value per time", zbool(r.ndim == 1))
        p.prove("one value per time", eq(r.shape[0], nt))
        k = fresh("k")
        p.assume(0 <= k, k < N.zi(nt))
        e = zreal(r.at(k))
        p.prove("zero before the leading time", Implies(tz(k) < 0, e == 0))
        p.assume(tz(k) >= 0)
        p.prove("decay after the leading time", e == (
            1 if n == 1 else tz(k) ** 3) * zreal(np_.exp(SReal(
                -2 * V.PI * zreal(b) * tz(k)))))

def product(x, y):
  """Product of two numbers, real or complex"""
  return V.lift(x) * V.lift(y)


def oscillator(f, t, phi, analytic):
  """cos or complex exponential of the phase at time t"""
  ang = V._norm(2 * V.PI * zreal(f) * zreal(t) + zreal(phi))
  return SCplx(ax.COS(ang), ax.SIN(ang)) if analytic else SReal(ax.COS(ang))


OUTS = ("none", "given")

for how in (("num",) * 4, ("call",) * 4, ("num", "none", "none", "none")):
  for analytic in (False, True):
    for kind in "fi":
      for o in OUTS if kind == "f" else OUTS[:1]:

        @vc("C18", f"wave function, {'-'.join(how)} parameters, analytic="
            f"{analytic}, {kind} times, out={o}", GF, replay="filter")
        def wavefun(p, w, how=how, analytic=analytic, kind=kind, o=o):
          m, g, f, b, tc, phi, a = filt(p, w, 4, how)
          p.input("analytic", lambda mo: analytic)
          p.input("out", lambda mo: o)
          nt = length(p, "nt", 0)
          t = array(p, "t", (nt,), kind)
          old = frozen_copy(t)
          env = g.envelope(t)
          kw = {}
          if o == "given":
            kw["out"] = array(p, "o", (nt,), "c" if analytic else "f")
          r = g.wavefun(t, analytic=analytic, **kw)
          sp = lambda k: product(SReal(zreal(env.at(k))), oscillator(
              f, old.at(k), phi, analytic))
          prove_array(p, "envelope times oscillator", r, (nt,), sp)
          if kw:
            prove_array(p, "the output array holds the result", kw["out"],
                        (nt,), sp)
          prove_same(p, "times unmodified", t, old)

for how in (("num",) * 4, ("call",) * 4, ("num", "num", "num", "none")):
  for analytic in (False, True):
    for norm in (False, True):

      @vc("C18", f"impulse response, {'-'.join(how)} parameters, analytic="
          f"{analytic}, normalize={norm}", GF, replay="filter")
      def ir(p, w, how=how, analytic=analytic, norm=norm):
        m, g, f, b, tc, phi, a = filt(p, w, 4, how, norm)
        p.input("analytic", lambda mo: analytic)
        p.input("normalize", lambda mo: norm)
        nt = length(p, "nt", 1)
        t = array(p, "t", (nt,))
        old = frozen_copy(t)
        wave = g.wavefun(t, analytic=analytic)
        one = SReal(z3.RealVal(1)) if a is None else a
        if norm:
          if analytic:
            sq = N.sum_term(nt, lambda o, k: zreal(wave.at(k).re) ** 2 +
                            zreal(wave.at(k).im) ** 2, 0)()
          else:
            sq = N.sum_term(nt, lambda o, k: zreal(wave.at(k)) ** 2, 0)()
          p.assume(sq > 0)
          scale = one / w.fakes["numpy"].sqrt(SReal(sq))
        else:
          scale = one
        r = g.ir(t, analytic=analytic)
        prove_array(p, "scale times wave function", r, (nt,),
                    lambda k: product(scale, wave.at(k)))
        prove_same(p, "times unmodified", t, old)


@vc("C18", "impulse response at a sampling rate", GF, replay="filter_fs")
def ir_fs(p, w):
  m, g, f, b, tc, phi, a = filt(p, w, 4, ("num",) * 4)
  fs = real(p, "fs", 0)
  p.assume(fs.z > 0)
  n = length(p, "size", 1)
  seen = []

  def ir_size(*a, **k):
    seen.append((a, k))
    return n

  g.ir_size = ir_size
  r = g.ir(fs=fs)
  prove_array(p, "times are samples counted from minus the leading time", r,
              (n,), lambda k: g.ir(t=N.asarray([SReal(ToReal(k) / fs.z - tc.z)]
                                               )).at(0))
  p.prove("size asked at the sampling rate", zbool(len(seen) == 1))
  v = (seen[0][0] + tuple(seen[0][1].values()))
  p.prove("size asked at the sampling rate", eq(v[0], fs))


@vc("C18", "neither times nor sampling rate", GF, replay="filter")
def ir_none(p, w):
  m, g, f, b, tc, phi, a = filt(p, w, 4, ("num",) * 4)
  p.prove("ValueError", zbool(raises(lambda: g.ir(), ValueError) is not None))


for how in ("none", "num", "call"):
  for late in (False, True):

    @vc("C18", f"{how} filter parameters, {'set later' if late else 'given'}",
        GF, replay="params")
    def params(p, w, how=how, late=late):
      m = w.load(M)
      f = real(p, "f", 0)
      p.assume(f.z > 0)
      n = integer(p, "n", 1)
      p.input("how", lambda mo: how)
      p.input("late", lambda mo: late)
      erb = fresh_fn("ERB", z3.RealSort(), z3.RealSort())
      w.patch(m, "erb", lambda x: SReal(erb(V._norm(zreal(x)))))
      given = {k: parameter(p, k, how) for k in ("bandwidth", "t_c", "phi", "a")}
      arg = {k: v[0] for k, v in given.items()}
      val = {k: v[1] for k, v in given.items()}
      g = m.GammatoneFilter(f=f, n=n, **({} if late else arg))
      if late:
        for k, v in arg.items():
          setattr(g, k, v)
      if how == "none":
        b = erb(f.z)
        p.assume(b > 0)
        tc = ToReal(n.z - 1) / (2 * V.PI * b)
        p.prove("ERB by default", zreal(g.bandwidth) == b)
        p.prove("raw group delay", zreal(g.raw_group_delay) == tc)
        p.prove("group delay by default", zreal(g.t_c) == tc)
        p.prove("coherent phase by default", zreal(g.phi) ==
                -2 * V.PI * f.z * tc)
        p.prove("no scale by default", zbool(g.a is None))
      else:
        for k, v in val.items():
          p.prove(f"{k} as given", eq(getattr(g, k), v))


# ---------------------------------------------------------------------------
# Bank of precomputed impulse responses
# ---------------------------------------------------------------------------
BANK = "GammatoneFilterbank.PrecomputedIRBank"
BK = [f"{M}:{BANK}.__init__", f"{M}:{BANK}.convolve", f"{M}:{BANK}.__len__"]


class StubFilter:
  """Any filter: a size and an impulse response, functions of the times"""

  def __init__(self, bank, k):
    self.bank, self.k = bank, k

  def ir_size(self, fs=None, *a, **k):
    self.bank.fs_ok(fs, a, k)
    return SInt(self.bank.L(self.k))

  def ir(self, *a, **k):
    return self.bank.ir(self.k, *a, **k)


class StubBank:
  """Any filterbank"""

  def __init__(self, p, w, analytic, fs=None):
    self.p = p
    I, R = z3.IntSort(), z3.RealSort()
    self.n = length(p, "filters", 1)
    self.fs = real(p, "fs", 0)
    p.assume(self.fs.z > 0 if fs is None else self.fs.z == fs)
    if fs is not None:
      self.fs = SReal(z3.RealVal(fs))
    self.analytic = analytic
    self.f = Token("centre frequencies")
    # With fs = 1: any leading times in samples
    self._t = array(p, "t_c", (self.n,), "f" if fs is None else "i")
    self.t_c = S.SSeq(self.n, lambda k: self._t.at(k))
    self.L = fresh_fn("SIZE", I, I)
    self.H = [fresh_fn("IR", I, R, R) for _ in range(2 if analytic else 1)]
    p.fact(lambda k: Implies(And(0 <= k, k < N.zi(self.n)), self.L(k) >= 1), 1,
           "impulse responses are not empty")
    self.kw = {}

  def fs_ok(self, fs, a, k):
    if fs is None or a or k or not self.p.valid(zreal(fs) == self.fs.z):
      raise Unsupported("size asked for something else than the sample rate")

  def ir(self, k, t=None, analytic=False, **kw):
    if kw or bool(analytic) != self.analytic:
      raise Unsupported("impulse response asked otherwise")
    if not isinstance(t, N.SArr) or t.ndim != 1:
      raise Unsupported("time axis")
    g = t.elem()
    r = N.SArr(t.shape, lambda j: self.h(k, zreal(g(j))),
               "c" if self.analytic else "f")
    r.tag = (k, r.store.fn)
    return r

  def h(self, k, t):
    v = [H(k, V._norm(t)) for H in self.H]
    return SCplx(*v) if self.analytic else SReal(v[0])

  def _vc_symiter(self):
    return S.SSeq(self.n, lambda k: StubFilter(self, N.zi(k)))

  def _vc_len(self):
    return self.n

  def __getitem__(self, k):
    return StubFilter(self, N.zi(k))

  def lead(self, k):
    """Leading time in samples"""
    if self._t.kind == "i":
      return zint(self._t.at(k))
    return zint(w_ceil(SReal(zreal(self._t.at(k)) * self.fs.z)))


  def origin(self, w):
    return zint(w.fakes["numpy"].max(N.SArr((self.n,), lambda k: SInt(
        self.lead(k)), "i")))

  def sizes(self, w):
    """Size of the bank"""
    o = self.origin(w)
    return w.fakes["numpy"].max(N.SArr((self.n,), lambda k: SInt(
        self.L(k) + o - self.lead(k)), "i"))

  def which(self, h):
    """The filter of which the impulse response is h"""
    k, fn = getattr(h, "tag", (None, None))
    if k is None or h.store.fn is not fn:
      raise Unsupported("convolution with something else than an impulse "
                        "response of the bank")
    return k

  def full(self, C, k, nx):
    """Contract of full convolution with the k-th impulse response: lag ->
    value. C are functions of filter and lag for real and imaginary parts"""
    n = SInt(nx + self.L(k) - 1)
    if self.analytic:
      return N.SArr((n,), lambda m: SCplx(C[0](k, m), C[1](k, m)), "c")
    return N.SArr((n,), lambda m: SReal(C[0](k, m)), "f")


def same_input(p, a, b):
  if not isinstance(a, N.SArr) or a.ndim != 1:
    raise Unsupported("input of the convolution")
  i = fresh("i")
  if not p.valid(And(N.zi(a.shape[0]) == N.zi(b.shape[0]), Implies(
      And(0 <= i, i < N.zi(b.shape[0])), eq(a.at(i), b.at(i))))):
    raise Unsupported("convolution of something else than the input")


def w_ceil(x):
  return SInt(-z3.ToInt(-x.z))


for analytic in (False, True):

  @vc("C18", f"precomputed bank, analytic={analytic}", BK, replay="bank")
  def bank(p, w, analytic=analytic):
    m = w.load(M)
    sb = StubBank(p, w, analytic)
    b = m.GammatoneFilterbank.PrecomputedIRBank(sb, sb.fs, analytic=analytic)
    p.prove("centre frequencies", zbool(b.freqs is sb.f))
    p.prove("analytic", zbool(b.analytic is analytic))
    p.prove("one response per filter", eq(S.vlen(b), sb.n))
    k = fresh("k")
    p.assume(0 <= k, k < N.zi(sb.n))
    ir = S._seq(b.irs).get(k)
    off = b.offsets
    p.prove("one delay per filter", eq(off.shape[0], sb.n))
    p.prove("delays are not negative", off.at(k).z >= 0)
    p.prove("time origins coincide, at the longest leading time",
            off.at(k).z + sb.lead(k) == sb.origin(w))
    prove_array(p, "samples of the impulse response around the origin", ir,
                (SInt(sb.L(k)),), lambda j: sb.h(
                    k, ToReal(j - sb.lead(k)) / sb.fs.z))


for analytic in (False, True):
  for method in (None, "overlap-add", "fft"):

    @vc("C18", f"cochleagram, analytic={analytic}, method={method}", BK,
        replay="coch")
    def coch(p, w, analytic=analytic, method=method):
      calls = []

      def conv(meth):

        def f(a, b, mode="full", method=meth, **kw):
          if kw or mode != "full":
            raise Unsupported("convolution is not full")
          calls.append(method)
          same_input(p, a, old)
          return sb.full(C, sb.which(b), nx.z)

        return f

      lib(w, "scipy.signal.oaconvolve", conv("overlap-add"))
      lib(w, "scipy.signal.convolve", conv("auto"))
      m = w.load(M)
      p.sum_signs = True
      # The bank depends on the sample rate by the leading times in samples
      sb = StubBank(p, w, analytic, 1)
      nx = length(p, "nx", 1)
      x = array(p, "x", (nx,))
      old = frozen_copy(x)
      C = [fresh_fn("CONV", z3.IntSort(), z3.IntSort(), z3.RealSort())
           for _ in sb.H]
      o = sb.origin(w)

      def spec(k, j):
        lag = j - (o - sb.lead(k))
        return V.ite(And(0 <= lag, lag < nx.z + sb.L(k) - 1),
                     sb.full(C, k, nx.z).at(lag), 0)

      p.loop_specs = [ForRoles(arrays=lambda i, n: [lambda v, r, k: eq(
          v, V.ite(r < i, spec(r, k), 0))])]
      b = m.GammatoneFilterbank.PrecomputedIRBank(sb, sb.fs, analytic=analytic)
      r = b.convolve(x, **({} if method is None else {"method": method}))
      prove_array(p, "delayed full convolutions", r, (
          sb.n, nx + sb.sizes(w) - 1), spec)
      prove_same(p, "input unmodified", x, old)
      p.prove("method", zbool(set(calls) <= {method or "overlap-add"}))


# ---------------------------------------------------------------------------
# Strided
# ---------------------------------------------------------------------------
def strided_contract(p, sb, C, x0, s, shift):
  """Contract of strided convolution of a part of the zero-padded input with
  an impulse response of the bank (C17): value at every s-th lag from the first
  fully overlapping one. shift(k): candidates for where the part starts"""
  nx = N.zi(x0.shape[0])

  def f(x, kernel, stride=1, out=None, **kw):
    k = sb.which(kernel)
    L = sb.L(k)
    if kw or not isinstance(x, N.SArr) or x.ndim != 1 or \
        not p.valid(zint(V.lift(stride)) == s.z):
      raise Unsupported("strided convolution asked otherwise")
    j = fresh("j")
    m = N.zi(x.shape[0])
    for d in shift(k):
      i = j + d
      if p.provable(Implies(And(0 <= j, j < m), zreal(x.at(j)) == z3.If(
          And(0 <= i, i < nx), zreal(x0.at(i)), z3.RealVal(0)))):
        break
    else:
      raise Unsupported("strided convolution of something else than a part of "
                        "the padded input")
    n = SInt(count(m, L, s.z))

    def y(t):
      lag = t * s.z + L - 1 + d
      return V.ite(And(0 <= lag, lag <= nx + L - 2),
                   sb.full(C, k, nx).at(lag), 0)

    kind = "c" if sb.analytic else "f"
    if out is None:
      return N.SArr((n, 1), lambda t, u: y(t), kind)
    cut(p, "room for every window", N.zi(out.shape[0]) == n.z)
    if out.ndim == 2:
      cut(p, "room for every window", N.zi(out.shape[1]) == 1)
      out[:, :] = N.SArr((out.shape[0], 1), lambda t, u: y(t), kind)
    else:
      out[:] = N.SArr((out.shape[0],), y, kind)
    return out

  return f


# Bounded: these strides. All else is unbounded
STRIDES = (2, 3, 5)
BOUNDED = ["time steps of the cochleagram: proved for steps 2, 3 and 5 and "
           "without step; others by concrete executions only"]

for analytic in (False, True):
  for stride in STRIDES:

    @vc("C18", f"cochleagram at stride {stride}, analytic={analytic}", BK, replay="strided",
        timeout=600)
    def strided(p, w, analytic=analytic, stride=stride):
      m = w.load(M)
      d = w.load("sample.utils.dsp")
      sb = StubBank(p, w, analytic, 1)
      nx = length(p, "nx", 1)
      s = SInt(z3.IntVal(stride))
      p.input("s", lambda mo: stride)
      x = array(p, "x", (nx,))
      old = frozen_copy(x)
      o = sb.origin(w)
      C = [fresh_fn("CONV", z3.IntSort(), z3.IntSort(), z3.RealSort())
           for _ in sb.H]
      off = lambda k: o - sb.lead(k)
      f = strided_contract(p, sb, C, old, s, lambda k: (
          1 - sb.L(k) - off(k) % s.z, 1 - sb.L(k)))
      w.patch(d, "strided_convolution", f)
      w.patch(d, "strided_convolution_complex_kernel", f)

      def spec(k, t):
        lag = t * s.z - off(k)
        return V.ite(And(0 <= lag, lag < nx.z + sb.L(k) - 1),
                     sb.full(C, k, nx.z).at(lag), 0)

      p.loop_specs = [ForRoles(arrays=lambda i, n: [lambda v, r, k: eq(
          v, V.ite(r < i, spec(r, k), 0))])]
      b = m.GammatoneFilterbank.PrecomputedIRBank(sb, sb.fs, analytic=analytic)
      r = b.convolve(x, stride=s)
      cols = (nx.z + zint(sb.sizes(w)) - 2) / s.z + 1
      prove_array(p, "every s-th value of the delayed full convolutions", r,
                  (sb.n, SInt(cols)), spec)
      prove_same(p, "input unmodified", x, old)


# ---------------------------------------------------------------------------
# Interface
# ---------------------------------------------------------------------------
WR = [f"{M}:cochleagram", f"{M}:GammatoneFilterbank.__init__",
      f"{M}:GammatoneFilterbank.__getattr__", f"{M}:GammatoneFilterbank.convolve",
      f"{M}:GammatoneFilterbank.precompute"]

for analytic in (None, "input", "ir", "output"):
  for post in ("default", "none", "given"):
    for pre in (False, True, "method"):

      @vc("C18", f"cochleagram wrapper, analytic={analytic}, postprocessing="
          f"{post}, {'filterbank method' if pre == 'method' else 'precomputed' if pre else 'filterbank'}",
          WR, replay="wrapper")
      def wrapper(p, w, analytic=analytic, post=post, pre=pre):
        for k, v in (("analytic", analytic), ("post", post), ("pre", pre)):
          p.input(k, lambda mo, v=v: v)
        steps = []
        hil = {}

        def hilbert(a, *r, **k):
          if r or k:
            raise Unsupported("options of the analytic signal")
          t = Token("analytic signal")
          hil[t] = a
          return t

        lib(w, "scipy.signal.hilbert", hilbert)
        m = w.load(M)
        fs = real(p, "fs", 0)
        p.assume(fs.z > 0)
        nf = 2
        freqs = [real(p, f"f{k}", 0) for k in range(nf)]
        fb = m.GammatoneFilterbank(freqs=freqs)
        p.prove("a filter per frequency", zbool(len(fb) == nf))
        for k, g in enumerate(fb):
          p.prove("filters at the frequencies", eq(g.f, freqs[k]))
          p.prove("indexing", zbool(fb[k] is g))
        x, y = Token("input"), Token("cochleagram")
        rec = Rec(lambda *a, **k: y)
        made = []
        bank = m.GammatoneFilterbank.PrecomputedIRBank

        def init(self, parent, fs, analytic=False, **kw):
          made.append((parent, fs, analytic, kw))
          self.freqs, self.analytic = parent.f, analytic

        w.patch(bank, "__init__", init)
        w.patch(bank, "convolve", lambda self, *a, **k: rec(self, *a, **k))
        w.patch(m, "hwr", lambda a: ("rectified", a))
        kw = {}
        if post != "default":
          kw["postprocessing"] = None if post == "none" else (
              lambda a: ("processed", a))
        method, stride = Token("method"), Token("stride")
        src = fb.precompute(fs, analytic=analytic == "ir") if pre is True \
            else fb
        if pre == "method":
          r = fb.convolve(x, fs, analytic=analytic, method=method,
                          stride=stride, **kw)
          cf = None
        else:
          r, cf = m.cochleagram(
              x, filterbank=src, analytic=analytic, method=method,
              stride=stride, **({} if pre else {"fs": fs}), **kw)
        p.prove("bank made once from the filterbank", zbool(
            len(made) == 1 and made[0][0] is fb and not made[0][3]))
        p.prove("at the sample rate", eq(made[0][1], fs))
        p.prove("analytic responses when asked", zbool(
            bool(made[0][2]) == (analytic == "ir")))
        p.prove("one convolution", zbool(len(rec.calls) == 1))
        (a, k), = rec.calls
        a = dict(zip(("self", "x", "method", "stride"), a), **k)
        p.prove("method and stride delivered", zbool(
            a["method"] is method and a["stride"] is stride))
        if analytic == "input":
          p.prove("analytic signal of the input", zbool(
              hil.get(a["x"]) is x))
        else:
          p.prove("the input is convolved", zbool(a["x"] is x))
        out = r
        exp = {"default": "rectified" if analytic is None else None,
               "none": None, "given": "processed"}[post]
        if exp is not None:
          p.prove("postprocessing", zbool(
              isinstance(out, tuple) and out[0] == exp))
          out = out[1]
        if analytic == "output":
          p.prove("analytic signal of the output", zbool(
              not isinstance(out, tuple) and hil.get(out) is y))
        else:
          p.prove("nothing else is done to the cochleagram", zbool(out is y))
        if cf is not None:
          prove_array(p, "centre frequencies", N.asarray(cf), (nf,),
                      lambda k: SReal(z3.If(k == 0, freqs[0].z, freqs[1].z)))


@vc("C18", "analytic bank with another analytic option", WR, replay="wrapper")
def mismatch(p, w):
  m = w.load(M)
  fb = m.GammatoneFilterbank(freqs=[1])
  bank = m.GammatoneFilterbank.PrecomputedIRBank

  def init(self, parent, fs, analytic=False, **kw):
    self.freqs, self.analytic = parent.f, analytic

  w.patch(bank, "__init__", init)
  b = fb.precompute(1, analytic=True)
  for o in ("input", "output"):
    p.prove("ValueError", zbool(raises(lambda: m.cochleagram(
        Token("x"), filterbank=b, analytic=o), ValueError) is not None))
  p.prove("TypeError without sample rate", zbool(raises(
      lambda: m.cochleagram(Token("x"), filterbank=fb), TypeError) is not None))
