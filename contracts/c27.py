"""C27: random beats"""
from contracts.common import *  # noqa: F403
from pyvc import seq as S

M = "sample.evaluation.random"
G = f"{M}:BeatsGenerator"
NOTE = ("The random generator by contract: the k-th draw from a stream is a "
        "function of its seed, of k and of the distribution, anywhere in the "
        "support of the distribution. The Bark maps by contract: increasing "
        "and inverse to each other (C15).")


class Rng:
  """Stream of draws"""

  def __init__(self, p, world, key):
    self.p, self.world, self.key, self.n = p, world, key, 0

  def _draw(self, kind, pars, size, low, high):
    p = self.p
    self.n += 1
    pars = tuple(z3.simplify(zreal(v)).sexpr() for v in pars)
    shape = None if size is None else tuple(size) if isinstance(
        size, (tuple, list)) else (size,)
    key = (self.key, self.n, kind, pars, None if shape is None else tuple(
        str(z3.simplify(N.zi(s))) for s in shape))
    memo = self.world.memo
    ok = lambda v: And(True if low is None else v >= low,
                       True if high is None else v <= high)
    if shape is None:
      if key not in memo:
        memo[key] = fresh(kind, "Real")
      v = memo[key]
      p.assume(ok(v))
      return SReal(v, np=True)
    if key not in memo:
      memo[key] = fresh_fn(kind, *[z3.IntSort()] * len(shape), z3.RealSort())
    f = memo[key]
    if all(isinstance(s, int) for s in shape):
      import itertools
      for k in itertools.product(*map(range, shape)):
        p.assume(ok(f(*map(z3.IntVal, k))))
    else:
      p.fact(lambda *k: ok(f(*k)), len(shape), kind)
    return N.SArr(shape, lambda *k: SReal(f(*k), np=True), "f")

  def beta(self, a, b, size=None):
    return self._draw("beta", (a, b), size, 0, 1)

  def uniform(self, low=0.0, high=1.0, size=None):
    lo, hi = zreal(low), zreal(high)
    return self._draw("uniform", (low, high), size, z3.If(lo <= hi, lo, hi),
                      z3.If(lo <= hi, hi, lo))

  def random(self, size=None):
    return self.uniform(0.0, 1.0, size)

  def exponential(self, scale=1.0, size=None):
    s = zreal(scale)
    if self.p.branch(s < 0):
      V.raise_(ValueError, "scale < 0")
    return self._draw("exponential", (scale,), size, 0, None)

  def normal(self, loc=0.0, scale=1.0, size=None):
    if self.p.branch(zreal(scale) < 0):
      V.raise_(ValueError, "scale < 0")
    return self._draw("normal", (loc, scale), size, None, None)

  def standard_normal(self, size=None):
    return self.normal(0.0, 1.0, size)


CUR = []


class Random:
  """numpy.random: streams made from seeds; everything else is beyond control
  of a seed"""
  Generator = Rng

  @staticmethod
  def default_rng(seed=None):
    w = CUR[-1]
    if isinstance(seed, Rng):
      return seed
    if seed is None:
      w.unseeded += 1
      return Rng(w.p, w, ("unseeded", w.unseeded))
    return Rng(w.p, w, ("seed", str(z3.simplify(zint(seed)))))

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)

    def f(*a, **k):
      w = CUR[-1]
      w.unseeded += 1
      r = Rng(w.p, w, ("global", w.unseeded))
      return getattr(r, name)(*a, **k)

    return f


class Bark:
  """The Bark maps: increasing, inverse to each other"""

  def __init__(self, p):
    self.p, self.pairs = p, []

  def _pair(self, f, z, cond=True):
    p = self.p
    for f2, z2 in self.pairs:
      p.assume(z3.Implies(cond, And((f < f2) == (z < z2),
                                    (f == f2) == (z == z2))))
    self.pairs.append((f, z))

  def hz2bark(self, f, *a, **k):
    if a or k:
      raise Unsupported("another Bark scale")
    f = zreal(f)
    self.p.prove("frequencies converted to Bark are positive", f > 0)
    z = fresh("bark", "Real")
    self._pair(f, z)
    return SReal(z, np=True)

  def _inv(self, z):
    z = zreal(z)
    f = fresh("hertz", "Real")
    # between known values
    known = list(self.pairs)
    self._pair(f, z, And(Or(*[z <= q for _, q in known]),
                         Or(*[z >= q for _, q in known])))
    return f

  def bark2hz(self, z, *a, **k):
    if a or k:
      raise Unsupported("another Bark scale")
    if isinstance(z, (tuple, list)) or isinstance(z, N.SArr):
      if isinstance(z, N.SArr):
        z = [z.at(i) for i in range(z.shape[0])]
      memo = {}
      out = []
      for v in z:
        key = z3.simplify(zreal(v)).sexpr()
        if key not in memo:
          memo[key] = self._inv(v)
        out.append(SReal(memo[key], np=True))
      return N.array(out)
    return SReal(self._inv(z), np=True)


NAMES = ("f_min", "f_max", "f_a", "f_b", "amp_min", "decay_min", "decay",
         "beat_min", "beat_max", "beat_a", "beat_b", "delta_min", "delta_max",
         "delta_a", "delta_b", "snr")


def world(p, w):
  wd = Obj(p=p, memo={}, unseeded=0)
  CUR[:] = [wd]
  np_ = w.fakes["numpy"]
  if type(np_.random) is not Random:
    np_.random = Random()
  m = w.load(M)
  bark = Bark(p)
  w.patch(m.psycho, "hz2bark", bark.hz2bark)
  w.patch(m.psycho, "bark2hz", bark.bark2hz)
  c = {k: real(p, k) for k in NAMES}
  p.assume(c["f_min"].z > 0, c["beat_min"].z > 0,
           c["beat_min"].z <= c["beat_max"].z,
           c["f_min"].z + 2 * c["beat_max"].z <= c["f_max"].z,
           0 <= c["delta_min"].z, c["delta_min"].z <= c["delta_max"].z,
           c["decay_min"].z <= c["decay"].z,
           *[c[k].z > 0 for k in ("f_a", "f_b", "beat_a", "beat_b", "delta_a",
                                  "delta_b")])
  # room for the other partial
  B = lambda v: bark.hz2bark(SReal(v)).z
  p.assume(B(c["f_min"].z + c["beat_max"].z) + c["delta_max"].z <=
           B(c["f_max"].z),
           B(c["f_min"].z) + c["delta_max"].z <=
           B(c["f_max"].z - c["beat_max"].z))
  return wd, m, c, bark


def make(p, m, c, seed=None, **kw):
  s = integer(p, "seed", lo=0) if seed is None else seed
  return m.BeatsGenerator(**c, seed=s, **kw), s


@vc("C27", "two-sided beta distribution", [f"{G}.beta_twosides"],
    replay="twosides")
def twosides(p, w):
  wd, m, c, _ = world(p, w)
  g, _ = make(p, m, c)
  a, b = real(p, "a"), real(p, "b")
  p.assume(a.z > 0, b.z > 0)
  if p.choose("defaults"):
    x = zreal(g.beta_twosides(a, b))
    return p.prove("values in [-1, 1]", And(x >= -1, x <= 1))
  l, r = real(p, "left"), real(p, "right")
  p.assume(l.z <= r.z)
  if p.choose("positive only"):
    x = zreal(g.beta_twosides(a=a, b=b, left=l, right=r, positive=1))
    return p.prove("values in the range", And(l.z <= x, x <= r.z))
  p.assume(l.z >= 0)
  q = real(p, "positive", lo=0, hi=1)
  x = zreal(g.beta_twosides(a=a, b=b, left=l, right=r, positive=q))
  ab = z3.If(x < 0, -x, x)
  p.prove("values or their opposites in the range", And(l.z <= ab, ab <= r.z))


@vc("C27", "frequencies", [f"{G}.freqs", f"{G}.beta_twosides"],
    replay="freqs")
def freqs(p, w):
  wd, m, c, bark = world(p, w)
  g, _ = make(p, m, c)
  real_bt = g.beta_twosides
  out = []

  def twosides(a, b, left=0, right=1, positive=.5, **k):
    """Contract proved above"""
    l, r = zreal(left), zreal(right)
    p.prove("limits in order", l <= r)
    x = fresh("x", "Real")
    if z3.is_true(z3.simplify(zreal(positive) >= 1)):
      p.assume(l <= x, x <= r)
    else:
      p.prove("limits not negative", l >= 0)
      p.assume(z3.If(x < 0, -x, x) >= l, z3.If(x < 0, -x, x) <= r)
    out.append(x)
    return SReal(x, np=True)

  m_cls = type(g)
  w.patch(m_cls, "beta_twosides", lambda self, *a, **k: twosides(*a, **k))
  p.lemma = None
  bm, bM = c["beat_min"].z, c["beat_max"].z
  r = attempt(p, "no failure", g.freqs)
  if r is None:
    return
  r, = r
  f = [zreal(r.at(i)) if isinstance(r, N.SArr) else zreal(r[i])
       for i in range(3)]
  p.prove("three partials", zbool(
      (tuple(r.shape) == (3,)) if isinstance(r, N.SArr) else len(r) == 3))
  for i in range(3):
    p.prove(f"partial {i} above the minimum", f[i] >= c["f_min"].z)
    p.prove(f"partial {i} below the maximum", f[i] <= c["f_max"].z)
  near = lambda i, j: And(z3.If(f[i] < f[j], f[j] - f[i], f[i] - f[j]) >= bm,
                          z3.If(f[i] < f[j], f[j] - f[i], f[i] - f[j]) <= bM)
  p.prove("two of them beat within the limits",
          Or(near(0, 1), near(0, 2), near(1, 2)))


@vc("C27", "decays", [f"{G}.decays"], replay="decays")
def decays(p, w):
  wd, m, c, _ = world(p, w)
  g, _ = make(p, m, c)
  r = attempt(p, "no failure", g.decays)
  if r is None:
    return
  r, = r
  p.prove("three", zbool(tuple(r.shape) == (3,)))
  for i in range(3):
    p.prove(f"decay {i} is at least the minimum",
            zreal(r.at(i)) >= c["decay_min"].z)


@vc("C27", "amplitudes", [f"{G}.amps", f"{G}.sine_amp", f"{G}.noise_amp",
                          f"{G}.snr_amp"], replay="amps")
def amps(p, w):
  wd, m, c, _ = world(p, w)
  only = p.choose("only the beat")
  g, _ = make(p, m, c, onlybeat=only)
  s, n = zreal(g.sine_amp), zreal(g.noise_amp)
  p.prove("sine and noise amplitudes sum to one", s + n == 1)
  p.prove("sine amplitude", s > 0)
  p.prove("noise amplitude", n > 0)
  r = attempt(p, "no failure", g.amps)
  if r is None:
    return
  r, = r
  p.prove("three", zbool(tuple(r.shape) == (3,)))
  a = [zreal(r.at(i)) for i in range(3)]
  for i in range(3):
    p.prove(f"amplitude {i} is not negative", a[i] >= 0)
  p.prove("they sum to the sine amplitude", a[0] + a[1] + a[2] == s)
  if only:
    p.prove("no third partial", a[2] == 0)


@vc("C27", "repetition", [f"{M}:_repeated_samples"], replay="repeated")
def repeated(p, w):
  wd, m, c, _ = world(p, w)
  p.effects = []
  A, K, R = Token("a"), Token("k"), Token("result")

  def one(*a, **k):
    p.effects.append((a, k))
    return R

  f = m._repeated_samples(one)
  if p.choose("one"):
    r = f(A, x=K, size=None) if p.choose("explicit") else f(A, x=K)
    p.prove("the sample", zbool(r is R and len(p.effects) == 1))
    a, k = p.effects[0]
  else:
    n = length(p, "n", 0)
    r = attempt(p, "no failure", lambda: f(A, x=K, size=n))
    if r is None:
      return
    r, = r
    p.prove("as many samples", N.zi(S.vlen(r)) == n.z)
    k = integer(p, "i").z
    p.assume(0 <= k, k < n.z)
    p.prove("each is a sample", zbool(S.getter(r)(k) is R))
    ev = p.effects
    if p.branch(n.z == 0):
      return p.prove("no draws", zbool(not ev))
    if len(ev) != 1 or ev[0][0] != "each" or len(ev[0][3]) != 1:
      return p.fail("drawn once each", repr(ev))
    p.prove("drawn once each", N.zi(ev[0][1]) == n.z)
    a, k = ev[0][3][0]
  p.prove("arguments passed on", zbool(len(a) == 1 and a[0] is A and set(
      k) == {"x"} and k["x"] is K))


def same(p, name, x, y):
  if isinstance(x, N.SArr) and isinstance(y, N.SArr):
    prove_array(p, name, x, y.shape, lambda *k: y.at(*k))
  else:
    p.prove(name, zreal(x) == zreal(y))


@vc("C27", "the same seed gives the same sounds",
    [f"{G}.__init__", f"{G}.audio", f"{G}.noise", f"{G}.freqs", f"{G}.decays",
     f"{G}.amps"], replay="seed", timeout=300)
def seed(p, w):
  wd, m, c, bark = world(p, w)
  hz, inv = {}, {}

  def memo(d, f):

    def g(x, *a, **k):
      xs = x if isinstance(x, (tuple, list)) else (x,)
      key = tuple(z3.simplify(zreal(v)).sexpr() for v in xs)
      if key not in d:
        d[key] = f(x, *a, **k)
      r = d[key]
      return frozen_copy(r) if isinstance(r, N.SArr) else r

    return g

  # functions of their arguments; their values are not in question here
  w.patch(m.psycho, "hz2bark", memo(hz, lambda x: SReal(fresh("z", "Real"))))
  w.patch(m.psycho, "bark2hz", memo(inv, lambda x: N.array(
      [SReal(fresh("f", "Real")) for _ in x])))
  calls = []
  Y = fresh_fn("SYN", z3.IntSort(), z3.RealSort())

  def synth(x, freqs, decays, amps, phases=None, **k):
    calls.append((frozen_copy(x), freqs, decays, amps, phases, k))
    return N.SArr(x.shape, lambda k: SReal(Y(k)), "f")

  w.patch(m.sample.sample, "additive_synth", synth)
  own = p.choose("given stream")
  outs = []
  kw = {}
  if p.choose("duration"):
    kw["dur"] = real(p, "dur", lo=0)
  kw["fs"] = real(p, "fs")
  p.assume(kw["fs"].z > 0, c["decay"].z >= 0)
  s = integer(p, "seed", lo=0)
  only = p.choose("only the beat")
  warm = p.choose("after other draws")
  for _ in range(2):
    if own:
      g = m.BeatsGenerator(**c, rng=Rng(p, wd, ("given",)), onlybeat=only)
    else:
      g = m.BeatsGenerator(**c, seed=s, onlybeat=only)
    if warm:
      g.amps()
      g.decays(size=2)
    r = attempt(p, "no failure", lambda: g.audio(**kw))
    if r is None:
      return
    outs.append(r[0])
  (x, f, ps), (y, f2, qs) = outs
  p.prove("sampling frequency", And(zreal(f) == kw["fs"].z,
                                    zreal(f2) == kw["fs"].z))
  for nm, a, b in zip(("frequencies", "decays", "amplitudes", "phases"), ps,
                      qs):
    same(p, nm, a, b)
  if len(calls) == 2:
    same(p, "time axis", calls[0][0], calls[1][0])
    for i, nm in enumerate(("frequencies", "decays", "amplitudes", "phases")):
      a, b = calls[0][i + 1], calls[1][i + 1]
      if a is None or isinstance(a, str):
        return p.fail("phases drawn from the stream", repr(a))
      same(p, f"{nm} of the synthesis", a, b)
      same(p, f"{nm} are those reported", a, ps[i])
  else:
    p.fail("one synthesis each", len(calls))
  same(p, "audio", x, y)
