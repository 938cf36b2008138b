"""C12: additive synthesis"""
from contracts.common import *  # noqa: F403

M = "sample.sample"
FN = [f"{M}:additive_synth", "sample.utils.dsp:expi"]


def inputs(p, nt=None):
  T = length(p, "T", 1) if nt is None else nt
  n = length(p, "n", 0)
  x = array(p, "x", (T,))
  f, d, a = (array(p, k, (n,)) for k in ("f", "d", "a"))
  p.fact(lambda j: zreal(d.at(j)) != 0, 1, "decays are not zero")
  return T, n, x, f, d, a


def partial_sums(p, T, n, x, f, d, a, ph):
  """(real part, imaginary part) of the documented sum at time index i"""

  def ang(i, k):
    t = zreal(x.at(i))
    return 2 * V.PI * zreal(f.at(k)) * t + (zreal(ph.at(k)) if ph is not None else 0)

  def env(i, k):
    return zreal(a.at(k)) * ax.EXP(V._norm(-2 * zreal(x.at(i)) /
                                           zreal(d.at(k))))

  c = N.sum_term(n, lambda o, k: env(o[0], k) * ax.COS(V._norm(ang(o[0], k))),
                 1)
  s = N.sum_term(n, lambda o, k: env(o[0], k) * ax.SIN(V._norm(ang(o[0], k))),
                 1)
  return c, s


class Const:
  """The same number for every mode"""

  def __init__(self, v):
    self.v = v

  def at(self, k):
    return self.v


def check(p, r, T, c, s, analytic):
  r = N.reshape(N.asarray(r), -1)
  prove_array(p, "sum of decaying partials", r, (T,), (
      lambda i: SCplx(c(i), s(i))) if analytic else (lambda i: SReal(c(i))))


for _an in (None, False, True):
  for _ph in (False, True):

    @vc("C12", f"analytic={_an}, {'given' if _ph else 'no'} phases", FN,
        replay="synth")
    def synth(p, w, _an=_an, _ph=_ph):
      m = w.load(M)
      T, n, x, f, d, a = inputs(p)
      ph = array(p, "ph", (n,)) if _ph else None
      p.input("analytic", lambda mo: _an)
      kw = {} if _an is None else {"analytic": _an}
      if _ph:
        kw["phases"] = ph
      olds = [(v, frozen_copy(v)) for v in (x, f, d, a) + (
          (ph,) if _ph else ())]
      r = m.additive_synth(x, f, d, a, **kw)
      c, s = partial_sums(p, T, n, *[o for _, o in olds[:4]],
                          olds[4][1] if _ph else None)
      check(p, r, T, c, s, bool(_an))
      for v, o in olds:
        prove_same(p, "inputs unmodified", v, o)


for _ph in ("no phase", "one phase", "one phase of several modes"):

  @vc("C12", f"numbers in place of arrays, {_ph}", FN, replay="numbers")
  def numbers(p, w, _ph=_ph):
    m = w.load(M)
    several = "several" in _ph
    T, n, x, f, d, a = inputs(p)
    if not several:
      n = 1
      f, d, a = (real(p, k) for k in ("f0", "d0", "a0"))
      p.assume(d.z != 0)
    ph = None if _ph == "no phase" else real(p, "ph")
    kw = {} if ph is None else {"phases": ph}
    r = m.additive_synth(x, f, d, a, **kw)
    const = lambda v: None if v is None else Const(v)
    c, s = partial_sums(p, T, n, x, *(
        (f, d, a) if several else map(const, (f, d, a))), const(ph))
    check(p, r, T, c, s, False)


@vc("C12", "unsupported phase options", FN, replay="bad")
def bad(p, w):
  m = w.load(M)
  T, n, x, f, d, a = inputs(p)
  for s in ("unknown", "", "Random"):
    e = raises(lambda: m.additive_synth(x, f, d, a, phases=s), ValueError)
    p.prove(f"phases={s!r} raises ValueError", zbool(e is not None))


for _mode in ("seed", "no seed", "rng"):

  @vc("C12", f"random phases from a {_mode}", FN + [f"{M}:_random_phases"],
      replay="random")
  def rand(p, w, _mode=_mode):
    ph = [None]

    class Rng:

      def __init__(self, *a, **k):
        self.seed = a[0] if a else k.get("seed")

      def uniform(self, low=0, high=1, size=None):
        calls.append((self, low, high, size))
        return ph[0]

    calls = []
    gens = lib(w, "numpy.random.default_rng", Rec(Rng))
    m = w.load(M)
    T, n, x, f, d, a = inputs(p)
    p.input("mode", lambda mo: _mode)
    ph[0] = array(p, "ph", (n,))
    own = Rng("own")
    seed = integer(p, "seed", 0) if _mode == "seed" else None
    kw = {"seed": {"seed": seed}, "no seed": {}, "rng": {"rng": own}}[_mode]
    if _mode == "rng" and p.choose("seed as well"):
      kw["seed"] = 1
    r = m.additive_synth(x, f, d, a, phases="random", **kw)
    p.prove("one draw", zbool(len(calls) == 1))
    g, lo, hi, size = calls[0]
    p.prove("from the caller's generator or one made from the seed", zbool(
        g is own if _mode == "rng" else g is not own and
        len(gens.calls) == 1))
    if _mode == "seed":
      p.prove("the seed given", zbool(g.seed is not None) if g.seed is None
              else eq(g.seed, seed))
    elif _mode == "no seed":
      p.prove("no seed", zbool(g.seed is None))
    p.prove("one phase per mode", eq(N.asarray(size), n))
    p.prove("uniform in [0, 2 pi)", And(zreal(lo) == 0,
                                        zreal(hi) == 2 * V.PI))
    c, s = partial_sums(p, T, n, x, f, d, a, ph[0])
    check(p, r, T, c, s, False)
