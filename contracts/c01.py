"""C01: association of peaks to tracks"""
from contracts.tracker import *  # noqa: F403

CALL = [f"{M}:SineTracker.__call__", f"{M}:SineTracker.df",
        f"{M}:SineTracker.n_active_tracks"]


def every(p, name, c):
  """Prove a universally quantified condition"""
  S.inv_prove(p, name, c)


@vc("C01", "greedy association of a frame of peaks", CALL, replay="frame",
    timeout=600)
def greedy(p, w):
  f = Frame(p, w, until=1)
  h = f.h
  f.call()
  a = f.assoc
  if f.phase < 1:
    raise Unsupported("no loop over the peaks")
  P, n0 = f.P.z, f.n0.z
  # Where all tracks received a peak the remaining steps give none
  k, A = a.last, a.A
  a.A = lambda s: z3.If(s < k, A(s), -1)
  every(p, "decreasing magnitude", S.All(2, lambda s, t: Implies(
      And(0 <= s, s <= t, t < P), f.peak("mag", f.order(s)) >= f.peak(
          "mag", f.order(t)))))
  every(p, "every peak is considered once", S.All(1, lambda q: Implies(
      rng(q, P), And(rng(f.step(q), P), f.order(f.step(q)) == q))))
  for nm, c in a.relation(P):
    every(p, nm, c)
  every(p, "one track per peak, one peak per track", S.All(
      2, lambda s, t: Implies(And(rng(s, P), rng(t, P), a.A(s) == a.A(t),
                                  a.A(s) >= 0), s == t)))
  ln, val = a.heap()
  for key in KEYS:
    every(p, f"{key}: extended by the peak received", S.All(
        1, lambda j: Implies(rng(j, n0), h.len[key](j) == ln(j))))
    every(p, f"{key}: what the peak gives; other values unaltered", S.All(
        2, lambda j, x: Implies(And(rng(j, n0), rng(x, ln(j))), h.val[key](
            j, x) == val[key](j, x))))
  for key, v in f.pk.items():
    prove_same(p, "peaks unmodified", v, f.old[key])


class Elem:
  """An arbitrary element of an iterable"""

  def __init__(self, j):
    self.j = j


class Least(ForRoles):
  """Loop of min_key. Ghost: q is the position of the least key until now.
  Locals that are None on entry and hold an element or a number after an
  iteration hold the element at q and its key"""

  def __init__(self, key_of):
    super().__init__()
    self.key_of = key_of
    self.q = z3.IntVal(0)

  def kinds(self):
    return dict(cur().ex.memory.get(("kind", self.key), ()))

  def havoc_heap(self, L, i):
    self.q = fresh("least")
    cur().reg(self.q)
    self.first = cur().branch(i == 0)

  def havoc(self, L, name, value, i):
    k = self.kinds().get(name)
    if value is None:
      if self.first or k is None:
        return None
      return Elem(self.q) if k == "element" else SReal(self.key_of(self.q))
    return super().havoc(L, name, value, i)

  def preserve(self, L, i, n):
    p = cur()
    new = {}
    for k in sorted(self.names):
      if k in self.entry and self.entry[k] is None and k in L:
        v = L[k]
        new[k] = "element" if isinstance(v, Elem) else "number" if isinstance(
            v, SReal) else None
    have = self.kinds()
    for k, t in sorted(new.items()):
      if t is not None and have.get(k) is None:
        p.ex.learn(("kind", self.key), (k, t))
    if any(have.get(k) not in (None, t) for k, t in new.items()):
      p.fail("the least element and its key are kept", str(new))
    es = [L[k].j for k, t in sorted(new.items()) if t == "element"]
    if len(es) == 1:
      self.q = es[0]
      for k, t in new.items():
        if t == "number":
          p.prove("key of the least element", L[k].z == self.key_of(self.q))
    super().preserve(L, i, n)

  def inv(self, L, i, n):
    q, K = self.q, self.key_of
    yield "one of the elements", Implies(i > 0, rng(q, i))
    yield "no lesser key", S.All(1, lambda j: Implies(rng(j, i),
                                                      K(q) <= K(j)))
    yield from super().inv(L, i, n)


@vc("C01", "min_key: an element with the least key, and that key",
    [f"{M}:min_key"], replay="min_key")
def min_key(p, w):
  m = w.load(M)
  n = length(p, "n", 0)
  K = fresh_fn("KEY", z3.IntSort(), z3.RealSort())
  sp = Least(K)
  p.loop_specs = [sp]
  p.input("keys", lambda mo: [num(mo, K(z3.IntVal(j))) for j in range(
      min(12, num(mo, n.z)))])

  def key(e):
    if not isinstance(e, Elem):
      raise Unsupported("key of what is not an element")
    return SReal(K(e.j))

  r = m.min_key(S.SSeq(n, lambda j: Elem(j)), key)
  if not isinstance(r, tuple) or len(r) != 2:
    p.fail("an element and its key", repr(r))
  e, x = r
  if e is None:
    p.prove("nothing only if there is nothing", n.z == 0)
    p.prove("no key of nothing", z3.BoolVal(x is None))
    return
  if not isinstance(e, Elem):
    p.fail("one of the elements", repr(e))
  p.prove("one of the elements", rng(e.j, n.z))
  p.prove("its key", zreal(x) == K(e.j))
  every(p, "no element has a lesser key", S.All(1, lambda j: Implies(
      rng(j, n.z), K(e.j) <= K(j))))


@vc("C01", "tolerance: offset + slope x frequency", [f"{M}:SineTracker.df"],
    replay="df")
def tolerance(p, w):
  m = w.load(M)
  a, b, f = (real(p, k) for k in ("freq_dev_offset", "freq_dev_slope", "f"))
  t = m.SineTracker(freq_dev_offset=a, freq_dev_slope=b)
  p.prove("offset + slope x frequency", zreal(t.df(f)) == a.z + b.z * f.z)
