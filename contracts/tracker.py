"""Heap of the sinusoidal tracker: a list of active tracks, each a dictionary
of a start frame and of three growing lists. Standard list and dictionary
operations are given their meaning on functions of track identity; tracks
active before the call have identities 0, 1, ..., new ones follow"""
from contracts.common import *  # noqa: F403

M = "sample.sms.sm"
KEYS = ("freq", "mag", "phase")


class Field:
  """A list of numbers of a track"""

  def __init__(self, heap, tid, key):
    self.heap, self.tid, self.key = heap, tid, key

  def _n(self):
    return self.heap.len[self.key](self.tid)

  def _vc_len(self):
    return SInt(self._n())

  def __getitem__(self, i):
    if isinstance(i, slice):
      raise Unsupported("slice of the values of a track")
    n = self._n()
    i = N.zi(i)
    c = V._conc(i)
    if c is not None and c < 0:
      i = n + i
    p = cur()
    if not p.in_template:
      cut(p, "index within the values of a track", And(0 <= i, i < n))
    return SReal(self.heap.val[self.key](self.tid, i))

  def append(self, v):
    self.heap.append_value(self.tid, self.key, v)

  def extend(self, vs):
    for v in vs:
      self.append(v)

  def __iadd__(self, vs):
    self.extend(vs)
    return self

  def _vc_asarray(self):
    f, t = self.heap.val[self.key], self.tid
    return N.SArr((SInt(self._n()),), lambda j: SReal(f(t, j)), "f")


class Track:

  def __init__(self, heap, tid):
    self.heap, self.tid = heap, tid

  def __getitem__(self, k):
    if k == "start_frame":
      return SInt(self.heap.start(self.tid))
    if k in KEYS:
      return Field(self.heap, self.tid, k)
    raise KeyError(k)

  def __setitem__(self, k, v):
    if not (isinstance(v, Field) and v.heap is self.heap and v.tid is self.tid
            and v.key == k):
      raise Unsupported("a value of an active track is replaced")

  def keys(self):
    return ("start_frame",) + KEYS

  def __iter__(self):
    return iter(self.keys())

  def items(self):
    return [(k, self[k]) for k in self.keys()]

  def values(self):
    return [self[k] for k in self.keys()]


class Heap:
  """List of active tracks"""

  def __init__(self, p, n0):
    self.p = p
    I, R = z3.IntSort(), z3.RealSort()
    self.n0 = self.n = n0.z
    self.elem = self.pos = lambda j: j
    self.nid = n0.z
    start = fresh_fn("START", I, I)
    self.start = start
    lens = fresh_fn("LEN", I, I)
    vals = {k: fresh_fn(k.upper(), I, I, R) for k in KEYS}
    self.len = {k: lens for k in KEYS}
    self.val = dict(vals)
    self.len0, self.val0, self.start0 = lens, vals, start
    p.fact(lambda k: Implies(And(0 <= k, k < n0.z), lens(k) >= 1), 1,
           "active tracks are not empty")
    self.events = []

  def _vc_len(self):
    return SInt(self.n)

  def __bool__(self):
    return self.p.branch(self.n > 0)

  def _index(self, i):
    i = N.zi(i)
    c = V._conc(i)
    if c is not None and c < 0:
      i = self.n + i
    self.p.reg(i)
    if not self.p.in_template:
      cut(self.p, "index within the active tracks", And(0 <= i, i < self.n))
    return i

  def __getitem__(self, i):
    if isinstance(i, slice):
      raise Unsupported("slice of the active tracks")
    return Track(self, z3.simplify(self.elem(self._index(i))))

  def _vc_symiter(self):
    e = self.elem
    return S.SSeq(SInt(self.n), lambda j: Track(self, z3.simplify(e(j))))

  def pop(self, i=-1):
    x = self._index(i)
    e, q = self.elem, self.pos
    t = z3.simplify(e(x))
    self.elem = lambda j: z3.If(j < x, e(j), e(j + 1))
    self.pos = lambda k: z3.If(q(k) > x, q(k) - 1, q(k))
    self.n = z3.simplify(self.n - 1)
    self.events.append(("pop", t))
    return Track(self, t)

  def __delitem__(self, i):
    self.pop(i)

  def append(self, d):
    if not isinstance(d, dict) or set(d) != {"start_frame", *KEYS}:
      raise Unsupported("what is appended to the active tracks is not a new "
                        "track")
    t, e, n = self.nid, self.elem, self.n
    vs = {}
    for k in KEYS:
      v = d[k]
      if not isinstance(v, list):
        raise Unsupported("values of a new track are not lists")
      vs[k] = [zreal(V.lift(x)) for x in v]
    st = zint(V.lift(d["start_frame"]))
    old = self.start
    self.start = lambda i: z3.If(i == t, st, old(i))
    for k in KEYS:

      def ln(i, f=self.len[k], m=len(vs[k])):
        return z3.If(i == t, z3.IntVal(m), f(i))

      def val(i, j, f=self.val[k], v=vs[k]):
        r = f(i, j)
        for q, x in enumerate(v):
          r = z3.If(And(i == t, j == q), x, r)
        return r

      self.len[k], self.val[k] = ln, val
    self.elem = lambda j: z3.If(j == n, t, e(j))
    self.n = z3.simplify(n + 1)
    self.nid = z3.simplify(t + 1)
    self.events.append(("new", t))

  def append_value(self, t, key, v):
    v = zreal(V.lift(v))
    f, g = self.len[key], self.val[key]
    m = f(t)
    self.len[key] = lambda i: z3.If(i == t, f(i) + 1, f(i))
    self.val[key] = lambda i, j: z3.If(And(i == t, j == m), v, g(i, j))
    self.events.append(("value", t))


def min_key_contract(p):
  """Contract of min_key: the first of the elements with the least key and
  its key; nothing of nothing"""

  def f(it, key):
    if isinstance(it, S.SFilter):
      src = S._seq(it.src)
      pred = it.pred
      s = it._vc_list()
    else:
      src = s = S._seq(it)
      if not isinstance(src, S.SSeq):
        raise Unsupported("elements of which the least is chosen")
      pred = lambda x: True
    g = src.snapshot()
    n = N.zi(src._vc_len())
    if not p.branch(N.zi(s._vc_len()) > 0):
      return None, None
    q = fresh("least")
    p.reg(q)
    p.assume(0 <= q, q < N.zi(s._vc_len()))
    k = s.E(q) if s is not src else q
    u = g(k)
    v = key(u)
    ok = p.describe(lambda j: And(0 <= j, j < n, zbool(pred(g(j)))), n)
    val = p.describe(lambda j: zreal(key(g(j))), n, under=[ok])
    vz = zreal(v)
    p.fact(lambda j: Implies(ok(j), vz <= val(j)), 1, "least key")
    return u, v

  return f


class Reached(BaseException):
  """The loop after the one under verification"""


class Frame:
  """One frame given to a tracker in any state"""

  def __init__(self, p, w, until=3,
               cls=("sample.sms.sm", "SineTracker")):
    self.p = p
    m = self.m = w.load(cls[0])
    sm = w.load(M)
    self.P = length(p, "peaks", 0)
    self.pk = {k: array(p, "p" + k, (self.P,)) for k in KEYS}
    self.old = {k: frozen_copy(a) for k, a in self.pk.items()}
    self.n0 = length(p, "active", 0)
    self.max = integer(p, "max_n_sines")
    self.off, self.slope = real(p, "freq_dev_offset"), real(p, "freq_dev_slope")
    t = self.t = getattr(m, cls[1])(max_n_sines=self.max,
                                    freq_dev_offset=self.off,
                                    freq_dev_slope=self.slope)
    t.reset()
    self.names(t)
    h = self.h = Heap(p, self.n0)
    self.frame = integer(p, "frame", 0)
    setattr(t, self.a_active, h)
    setattr(t, self.a_frame, self.frame)
    p.fact(lambda k: Implies(And(0 <= k, k < self.n0.z), And(
        h.start0(k) >= 0, h.start0(k) + h.len0(k) == self.frame.z)), 1,
           "tracks are contiguous up to the last frame")
    self.done = Token("finished tracks")
    t.tracks_ = self.done
    ended = self.ended0 = lambda k: z3.IntVal(0)
    self.ended = ended
    p.argsorts = []
    w.patch(sm, "min_key", min_key_contract(p))
    if getattr(m, "sm", None) is None and m is not sm:
      w.patch(m, "min_key", min_key_contract(p))
    p.input("lens", lambda mo: [num(mo, h.len0(z3.IntVal(j))) for j in range(
        min(6, num(mo, self.n0.z)))])
    p.input("last", lambda mo: [num(mo, h.val0["freq"](
        z3.IntVal(j), h.len0(z3.IntVal(j)) - 1)) for j in range(
            min(6, num(mo, self.n0.z)))])
    frame = self

    def deactivate(self, i):
      r = frame.h.pop(i)
      f = frame.ended
      frame.ended = lambda k: z3.If(k == r.tid, f(k) + 1, f(k))
      return r

    w.patch(getattr(m, cls[1]), "deactivate", deactivate)
    self.phase = 0
    self.until = until
    self.assoc, self.end, self.birth = Assoc(self), End(self), Birth(self)
    p.loop_specs = [self.assoc, self.end, self.birth]
    for k, l in enumerate(p.loop_specs):
      l.light = k + 1 < until

  def names(self, t):
    """Names of the list of active tracks and of the frame counter, found
    from a reset tracker"""
    ls = [k for k, v in vars(t).items()
          if isinstance(v, list) and not v and k != "tracks_"]
    fs = [k for k, v in vars(t).items() if k not in t.get_params() and
          isinstance(v, int) and not isinstance(v, bool) and v == 0]
    if len(ls) != 1 or len(fs) != 1:
      raise Unsupported("state of the tracker")
    self.a_active, self.a_frame = ls[0], fs[0]

  def call(self):
    try:
      return self.t(*[self.pk[k] for k in KEYS])
    except Reached:
      return None
    finally:
      self.p.loops.clear()

  def forget(self, upto, *labels):
    """Drop facts that what follows does not need (sound: fewer hypotheses)"""
    fs = self.p.facts
    fs[:upto] = [x for x in fs[:upto] if not x.name.startswith(labels)]
    if upto is not None:
      self.seen_facts = len(fs[:upto])

  # -- ghost ----------------------------------------------------------------
  def order(self, s):
    """The peak considered at step s"""
    P = self.perm[0]
    return P(self.P.z - 1 - s) if self.perm[2] else P(s)

  def step(self, q):
    Q = self.perm[1]
    return self.P.z - 1 - Q(q) if self.perm[2] else Q(q)

  def peak(self, k, q):
    return zreal(self.old[k].at(q))

  def dist(self, j, s):
    d = self.h.val0["freq"](j, self.h.len0(j) - 1) - self.peak(
        "freq", self.order(s))
    return z3.If(d < 0, -d, d)

  def tol(self, s):
    return self.off.z + self.slope.z * self.peak("freq", self.order(s))

  def matched(self, j):
    """Track j received a peak"""
    return self.assoc.T(j) < self.P.z

  def used(self, q):
    """Peak q was given to a track"""
    a = self.assoc
    return And(self.step(q) < a.last, a.A(self.step(q)) >= 0)


def rng(x, n):
  return And(0 <= x, x < n)


class Assoc(ForRoles):
  """Loop over the peaks. Ghost: T(j) is the step at which track j received a
  peak (the number of peaks: not yet); A(s) is the track that received the
  peak of step s, or -1"""

  def __init__(self, f):
    self.f = f
    super().__init__(arrays=self.flags)

  def match(self, L, seq):
    f = self.f
    if f.phase or not f.p.valid(N.zi(seq._vc_len()) == f.P.z):
      return False
    if len(f.p.argsorts) != 1:
      raise Unsupported("order of the peaks")
    P, Q = f.p.argsorts[0].perm
    g = seq.snapshot() if isinstance(seq, S.SSeq) else seq.elem()
    k = fresh("k")
    rev = False
    v = g(k)
    if isinstance(v, SInt) and f.p.valid(Implies(
        rng(k, f.P.z), v.z == P(f.P.z - 1 - k))):
      rev = True
    f.perm = (P, Q, rev)
    f.phase = 1
    n = f.P.z
    self.T = lambda j: n
    self.A = lambda s: z3.IntVal(-1)
    self.last = z3.IntVal(0)
    return True

  def flags(self, i, n):
    f = self.f

    def tracks(b):
      return lambda v, j: zbool(v) == (f.matched(j) if b else
                                       z3.Not(f.matched(j)))

    def peaks(b):
      return lambda v, q: zbool(v) == (f.used(q) if b else z3.Not(f.used(q)))

    def typed(c, m):
      return lambda v, k: And(rng(k, m), c(v, k)) if V.kind(v) == "b" \
          else z3.BoolVal(False)

    return [typed(tracks(0), f.n0.z), typed(tracks(1), f.n0.z),
            typed(peaks(0), f.P.z), typed(peaks(1), f.P.z)]

  def heap(self):
    """Heap that corresponds to the ghost state"""
    f, h = self.f, self.f.h
    T = self.T
    ln = lambda j: h.len0(j) + z3.If(T(j) < f.P.z, 1, 0)

    def val(k):
      return lambda j, x: z3.If(x < h.len0(j), h.val0[k](j, x), f.peak(
          k, f.order(T(j))))

    return ln, {k: val(k) for k in KEYS}

  def havoc_heap(self, L, i):
    f, h = self.f, self.f.h
    I = z3.IntSort()
    self.T, self.A = fresh_fn("STEP", I, I), fresh_fn("TRACK", I, I)
    self.last = i
    ln, val = self.heap()
    for k in KEYS:
      h.len[k], h.val[k] = ln, val[k]
    h.events = []

  def preserve(self, L, i, n):
    """Ghost update: what the body did"""
    f, h = self.f, self.f.h
    s = z3.simplify(i - 1)
    ev = {e[1].get_id(): e for e in h.events}
    if len(ev) > 1 or any(e[0] != "value" for e in ev.values()):
      f.p.fail("a peak extends at most one track", str(h.events))
    T, A = self.T, self.A
    if ev:
      (_, t), = ev.values()
      self.T = lambda j: z3.If(j == t, s, T(j))
      self.A = lambda r: z3.If(r == s, t, A(r))
    else:
      self.A = lambda r: z3.If(r == s, z3.IntVal(-1), A(r))
    self.last = i
    super().preserve(L, i, n)

  def broke(self, L, i, n):
    f = self.f
    yield "every track received a peak", S.All(1, lambda j: Implies(
        rng(j, f.n0.z), f.matched(j)))

  def relation(self, i):
    """Greedy association up to step i"""
    f, T, A = self.f, self.T, self.A
    n0, P = f.n0.z, f.P.z
    yield "steps of tracks", S.All(1, lambda j: Implies(rng(j, n0), Or(
        T(j) == P, And(rng(T(j), i), A(T(j)) == j))))
    yield "tracks of steps", S.All(1, lambda s: Implies(rng(s, i), Or(
        A(s) == -1, And(rng(A(s), n0), T(A(s)) == s))))
    yield "given to a track below the tolerance", S.All(1, lambda s: Implies(
        And(rng(s, i), A(s) >= 0), f.dist(A(s), s) < f.tol(s)))
    yield "given to the closest free track", S.All(2, lambda s, j: Implies(
        And(rng(s, i), A(s) >= 0, rng(j, n0), T(j) >= s),
        f.dist(A(s), s) <= f.dist(j, s)))
    yield "left only if no free track is within tolerance", S.All(
        2, lambda s, j: Implies(
            And(rng(s, i), A(s) == -1, rng(j, n0), T(j) >= s),
            f.dist(j, s) >= f.tol(s)))

  def inv(self, L, i, n):
    f, h = self.f, self.f.h
    if not self.light:
      yield from self.relation(i)
    ln, val = self.heap()
    yield "same tracks", And(h.n == f.n0.z, h.nid == f.n0.z)
    yield "same tracks", S.All(1, lambda j: Implies(rng(j, f.n0.z),
                                                    h.elem(j) == j))
    for k in KEYS:
      yield f"{k}: one value more if a peak was received", S.All(
          1, lambda j, k=k: Implies(rng(j, f.n0.z), h.len[k](j) == ln(j)))
      yield f"{k}: that of the peak, at the end", S.All(
          2, lambda j, x, k=k: Implies(And(rng(j, f.n0.z), rng(x, ln(j))),
                                       h.val[k](j, x) == val[k](j, x)))
    yield from super().inv(L, i, n)


class End(ForRoles):
  """Loop over the tracks that are ended, from the last"""

  def __init__(self, f):
    self.f = f
    super().__init__()

  def match(self, L, seq):
    if self.f.phase != 1:
      return False
    if self.f.until == 1:
      raise Reached
    f = self.f
    f.phase = 2
    f.seen_facts = len(f.p.facts)
    if f.until > 2:
      # What was established of the loop before is not needed any more
      f.forget(f.seen_facts, "perm", "sorted", "least key")
    s = S._seq(seq)
    self.g = s.snapshot()
    self.visits(s)
    return True

  def visits(self, s):
    """Visited from the last to the first, the free ones among them"""
    f, p, g = self.f, self.f.p, self.g
    n0, c = f.n0.z, N.zi(s._vc_len())
    free = lambda y: And(rng(y, n0), z3.Not(f.matched(y)))
    if not isinstance(s, S.SFiltered):
      return
    vis = lambda y: s.R(n0 - 1 - y)
    z = lambda k: zint(g(k))
    y, j, k = fresh("y"), fresh("j"), fresh("k")
    p.reg(y, n0 - 1 - y, j, k)
    if all(p.provable(x) for x in (
        Implies(free(y), And(rng(vis(y), c), z(vis(y)) == y)),
        Implies(And(0 <= j, j < k, k < c), z(j) > z(k)),
        Implies(rng(j, c), free(z(j))))):
      p.fact(lambda y: Implies(free(y), And(rng(vis(y), c), z(vis(y)) == y)),
             1, "free tracks are visited")
      p.fact(lambda j, k: Implies(And(0 <= j, j < k, k < c), z(j) > z(k)), 2,
             "last first")
      p.fact(lambda j: Implies(rng(j, c), free(z(j))), 1,
             "visited tracks are free")

  def havoc_heap(self, L, i):
    f, h, n0 = self.f, self.f.h, self.f.n0.z
    I = z3.IntSort()
    f.p.reg(i, i - 1, n0 - 1 - i)
    h.elem, h.pos = fresh_fn("ELEM", I, I), fresh_fn("POS", I, I)
    h.n = fresh("n")
    f.ended = fresh_fn("ENDED", I, I)

  def inv(self, L, i, n):
    f, h = self.f, self.f.h
    n0 = f.n0.z
    r = z3.If(i <= 0, n0, zint(self.g(i - 1)))
    e, q, m = h.elem, h.pos, h.n
    keep = f.matched
    yield "number of tracks", And(0 <= m, m <= n0, h.nid == n0)
    if self.light:
      yield "not yet visited", And(0 <= r, r <= n0)
      yield "tracks not yet visited are in place", S.All(1, lambda j: Implies(
          rng(j, r), And(j < m, e(j) == j)))
      yield "tracks", S.All(1, lambda j: Implies(rng(j, m), rng(e(j), n0)))
      return
    yield "not yet visited", And(0 <= r, r <= n0)
    yield "tracks not yet visited are in place", S.All(1, lambda j: Implies(
        rng(j, r), And(j < m, e(j) == j, q(j) == j)))
    yield "tracks are in the list once", S.All(1, lambda j: Implies(
        rng(j, m), And(rng(e(j), n0), q(e(j)) == j)))
    yield "visited tracks are in the list only if continued", S.All(
        1, lambda j: Implies(And(rng(j, m), e(j) >= r), keep(e(j))))
    yield "continued tracks are in the list", S.All(1, lambda k: Implies(
        And(rng(k, n0), keep(k)), And(rng(q(k), m), e(q(k)) == k)))
    yield "order is kept", S.All(2, lambda j, k: Implies(
        And(0 <= j, j < k, k < m), e(j) < e(k)))
    yield "ended once", S.All(1, lambda k: Implies(rng(k, n0), f.ended(k) ==
                              z3.If(And(k >= r, z3.Not(keep(k))), 1, 0)))
    yield from super().inv(L, i, n)


class Birth(ForRoles):
  """Loop over the peaks that start tracks"""

  def __init__(self, f):
    self.f = f
    super().__init__()

  def match(self, L, seq):
    f, h = self.f, self.f.h
    if f.phase != 2:
      return False
    if f.until == 2:
      raise Reached
    f.phase = 3
    f.forget(f.seen_facts, "nz", "rank")
    f.forget(None, "free tracks", "last first", "visited tracks")
    f.p.terms[:] = [h.n]
    self.g = S._seq(seq).snapshot()
    self.e1, self.n1 = h.elem, h.n
    self.born = lambda q: z3.IntVal(-1)
    self.of = lambda q: z3.IntVal(-1)
    self.seen = z3.IntVal(0)
    self.start0, self.len0, self.val0 = h.start, dict(h.len), dict(h.val)
    return True

  def broke(self, L, i, n):
    yield "maximum number of tracks", self.f.h.n >= self.f.max.z

  def count(self):
    return self.f.h.nid - self.f.n0.z

  def havoc_heap(self, L, i):
    f, h = self.f, self.f.h
    I = z3.IntSort()
    self.born, self.of = fresh_fn("BORN", I, I), fresh_fn("NEW", I, I)
    B = fresh("born")
    f.p.reg(i, i - 1)
    n0 = f.n0.z
    h.nid = n0 + B
    h.n = self.n1 + B
    e1, n1, b = self.e1, self.n1, self.born
    h.elem = lambda j: z3.If(j < n1, e1(j), n0 + (j - n1))
    s0, l0, v0 = self.start0, self.len0, self.val0
    h.start = lambda k: z3.If(k >= n0, f.frame.z, s0(k))
    for k in KEYS:
      h.len[k] = lambda t, k=k: z3.If(t >= n0, 1, l0[k](t))
      h.val[k] = lambda t, j, k=k: z3.If(t >= n0, f.peak(k, b(t - n0)),
                                         v0[k](t, j))
    h.events = []

  def preserve(self, L, i, n):
    f, h = self.f, self.f.h
    new = [e for e in h.events if e[0] == "new"]
    if len(new) != len(h.events) or len(new) > 1:
      f.p.fail("at most one track is started", str(h.events))
    if new:
      c = z3.simplify(self.count() - 1)
      x = zint(self.g(i - 1))
      b, of = self.born, self.of
      self.born = lambda q: z3.If(q == c, x, b(q))
      self.of = lambda q: z3.If(q == x, c, of(q))
    super().preserve(L, i, n)

  def inv(self, L, i, n):
    f, h = self.f, self.f.h
    n0, P, n1 = f.n0.z, f.P.z, self.n1
    B, b, of = self.count(), self.born, self.of
    v = self.seen = z3.If(i <= 0, 0, zint(self.g(i - 1)) + 1)
    e1 = self.e1
    yield "number of tracks", And(0 <= B, h.n == n1 + B)
    yield "maximum number of tracks", Or(B == 0, h.n <= f.max.z)
    yield "continued tracks stay", S.All(1, lambda j: Implies(
        rng(j, n1), h.elem(j) == e1(j)))
    yield "new tracks follow", S.All(1, lambda j: Implies(
        rng(j, B), h.elem(n1 + j) == n0 + j))
    yield "a new track starts at this frame", S.All(1, lambda j: Implies(
        rng(j, B), h.start(n0 + j) == f.frame.z))
    for k in KEYS:
      yield f"{k}: of the peak", S.All(1, lambda j, k=k: Implies(
          rng(j, B), And(h.len[k](n0 + j) == 1, h.val[k](
              n0 + j, z3.IntVal(0)) == f.peak(k, b(j)))))
      yield f"{k}: other tracks unaltered", S.All(2, lambda t, j, k=k: Implies(
          rng(t, n0), And(h.start(t) == self.start0(t), h.len[k](t) ==
                          self.len0[k](t), h.val[k](t, j) == self.val0[k](
                              t, j))))
    yield "of a peak that was not used", S.All(1, lambda j: Implies(
        rng(j, B), And(rng(b(j), P), b(j) < v, z3.Not(f.used(b(j))),
                       of(b(j)) == j)))
    yield "in increasing order", S.All(2, lambda j, k: Implies(
        And(0 <= j, j < k, k < B), b(j) < b(k)))
    yield "every unused peak until now", S.All(1, lambda q: Implies(
        And(rng(q, P), q < v, z3.Not(f.used(q))),
        And(rng(of(q), B), b(of(q)) == q)))
    yield from super().inv(L, i, n)
