"""C04: merging of finished tracks"""
from contracts import c01
from contracts.tracker import *  # noqa: F403

MM = "sample.sms.mm"
NAN = SReal(RealVal(0), nan=z3.BoolVal(True))


def every(p, name, c):
  """Prove a universally quantified condition"""
  S.inv_prove(p, name, c)


class Finished:
  """Finished tracks, in any number: track k has start frame START(k), SIZE(k)
  frames and values VAL[key](k, j), that may be missing (NaN) except at the
  first and at the last frame"""

  def __init__(self, p):
    self.p = p
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    self.n = length(p, "finished", 0)
    self.start, self.size = fresh_fn("FSTART", I, I), fresh_fn("FSIZE", I, I)
    self.val = {k: fresh_fn("F" + k, I, I, R) for k in KEYS}
    gap = self.gap = fresh_fn("GAP", I, I, B)
    self.avg = fresh_fn("FMEAN", I, R)
    self.new, self.written = [], {}
    self.by = None
    sz = self.size
    p.fact(lambda k: And(self.start(k) >= 0, sz(k) >= 1), 1, "sizes")
    p.fact(lambda k: And(Not(gap(k, z3.IntVal(0))), Not(gap(k, sz(k) - 1))), 1,
           "first and last frames are valid")

  def _vc_len(self):
    return self.n

  def _vc_symiter(self):
    return S.SSeq(self.n, lambda k: Old(self, k))

  def __bool__(self):
    return self.p.branch(self.n.z > 0)

  def append(self, t):
    self.new.append(t)

  def array(self, k, key):
    f, g, n = self.val[key], self.gap, self.size(k)
    r = N.SArr((SInt(n),), lambda j: SReal(f(k, j), nan=g(k, j)), "f")
    r.of = (self, k, key)
    return r


class Old:
  """A finished track"""

  def __init__(self, s, k):
    self.s, self.k = s, k

  def __getitem__(self, key):
    s = self.s
    if s.written:
      if s.by is not self:
        raise Unsupported("another finished track is read after a change")
      if key in s.written:
        return s.written[key]
    if key == "start_frame":
      return SInt(s.start(self.k))
    if key not in KEYS:
      raise KeyError(key)
    return s.array(self.k, key)

  def __setitem__(self, key, v):
    if self.s.by not in (None, self) or not isinstance(key, str):
      raise Unsupported("several finished tracks are changed")
    self.s.by = self
    self.s.written[key] = v

  def keys(self):
    return ("start_frame",) + KEYS

  def __iter__(self):
    return iter(self.keys())

  def items(self):
    return [(k, self[k]) for k in self.keys()]

  def update(self, d=(), **kw):
    for k, v in {**dict(d), **kw}.items():
      self[k] = v


def magnitude(z):
  return z3.If(z < 0, -z, z)


for _how in ("single", "average"):
  for _accept in (True, False):

    @vc("C04", "an accepted track is joined to the closest compatible track "
        f"within tolerance, otherwise stored; strategy {_how}" if _accept else
        f"a track that is not accepted changes nothing; strategy {_how}",
        [f"{MM}:ModalTracker.deactivate", f"{MM}:_track_diff_single",
         f"{MM}:_track_diff_avg", f"{MM}:ModalTracker.freq_diff_function"],
        replay="merge")
    def merge(p, w, _how=_how, _accept=_accept):
      st = Finished(p)
      n0 = length(p, "active", 1)
      h = Heap(p, n0)
      i = integer(p, "i", 0)
      p.assume(i.z < n0.z)
      new = {k: N.SArr((SInt(h.len0(i.z)),), lambda j, k=k: SReal(
          h.val0[k](i.z, j)), "f") for k in KEYS}
      size, start = h.len0(i.z), h.start0(i.z)
      p.reg(i.z, size)
      AVG = fresh("mean", "Real")
      p.input("how", lambda mo: _how)
      p.input("accept", lambda mo: _accept)

      def nanmean(a, **kw):
        """Contract of numpy.nanmean: the mean of the valid values"""
        if kw:
          raise Unsupported("options of nanmean")
        of = getattr(a, "of", None)
        if of is not None and of[0] is st and of[2] == "freq":
          return SReal(st.avg(of[1]), np=True)
        if not p.in_template:
          prove_same(p, "average of the frequencies", a, new["freq"])
        elif not (isinstance(a, N.SArr) and a is conv.get("freq")):
          raise Unsupported("average of other values")
        return SReal(AVG, np=True)

      w.fakes["numpy"].nanmean = nanmean
      m, mm = w.load(M), w.load(MM)
      for mod in (m, mm):
        if "min_key" in vars(mod):
          w.patch(mod, "min_key", min_key_contract(p))
      off, slope = real(p, "freq_dev_offset"), real(p, "freq_dev_slope")
      t = mm.ModalTracker(merge_strategy=_how, freq_dev_offset=off,
                          freq_dev_slope=slope)
      t.reset()
      f = Frame.__new__(Frame)
      f.names(t)
      setattr(t, f.a_active, h)
      t.tracks_ = st
      conv = {}

      def ok(self, u):
        conv.update(u)
        return _accept

      w.patch(mm.ModalTracker, "track_ok", ok)
      r = t.deactivate(i)
      # -- the track that ended
      if not isinstance(r, dict) or set(r) != {"start_frame", *KEYS}:
        p.fail("the track that ended", repr(r))
      p.prove("start frame of the track that ended",
              zint(r["start_frame"]) == start)
      for key in KEYS:
        prove_array(p, f"{key} of the track that ended", r[key],
                    (SInt(size),), lambda j, key=key: new[key].at(j))
      p.prove("one active track less", h.n == n0.z - 1)
      every(p, "the other active tracks stay in order", S.All(
          1, lambda j: Implies(rng(j, h.n), h.elem(j) == If(
              j < i.z, j, j + 1))))
      p.prove("same list of finished tracks", z3.BoolVal(t.tracks_ is st))
      # -- finished tracks
      if not _accept:
        p.prove("no finished track is added or changed", z3.BoolVal(
            not st.new and not st.written))
        return
      compatible = lambda k: And(rng(k, st.n.z),
                                 st.start(k) + st.size(k) < start)
      z = z3.IntVal(0)
      if _how == "single":
        diff = lambda k: magnitude(st.val["freq"](
            k, st.size(k) - 1) - h.val0["freq"](i.z, z))
      else:
        diff = lambda k: magnitude(st.avg(k) - AVG)
      tol = off.z + slope.z * h.val0["freq"](i.z, z)
      if not st.written:
        p.prove("stored once, as it is", z3.BoolVal(
            len(st.new) == 1 and st.new[0] is r))
        every(p, "stored only if no compatible track is within tolerance",
              S.All(1, lambda k: Implies(compatible(k), diff(k) >= tol)))
        return
      p.prove("not stored if joined", z3.BoolVal(not st.new))
      u = st.by.k
      p.reg(u)
      p.prove("joined to a track that ended before with a frame between",
              compatible(u))
      every(p, "joined to the closest one", S.All(1, lambda k: Implies(
          compatible(k), diff(u) <= diff(k))))
      p.prove("joined below the tolerance", diff(u) < tol)
      p.prove("values are joined, the start stays", z3.BoolVal(
          set(st.written) == set(KEYS)))
      a = start - st.start(u)
      for key in KEYS:
        b = st.array(u, key)
        prove_array(p, f"{key}: every value at its frame, missing frames are "
                    "NaN", st.written[key], (SInt(a + size),),
                    lambda j, key=key, b=b: V.ite(
                        SBool(j < st.size(u)), b.at(j), V.ite(
                            SBool(j < a), NAN, new[key].at(j - a))))


@vc("C04", "strategy by name", [f"{MM}:ModalTracker.freq_diff_function"],
    replay="strategy")
def strategy(p, w):
  mm = w.load(MM)
  t = mm.ModalTracker(merge_strategy="other")
  e = raises(lambda: t.freq_diff_function, KeyError)
  p.prove("an unknown strategy is an error", z3.BoolVal(e is not None))
  n, m = length(p, "n", 1), length(p, "m", 1)
  a, b = array(p, "a", (n,), nan=False), array(p, "b", (m,), nan=False)
  t.merge_strategy = "single"
  r = t.freq_diff_function({"freq": a}, {"freq": b})
  p.prove("single: last of the older against first of the newer",
          zreal(r) == magnitude(zreal(a.at(n.z - 1)) - zreal(
              b.at(z3.IntVal(0)))))


vc("C04", "min_key: an element with the least key, and that key",
   [f"{M}:min_key"], replay="min_key")(c01.min_key)
