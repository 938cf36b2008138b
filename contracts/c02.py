"""C02: birth, contiguity and end of tracks"""
from contracts.tracker import *  # noqa: F403

CALL = [f"{M}:SineTracker.__call__", f"{M}:SineTracker.n_active_tracks"]


def every(p, name, c):
  """Prove a universally quantified condition"""
  S.inv_prove(p, name, c)


@vc("C02", "tracks without a peak are ended once, the others stay", CALL,
    replay="frame", timeout=600)
def ending(p, w):
  f = Frame(p, w, until=2)
  f.call()
  if f.phase < 2:
    raise Unsupported("no loop over the tracks that end")
  h, n0 = f.h, f.n0.z
  keep = f.matched
  every(p, "ended once if no peak was received, not otherwise", S.All(
      1, lambda j: Implies(rng(j, n0), f.ended(j) == If(keep(j), 0, 1))))
  every(p, "active: a track that received a peak", S.All(
      1, lambda j: Implies(rng(j, h.n), And(rng(h.elem(j), n0), keep(
          h.elem(j))))))
  every(p, "active: in the same order, once", S.All(2, lambda j, k: Implies(
      And(0 <= j, j < k, k < h.n), h.elem(j) < h.elem(k))))
  every(p, "active: every track that received a peak", S.All(
      1, lambda k: Implies(And(rng(k, n0), keep(k)), And(
          rng(h.pos(k), h.n), h.elem(h.pos(k)) == k))))
  ln, val = f.assoc.heap()
  for key in KEYS:
    every(p, f"{key}: unaltered", S.All(2, lambda j, x, key=key: Implies(
        rng(j, n0), And(h.len[key](j) == ln(j), h.val[key](
            j, x) == val[key](j, x)))))


@vc("C02", "unused peaks start tracks in increasing order, up to the maximum",
    CALL, replay="frame", timeout=600)
def birth(p, w):
  f = Frame(p, w, until=3)
  r = f.call()
  if f.phase < 3:
    raise Unsupported("no loop over the peaks that start tracks")
  h, n0, P, g = f.h, f.n0.z, f.P.z, f.birth
  n1, B, b, of = g.n1, g.count(), g.born, g.of
  new = lambda j: n0 + j
  p.prove("continued tracks, then new ones", And(
      B >= 0, h.n == n1 + B, h.nid == n0 + B))
  every(p, "continued tracks stay in place", S.All(1, lambda j: Implies(
      rng(j, n1), h.elem(j) == g.e1(j))))
  every(p, "new tracks follow in order", S.All(1, lambda j: Implies(
      rng(j, B), h.elem(n1 + j) == new(j))))
  every(p, "one new track per unused peak, in increasing order", S.All(
      2, lambda j, k: Implies(And(0 <= j, j < k, k < B), b(j) < b(k))))
  every(p, "a new track is of an unused peak", S.All(1, lambda j: Implies(
      rng(j, B), And(rng(b(j), P), z3.Not(f.used(b(j)))))))
  every(p, "an unused peak starts a track unless the maximum is reached by "
        "those before", S.All(1, lambda q: Implies(
            And(rng(q, P), z3.Not(f.used(q))), Or(
                And(rng(of(q), B), b(of(q)) == q), h.n >= f.max.z))))
  every(p, "a peak is left only after all that start a track", S.All(
      2, lambda q, j: Implies(
          And(rng(q, P), z3.Not(f.used(q)), rng(j, B), q < b(j)), And(
              rng(of(q), B), b(of(q)) == q))))
  p.prove("never above the maximum number of tracks", Implies(
      n0 <= f.max.z, h.n <= f.max.z))
  p.prove("none is started beyond the maximum", Or(B == 0, h.n <= f.max.z))
  every(p, "a new track starts at this frame", S.All(1, lambda j: Implies(
      rng(j, B), h.start(new(j)) == f.frame.z)))
  for key in KEYS:
    every(p, f"{key}: a new track holds its peak", S.All(
        1, lambda j, key=key: Implies(rng(j, B), And(
            h.len[key](new(j)) == 1, h.val[key](
                new(j), z3.IntVal(0)) == f.peak(key, b(j))))))
    every(p, f"{key}: other tracks unaltered", S.All(
        2, lambda t, j, key=key: Implies(rng(t, n0), And(
            h.start(t) == h.start0(t), h.len[key](t) == g.len0[key](t),
            h.val[key](t, j) == g.val0[key](t, j)))))
  t = getattr(f.t, f.a_frame)
  p.prove("one more frame", zint(t) == f.frame.z + 1)
  every(p, "contiguous up to this frame", S.All(1, lambda j: Implies(
      And(rng(j, h.n), Or(j >= n1, f.matched(h.elem(j)))), And(
          *[h.start(h.elem(j)) + h.len[k](h.elem(j)) == f.frame.z + 1
            for k in KEYS]))))
  p.prove("the tracker is returned", z3.BoolVal(r is f.t))
  p.prove("same list of active tracks", z3.BoolVal(
      getattr(f.t, f.a_active) is h))
  p.prove("finished tracks only through the end of tracks", z3.BoolVal(
      f.t.tracks_ is f.done))


# -- one track ends ---------------------------------------------------------
class Stored:
  """List of finished tracks: what is appended to it"""

  def __init__(self):
    self.new = []

  def append(self, t):
    self.new.append(t)


def same_track(p, h, t, tid, what=""):
  """A dictionary of arrays holds the values of a track of the heap"""
  if not isinstance(t, dict) or set(t) != {"start_frame", *KEYS}:
    return p.fail(f"{what}a track", repr(t))
  p.prove(f"{what}start frame", zint(t["start_frame"]) == h.start0(tid))
  for key in KEYS:
    prove_array(p, f"{what}{key}", t[key], (SInt(h.len0(tid)),),
                lambda j, key=key: SReal(h.val0[key](tid, j)))


@vc("C02", "deactivation removes one track and stores it if it is accepted",
    [f"{M}:SineTracker.deactivate", f"{M}:SineTracker.numpy_track"],
    replay="frame")
def deactivate(p, w):
  m = w.load(M)
  n0 = length(p, "active", 1)
  h = Heap(p, n0)
  t = m.SineTracker()
  t.reset()
  f = Frame.__new__(Frame)
  f.names(t)
  setattr(t, f.a_active, h)
  fr = integer(p, "frame", 0)
  setattr(t, f.a_frame, fr)
  i = integer(p, "i", 0)
  p.assume(i.z < n0.z)
  st = t.tracks_ = Stored()
  accept = p.choose("accepted")
  asked = []
  w.patch(m.SineTracker, "track_ok",
          lambda self, u: asked.append(u) or accept)
  r = t.deactivate(i)
  same_track(p, h, r, i.z)
  p.prove("asked about the track", z3.BoolVal(
      len(asked) >= 1 and all(a is r for a in asked)))
  p.prove("stored if accepted, only then", z3.BoolVal(
      len(st.new) == int(accept) and all(a is r for a in st.new) and
      t.tracks_ is st))
  p.prove("one track less", And(h.n == n0.z - 1, z3.BoolVal(
      getattr(t, f.a_active) is h)))
  every(p, "the others stay in order", S.All(1, lambda j: Implies(
      rng(j, h.n), h.elem(j) == If(j < i.z, j, j + 1))))
  p.prove("frames are not counted", zint(getattr(t, f.a_frame)) == fr.z)


@vc("C02", "a reset tracker has no tracks and counts from zero",
    [f"{M}:SineTracker.reset"], replay="history")
def reset(p, w):
  m, mm = w.load(M), w.load("sample.sms.mm")
  cls = mm.ModalTracker if p.choose("modal") else m.SineTracker
  t = cls(fs=integer(p, "fs", 1), h=integer(p, "h", 1))
  par = t.get_params()
  used = p.choose("used before")
  f = Frame.__new__(Frame)
  r = t.reset()
  if used:
    f.names(t)
    setattr(t, f.a_active, [Token(), Token()])
    setattr(t, f.a_frame, integer(p, "frame", 0))
    t.tracks_ = [Token()]
    r = t.reset()
  if not used:
    f.names(t)
  p.prove("no tracks", z3.BoolVal(
      type(t.tracks_) is list and not t.tracks_ and
      type(getattr(t, f.a_active)) is list and not getattr(t, f.a_active) and
      t.tracks_ is not getattr(t, f.a_active)))
  p.prove("frames are counted from zero", zint(lift(getattr(
      t, f.a_frame))) == 0)
  p.prove("number of active tracks", zint(lift(t.n_active_tracks)) == 0)
  new = t.get_params()
  p.prove("parameters unaltered", z3.BoolVal(
      set(new) == set(par) and all(new[k] is par[k] for k in par)))
  p.prove("the tracker is returned", z3.BoolVal(r is t))


# -- analysis of a sound ----------------------------------------------------
class Feed(ForRoles):
  """Loop over the frames: iteration i gives frame i to the tracker, once"""

  def __init__(self, frames, log, check):
    super().__init__()
    self.frames, self.log, self.check = frames, log, check
    self.seen = 0

  def match(self, L, seq):
    self.seen += 1
    self.before = list(self.log)
    return self.seen == 1 and cur().valid(
        N.zi(seq._vc_len()) == N.zi(self.frames))

  def havoc_heap(self, L, i):
    self.log.clear()

  def broke(self, L, i, n):
    yield "no frame is left out at the end", z3.BoolVal(False)

  def preserve(self, L, i, n):
    self.check(cur(), z3.simplify(i - 1), list(self.log))
    super().preserve(L, i, n)


for _rev in (None, False, True):

  @vc("C02", "every frame is given once, in time order; reverse analysis: "
      f"{_rev}", [f"{M}:SinusoidalModel.fit"], replay="fit")
  def fit(p, w, _rev=_rev):
    m, dsp = w.load(M), w.load("sample.sms.dsp")
    mm = w.load("sample.sms.mm")
    n, W = length(p, "n", 0), length(p, "W", 1)
    x, win = array(p, "x", (n,)), array(p, "w", (W,))
    old = frozen_copy(x)
    p.assume(zreal(N.reduce_sum(win)) != 0)
    p.input("reverse", lambda mo: _rev)
    F = length(p, "frames", 0)
    fs, nfft, thr = integer(p, "fs", 1), integer(p, "nfft", 1), real(p, "t")
    log = []
    I, R = z3.IntSort(), z3.RealSort()
    PN = fresh_fn("NPEAKS", I, I)
    PF, PM, PP = (fresh_fn(q, I, I, R) for q in ("PLOC", "PMAG", "PPH"))
    p.fact(lambda k: PN(k) >= 0, 1, "number of peaks")

    class Tracker:
      h = SInt(z3.IntVal(7))

      def __init__(self):
        self.fs = fs
        if _rev is not None:
          self.reverse = _rev

      def get_params(self, deep=True):
        return {}

      def reset(self):
        log.append(("reset",))
        return self

      def __call__(self, *a):
        log.append(("frame",) + a)
        return self

    class Store:

      def reset(self):
        return self

      def get_params(self, deep=True):
        return {}

      def append(self, k, v):
        return v

    class Spec:
      """Spectrum of frame k"""

      def __init__(self, k, what):
        self.k, self.what = k, what

    def frames(self, y):
      log.append(("analysed", y))
      return S.SSeq(F, lambda k: (Spec(k, "mag"), Spec(k, "phase")))

    def peaks(mx, px, t):
      if not (isinstance(mx, Spec) and isinstance(px, Spec) and mx.what ==
              "mag" and px.what == "phase" and t is thr):
        p.fail("peaks of the spectrum of the frame above the threshold",
               repr((mx, px, t)))
      p.prove("magnitude and phase of the same frame", mx.k == px.k)
      k = mx.k
      q = tuple(N.SArr((SInt(PN(k)),), lambda j, f=f: SReal(f(k, j)), "f")
                for f in (PF, PM, PP))
      log.append(("peaks", k, q))
      return q

    cls = mm.ModalModel if p.choose("modal") else m.SinusoidalModel
    for c in (mm.ModalModel, m.SinusoidalModel):
      if "dft_frames" in vars(c):
        w.patch(c, "dft_frames", frames)
    w.patch(dsp, "peak_detect_interp", peaks)

    def check(p, i, log):
      got = [e for e in log if e[0] == "frame"]
      pk = [e for e in log if e[0] == "peaks"]
      if len(got) != 1 or len(pk) != 1 or any(e[0] in ("reset", "analysed")
                                              for e in log):
        p.fail("every frame is given to the tracker once", str(log))
      p.prove("peaks of this frame", pk[0][1] == i)
      _, a, b, c = got[0]
      num_ = (SInt(PN(i)),)
      prove_array(p, "frequencies of the peaks", a, num_, lambda j: SReal(
          PF(i, j) * ToReal(fs.z) / ToReal(nfft.z)))
      prove_array(p, "magnitudes of the peaks", b, num_,
                  lambda j: SReal(PM(i, j)))
      prove_array(p, "phases of the peaks", c, num_,
                  lambda j: SReal(PP(i, j)))

    t = Tracker()
    mod = cls(w=win, n=nfft, t=thr, tracker=t, intermediate=Store())
    sp = Feed(F, log, check)
    p.loop_specs = [sp]
    r = mod.fit(x)
    if sp.seen != 1:
      p.fail("one loop over the frames", sp.seen)
    b = [e[0] for e in sp.before]
    p.prove("the tracker is reset before the first frame", z3.BoolVal(
        b.count("reset") == 1 and b.count("frame") == 0 and
        b.count("analysed") == 1))
    p.prove("nothing is given after the last frame", z3.BoolVal(
        not any(e[0] in ("frame", "reset") for e in log)))
    y, = [e[1] for e in sp.before if e[0] == "analysed"]
    prove_array(p, "the sound is analysed" + (", reversed" if _rev else ""),
                y, (n,), lambda j: old.at(n.z - 1 - j if _rev else j))
    prove_same(p, "the sound is unmodified", x, old)
    p.prove("the model is returned", z3.BoolVal(r is mod))
    p.prove("same tracker", z3.BoolVal(mod.tracker is t))
