"""C03: which tracks are reported"""
from contracts.tracker import *  # noqa: F403

MM = "sample.sms.mm"


def every(p, name, c):
  """Prove a universally quantified condition"""
  S.inv_prove(p, name, c)


def ceil_is(p, name, z, x):
  """z is the least integer that is not less than x"""
  z = zint(z)
  p.prove(name, And(ToReal(z) >= x, ToReal(z) < x + 1))


def tracker(p, m, cls="SineTracker", **kw):
  fs, h = integer(p, "fs", 1), integer(p, "h", 1)
  dur = real(p, "min_sine_dur")
  t = getattr(m, cls)(fs=fs, h=h, min_sine_dur=dur, **kw)
  t.reset()
  return t, fs, h, dur


@vc("C03", "least length of a track: max(2, ceil(duration x frame rate))",
    [f"{M}:SineTracker.min_sine_len", f"{M}:SineTracker.frame_rate"],
    replay="length")
def least_length(p, w):
  m = w.load(M)
  t, fs, h, dur = tracker(p, m)
  r = t.min_sine_len
  if not isinstance(r, (int, SInt)):
    p.fail("an integer", repr(r))
  r = zint(lift(r))
  x = dur.z * ToReal(fs.z) / ToReal(h.z)
  p.prove("at least 2", r >= 2)
  p.prove("not shorter than the duration", ToReal(r) >= x)
  p.prove("not longer than needed", Or(r == 2, ToReal(r) < x + 1))
  p.prove("frame rate: hops per second",
          zreal(t.frame_rate) == ToReal(fs.z) / ToReal(h.z))


def a_track(p, freq_nan=False):
  n = length(p, "n", 1)
  tr = {k: array(p, k, (n,), nan=False) for k in KEYS}
  tr["start_frame"] = integer(p, "start", 0)
  return n, tr


@vc("C03", "tracks at least as long as the minimum are kept",
    [f"{M}:SineTracker.track_ok"], replay="track")
def sine_ok(p, w):
  m = w.load(M)
  L = integer(p, "min_len", 2)
  w.patch(m.SineTracker, "min_sine_len", L)
  t = m.SineTracker()
  p.input("kind", lambda mo: "sine")
  n, tr = a_track(p)
  r = t.track_ok(tr)
  p.prove("kept if and only if long enough", zbool(r) == (n.z >= L.z))


class Line:
  """Contract of sklearn's LinearRegression for one regressor: the
  least-squares line, which follows an affine change of the abscissae. SL and
  IC are the slope and the intercept of the magnitudes against 0, 1, 2, ..."""

  def __init__(self, p, mag, n):
    self.p, self.mag, self.n = p, mag, n
    self.SL, self.IC = fresh("slope", "Real"), fresh("level", "Real")
    outer = self

    class LinearRegression:

      def __init__(self):
        pass

      def fit(self, x, y):
        x, y = N.asarray(x), N.asarray(y)
        if x.ndim != 2 or y.ndim not in (1, 2):
          raise Unsupported("shape of the data of a regression")
        if y.ndim == 2:
          raise Unsupported("regression of more outcomes")
        n = outer.n.z
        cut(p, "abscissae: one per frame", And(N.zi(
            x.shape[0]) == n, N.zi(x.shape[1]) == 1, N.zi(y.shape[0]) == n))
        prove_same(p, "outcomes: the magnitudes", y, outer.mag)
        z = z3.IntVal(0)
        b = zreal(x.at(z, z))
        a = zreal(x.at(z3.IntVal(1), z)) - b
        i = fresh("i")
        p.reg(i)
        cut(p, "abscissae: equally spaced", And(a != 0, Implies(
            rng(i, n), zreal(x.at(i, z)) == a * ToReal(i) + b)))
        s = outer.SL / a
        self.coef_ = N.SArr((1,), lambda j: SReal(s), "f")
        self.intercept_ = SReal(outer.IC - s * b)
        return self

    self.cls = LinearRegression


for _rev in (False, True):
  for _lo in (False, True):
    for _hi in (False, True):

      @vc("C03", f"modal criteria: reverse={_rev}, "
          f"{'lower' if _lo else 'no lower'} bound, "
          f"{'upper' if _hi else 'no upper'} bound",
          [f"{MM}:ModalTracker.track_ok"], replay="track")
      def modal_ok(p, w, _rev=_rev, _lo=_lo, _hi=_hi):
        n, tr = a_track(p)
        line = Line(p, frozen_copy(tr["mag"]), n)
        lib(w, "sklearn.linear_model.LinearRegression", line.cls)
        m, mm = w.load(M), w.load(MM)
        p.input("kind", lambda mo: "modal")
        p.input("reverse", lambda mo: _rev)
        L = integer(p, "min_len", 2)
        w.patch(m.SineTracker, "min_sine_len", L)
        lo = real(p, "lo") if _lo else None
        hi = real(p, "hi") if _hi else None
        thr = real(p, "threshold")
        t = mm.ModalTracker(reverse=_rev, frequency_bounds=(lo, hi),
                            peak_threshold=thr)
        old = {k: frozen_copy(v) for k, v in tr.items() if k in KEYS}
        mf = zreal(N.mean(tr["freq"]))
        r = zbool(t.track_ok(tr))
        # the line over playback time
        slope = -line.SL if _rev else line.SL
        first = line.IC + line.SL * (ToReal(n.z) - 1) if _rev else line.IC
        ok = And(n.z >= L.z, *([mf >= lo.z] if _lo else []),
                 *([mf <= hi.z] if _hi else []), slope <= 0, first >= thr.z)
        p.prove("kept if and only if all the criteria are met", r == ok)
        for k in KEYS:
          prove_same(p, f"{k} unmodified", tr[k], old[k])


class Fin(dict):
  """Finished (or converted) track number k"""

  def __init__(self, k, start, size):
    super().__init__()
    self.k, self.start, self.size = k, start, size

  def __getitem__(self, k):
    if k == "start_frame":
      return SInt(self.start(self.k))
    if k in KEYS:
      f = fresh_fn(k, z3.IntSort(), z3.RealSort())
      return N.SArr((SInt(self.size(self.k)),), lambda j: SReal(f(j)), "f")
    raise KeyError(k)


class Conv(Fin):
  """Active track number k, converted"""


def parts(p, r):
  """Elements of an iterable, as (element, condition, length) by position"""
  if isinstance(r, (list, tuple)) and not r:
    return []
  qs = r.parts if isinstance(r, S.SChain) else [r]
  out = []
  for q in qs:
    if isinstance(q, S.SFiltered):
      if not q.pristine():
        raise Unsupported("list of reported tracks")
      g, keep = q.src.snapshot(), q.keep
      out.append((lambda k, g=g, q=q: q.post(g(k)),
                  lambda k, q=q: zbool(q.keep(k)), q.src._vc_len()))
      continue
    if isinstance(q, S.SFilter):
      s = S._seq(q.src)
      g = s.snapshot()
      f = q.post or (lambda e: e)
      out.append((lambda k, g=g, f=f: f(g(k)),
                  lambda k, g=g, q=q: zbool(q.pred(g(k))), s._vc_len()))
    elif isinstance(q, S.SSeq) or S.is_symseq(q):
      s = S._seq(q)
      out.append((s.snapshot(), lambda k: z3.BoolVal(True), s._vc_len()))
    else:
      raise Unsupported("iterable of reported tracks")
  return out


for _cls in ("SineTracker", "ModalTracker"):
  for _rev in (False, True) if _cls[0] == "M" else (False,):
    for _strip in (False, True) if _cls[0] == "M" else (False,):

      @vc("C03", f"reported tracks, {_cls}, reverse={_rev}, "
          f"{'strip time' if _strip else 'no strip time'}",
          [f"{M}:SineTracker.all_tracks_", f"{MM}:ModalTracker.all_tracks_",
           f"{MM}:ModalTracker.strip_n"], replay="reported")
      def reported(p, w, _cls=_cls, _rev=_rev, _strip=_strip):
        p.lazy_chain = True
        m = w.load(M)
        mm = w.load(MM)
        p.input("modal", lambda mo: _cls[0] == "M")
        p.input("reverse", lambda mo: _rev)
        kw = {}
        if _cls[0] == "M":
          kw = {"reverse": _rev, "strip_t": real(p, "strip", 0)
                if _strip else None}
        t, fs, hop, _ = tracker(p, mm if kw else m, _cls, **kw)
        f = Frame.__new__(Frame)
        f.names(t)
        I = z3.IntSort()
        fst, fsz, ast, asz = (fresh_fn(k, I, I) for k in (
            "FSTART", "FSIZE", "ASTART", "ASIZE"))
        OK = fresh_fn("OK", I, z3.BoolSort())
        nf, na = length(p, "finished", 0), length(p, "active", 0)
        frame = integer(p, "frame", 0)
        t.tracks_ = S.SSeq(nf, lambda k: Fin(k, fst, fsz))
        act = S.SSeq(na, lambda k: Token(("active", k)))
        setattr(t, f.a_active, act)
        setattr(t, f.a_frame, frame)

        def convert(tr):
          if not isinstance(tr, Token) or not isinstance(tr._tok, tuple):
            raise Unsupported("conversion of what is not an active track")
          return Conv(tr._tok[1], ast, asz)

        def ok(self, tr):
          if not isinstance(tr, Conv):
            raise Unsupported("criteria of what is not an active track")
          return SBool(OK(tr.k))

        w.patch(m.SineTracker, "numpy_track", staticmethod(convert))
        for c in (m.SineTracker, mm.ModalTracker):
          w.patch(c, "track_ok", ok)
        qs = parts(p, t.all_tracks_)
        if len(qs) != 2:
          p.fail("finished tracks, then active ones", len(qs))

        def onset(k, start, size):
          if not _strip:
            return z3.BoolVal(True)
          o = frame.z - (start(k) + size(k)) if _rev else start(k)
          x = kw["strip_t"].z * ToReal(fs.z) / ToReal(hop.z)
          # o <= ceil(x)
          return ToReal(o) < x + 1

        for (g, keep, n), cls, num_, start, size, crit, what in (
            (*qs[:1], Fin, nf, fst, fsz, lambda k: z3.BoolVal(True),
             "finished"), (*qs[1:], Conv, na, ast, asz, OK, "active")):
          k = fresh("k")
          p.reg(k)
          p.prove(f"{what}: all are considered", N.zi(n) == num_.z)
          p.assume(num_.z >= 0)
          st = len(p.pc)
          p.assume(rng(k, num_.z))
          e = g(k)
          if type(e) is not cls:
            p.fail(f"{what}: in this place", repr(e))
          p.prove(f"{what}: in order", e.k == k)
          p.prove(f"{what}: reported if and only if the criteria are met and "
                  "the onset is not late", keep(k) == And(
                      crit(k), onset(k, start, size)))
          del p.pc[st:]
        p.prove("no track is added or removed", z3.BoolVal(
            getattr(t, f.a_active) is act))


@vc("C03", "strip time in frames", [f"{MM}:ModalTracker.strip_n"],
    replay="length")
def strip(p, w):
  mm = w.load(MM)
  x = real(p, "strip", 0)
  t, fs, h, _ = tracker(p, mm, "ModalTracker", strip_t=x)
  ceil_is(p, "ceil(strip time x frame rate)", t.strip_n,
          x.z * ToReal(fs.z) / ToReal(h.z))
  t.strip_t = None
  p.prove("no strip time", z3.BoolVal(t.strip_n is None))


@vc("C03", "the model reports what its tracker reports",
    [f"{M}:SinusoidalModel.tracks_"], replay="reported")
def model(p, w):
  m, mm = w.load(M), w.load(MM)
  n = length(p, "n", 0)
  tr = S.SSeq(n, lambda k: Fin(k, None, None))

  class Tracker:
    all_tracks_ = tr

    def get_params(self, deep=True):
      return {}

  cls = mm.ModalModel if p.choose("modal") else m.SinusoidalModel
  r = cls(tracker=Tracker()).tracks_
  if not isinstance(r, S.SList):
    raise Unsupported("list of reported tracks")
  p.prove("all of them", N.zi(r._vc_len()) == n.z)
  k = fresh("k")
  p.reg(k)
  p.assume(rng(k, n.z))
  p.prove("in order", r.snapshot()(k).k == k)
