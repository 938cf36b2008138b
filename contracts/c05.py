"""C05: peak detection"""
from contracts.common import *  # noqa: F403

M = "sample.sms.dsp"
FN = [f"{M}:peak_detect"]


def is_peak(x, t, k):
  v = lambda i: zreal(x.at(i))
  c = And(k > 0, k < N.zi(x.shape[0]) - 1, v(k) > v(k - 1), v(k) > v(k + 1))
  return And(c, v(k) > zreal(t)) if t is not None else c


for _t in (False, True):
  for _d in ("f", "i"):

    @vc("C05", f"{'with' if _t else 'no'} threshold, {_d} spectrum", FN,
        replay="peaks")
    def peaks(p, w, _t=_t, _d=_d):
      m = w.load(M)
      n = length(p, "n", 0)
      x = array(p, "x", (n,), _d)
      t = real(p, "t") if _t else None
      if not _t:
        p.input("t", lambda mo: None)
      old = frozen_copy(x)
      r = m.peak_detect(x, t) if _t else m.peak_detect(x)
      prove_same(p, "the spectrum is unmodified", x, old)
      if not isinstance(r, N.SArr) or r.ndim != 1:
        return p.fail("an array of positions", "no array")
      if r.kind != "i":
        return p.fail("positions are integers", r.kind)
      c = N.zi(r.shape[0])
      R = lambda j: zint(r.at(j))
      p.prove_all("every returned position is a peak", (c,),
                  lambda j: is_peak(old, t, R(j)))
      p.prove_all("increasing, no duplicates", (c, c),
                  lambda i, j: Implies(i < j, R(i) < R(j)))
      # complete: no peak lies before, between or after what is returned
      k = fresh("peak")
      p.reg(k)
      pk = is_peak(old, t, k)
      p.prove("no peak if nothing is returned", Implies(c == 0, Not(pk)))
      p.prove("no peak before the first", Implies(
          c > 0, Not(And(pk, k < R(IntVal(0))))))
      p.prove("no peak after the last", Implies(
          c > 0, Not(And(pk, k > R(c - 1)))))
      p.prove_all("no peak in between", (c,), lambda j: Implies(
          j + 1 < c, Not(And(pk, R(j) < k, k < R(j + 1)))))


@vc("C05", "threshold given by keyword", FN, replay="peaks")
def kw(p, w):
  m = w.load(M)
  n = length(p, "n", 0)
  x = array(p, "x", (n,))
  t = real(p, "t")
  prove_same(p, "same as positional", m.peak_detect(x, t=t),
             m.peak_detect(x, t))
  prove_same(p, "None is no threshold", m.peak_detect(x, t=None),
             m.peak_detect(x))
