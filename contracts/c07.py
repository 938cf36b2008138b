"""C07: overlapping windows and padding"""
from contracts.common import *  # noqa: F403

M = "sample.utils.dsp"
FN = [f"{M}:overlapping_windows", f"{M}:n_windows"]


def count(n, w, h):
  return If(n >= w, 1 + (n - w) / h, IntVal(0))


@vc("C07", "number of windows", [f"{M}:n_windows"], replay="count")
def cnt(p, w):
  m = w.load(M)
  n, W, H = (integer(p, k, lo=l) for k, l in (("n", 0), ("W", 1), ("H", 1)))
  p.prove("as many as entirely fit", eq(m.n_windows(n, W, H), SInt(
      count(n.z, W.z, H.z))))
  p.prove("default hop is the window size", eq(m.n_windows(n, W), SInt(
      count(n.z, W.z, W.z))))
  r = zint(m.n_windows(n, wsize=W, hop=H))
  p.prove("the last window fits", Implies(r > 0, (r - 1) * H.z + W.z <= n.z))
  p.prove("no further window fits", r * H.z + W.z > n.z)
  p.prove("not negative", r >= 0)


for _d in (1, 2):
  for _hop in (True, False):
    for _wr in (None, False, True):

      @vc("C07", f"windows of a {_d}-d signal, {'given' if _hop else 'default'}"
          f" hop, writeable={_wr}", FN, replay="windows")
      def windows(p, w, _d=_d, _hop=_hop, _wr=_wr):
        m = w.load(M)
        W = integer(p, "W", lo=1, hi=None)
        H = integer(p, "H", lo=1) if _hop else W
        if not _hop:
          p.input("H", lambda mo: None)
        p.input("wr", lambda mo: _wr)
        p.small += [W.z <= 4, H.z <= 4]
        shape = tuple(length(p, f"n{i}", 0) for i in range(_d))
        a = array(p, "a", shape)
        if _d == 1 and p.choose("view of every c-th element"):
          # of a larger array, forwards or backwards
          a.cell = integer(p, "cell").z
          p.assume(a.cell != 0)
          p.small += [a.cell == 2]
        kw = {} if _wr is None else {"writeable": _wr}
        if _hop:
          kw["hop"] = H
        old = frozen_copy(a)
        r = m.overlapping_windows(a, W, **kw)
        tot = z3.simplify(shape[0].z * shape[1].z) if _d == 2 else shape[0].z
        c = count(tot, W.z, H.z)

        def lin(k):
          if _d == 1:
            return old.at(k)
          return old.at(k / shape[1].z, k % shape[1].z)

        if _d == 1:
          prove_array(p, "window i is samples iH..iH+W-1", r,
                      (SInt(c), W), lambda i, j: lin(i * H.z + j))
        else:
          # against the library's row-major linearisation
          flat = N.reshape(old, -1)
          prove_array(p, "window i is samples iH..iH+W-1", r,
                      (SInt(c), W), lambda i, j: flat.at(i * H.z + j))
        prove_same(p, "signal unmodified", a, old)
        # read-only unless asked for
        p.prove("read-only unless writing is asked for",
                zbool(bool(r.flags.writeable) == bool(_wr)))
        # no copy: later changes of the signal show through
        if _d == 1:
          k = integer(p, "k", lo=0)
          p.assume(k.z < tot)
          a[k] = 5
          i, j = fresh("wi"), fresh("wj")
          p.reg(i, j)
          p.prove("a view, not a copy", Implies(
              And(i >= 0, j >= 0, i < c, j < W.z, i * H.z + j == k.z),
              eq(r.at(i, j), 5)))


def model(p, w, padded):
  sm = w.load("sample.sms.sm")
  W, n = length(p, "W", 1), length(p, "n", 0)
  h = integer(p, "H", lo=1)
  p.small.append(h.z <= 4)
  win, x = array(p, "w", (W,)), array(p, "x", (n,))
  p.input("padded", lambda mo: padded)
  mod = sm.SinusoidalModel(w=win, padded=padded, tracker__h=h)
  return mod, W, n, h, x


def padded_at(x, n, a):
  return lambda k: SReal(If(And(k >= a, k < a + n.z), zreal(x.at(k - a)),
                            z3.RealVal(0)))


for _pd in (True, False):

  @vc("C07", f"padding, padded={_pd}",
      ["sample.sms.sm:SinusoidalModel.pad_input"], replay="pad")
  def pad(p, w, _pd=_pd):
    mod, W, n, h, x = model(p, w, _pd)
    old = frozen_copy(x)
    y, a = mod.pad_input(x)
    if not _pd:
      prove_same(p, "no padding: the signal itself", y, old)
      p.prove("no initial padding", eq(a, 0))
      return
    za = (W.z + 1) / 2
    p.prove("initial padding length is (W+1)//2", eq(a, SInt(za)))
    prove_array(p, "zeros, signal, W//2 zeros", y,
                (SInt(n.z + za + W.z / 2),), padded_at(old, n, za))
    prove_same(p, "signal unmodified", x, old)

  @vc("C07", f"analysis frames, padded={_pd}",
      ["sample.sms.sm:SinusoidalModel.time_frames"] + FN, replay="frames")
  def frames(p, w, _pd=_pd):
    mod, W, n, h, x = model(p, w, _pd)
    r = mod.time_frames(x)
    za = (W.z + 1) / 2 if _pd else IntVal(0)
    tot = n.z + (za + W.z / 2 if _pd else 0)
    f = padded_at(x, n, za) if _pd else (lambda k: x.at(k))
    prove_array(p, "frames of the (padded) signal, hop H", r,
                (SInt(count(tot, W.z, h.z)), W),
                lambda i, j: f(i * h.z + j))
