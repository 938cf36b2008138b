"""C06: peak refinement"""
from contracts.common import *  # noqa: F403

M = "sample.sms.dsp"
FN = [f"{M}:peak_refine"]


def setup(p, phase):
  n = length(p, "n", 3)
  mx = array(p, "mx", (n,))
  px = array(p, "px", (n,)) if phase else None
  c = length(p, "c", 0, small=3)
  pl = array(p, "ploc", (c,), "i")
  P = lambda j: zint(pl.at(j))
  p.fact(lambda j: Implies(And(0 <= j, j < c.z), And(P(j) > 0, P(j) < n.z - 1)),
         1, "interior")
  v = lambda i: zreal(mx.at(i))
  p.fact(lambda j: Implies(And(0 <= j, j < c.z), And(
      v(P(j)) > v(P(j) - 1), v(P(j)) > v(P(j) + 1))), 1, "peaks")
  return n, mx, px, c, pl


def vertex(mx, k):
  l, c, r = (zreal(mx.at(z3.simplify(k + d))) for d in (-1, 0, 1))
  x = (l - r) / (2 * (l - 2 * c + r))
  return x, c - (l - r) * x / 4, (l, c, r)


def post(p, r, n, mx, px, c, pl):
  if len(r) != (2 if px is None else 3):
    return p.fail("number of results", len(r))
  K = lambda j: zint(pl.at(j))
  prove_array(p, "refined position is the vertex abscissa", r[0], (c,),
              lambda j: SReal(z3.ToReal(K(j)) + vertex(mx, K(j))[0]))
  prove_array(p, "refined magnitude is the vertex ordinate", r[1], (c,),
              lambda j: SReal(vertex(mx, K(j))[1]))

  p.prove_all("negative curvature at a peak", (c,), lambda j:
              vertex(mx, K(j))[2][0] - 2 * vertex(mx, K(j))[2][1] +
              vertex(mx, K(j))[2][2] < 0)
  p.prove_all("the vertex equation holds for the returned position", (c,),
              lambda j: (zreal(r[0].at(j)) - z3.ToReal(K(j))) * 2 *
              (vertex(mx, K(j))[2][0] - 2 * vertex(mx, K(j))[2][1] +
               vertex(mx, K(j))[2][2]) == vertex(mx, K(j))[2][0] -
              vertex(mx, K(j))[2][2])
  # lemma over the three samples
  l, ce, rr, x = (fresh(k, "Real") for k in ("l", "ce", "rr", "dx"))
  p.prove("a vertex equation keeps the offset within half a bin", Implies(
      And(ce > l, ce > rr, x * 2 * (l - 2 * ce + rr) == l - rr),
      And(x <= z3.Q(1, 2), x >= -z3.Q(1, 2), ce - (l - rr) * x / 4 >= ce)))
  if px is not None:

    def phase(j):
      pos = zreal(r[0].at(j))
      k = z3.ToInt(pos)
      f = lambda i: zreal(px.at(z3.simplify(i)))
      return SReal(f(k) + (f(k + 1) - f(k)) * (pos - z3.ToReal(k)))

    # interior positions: the refined position stays inside the spectrum
    p.prove_all("refined positions lie inside the spectrum", (c,), lambda j:
                And(zreal(r[0].at(j)) >= 0, zreal(r[0].at(j)) <
                    z3.ToReal(n.z - 1)), extra=[])
    prove_array(p, "phase interpolated linearly", r[2], (c,), phase)


def lemma(p, mx, pl, c):
  """offset bounds as instantiable facts, justified by the lemma above"""
  l, ce, rr = (fresh(k, "Real") for k in ("l", "ce", "rr"))
  x = (l - rr) / (2 * (l - 2 * ce + rr))
  cut(p, "half-bin lemma", Implies(And(ce > l, ce > rr), And(
      x <= z3.Q(1, 2), x >= -z3.Q(1, 2))))

  def inst(j):
    K = zint(pl.at(j))
    x, _, (l, c_, r) = vertex(mx, K)
    return Implies(And(j >= 0, j < c.z, c_ > l, c_ > r), And(
        x <= z3.Q(1, 2), x >= -z3.Q(1, 2)))

  p.fact(inst, 1, "half-bin lemma (proved)")


for _ph in (False, True):

  @vc("C06", f"refinement {'with' if _ph else 'without'} phase", FN,
      replay="refine")
  def refine(p, w, _ph=_ph):
    m = w.load(M)
    n, mx, px, c, pl = setup(p, _ph)
    if not _ph:
      p.input("px", lambda mo: None)
    lemma(p, mx, pl, c)
    olds = [frozen_copy(a) for a in (mx, pl)]
    r = m.peak_refine(pl, mx, px) if _ph else m.peak_refine(pl, mx)
    post(p, r, n, mx, px, c, pl)
    prove_same(p, "magnitudes unmodified", mx, olds[0])
    prove_same(p, "positions unmodified", pl, olds[1])


for _ph in (False, True):

  @vc("C06", f"detection and refinement, {'with' if _ph else 'without'} phase",
      [f"{M}:peak_detect_interp"], replay="both")
  def both(p, w, _ph=_ph):
    m = w.load(M)
    n = length(p, "n", 1)
    mx = array(p, "mx", (n,))
    px = array(p, "px", (n,)) if _ph else None
    t = real(p, "t")
    pl = m.peak_detect(mx, t=t)
    want = m.peak_refine(pl, mx, px)
    got = m.peak_detect_interp(mx, px, t)
    if len(want) != len(got):
      return p.fail("number of results", "")
    for i, (a, b) in enumerate(zip(got, want)):
      prove_same(p, f"result {i}: one refined value per detected peak", a, b)
