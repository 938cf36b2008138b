"""C32: bisection"""
from contracts.common import *  # noqa: F403

M = "sample.utils.dsp"


@vc("C32", "search, any function, limits and number of steps",
    [f"{M}:dychotomic_zero_crossing"], replay="search")
def search(p, w):
  m = w.load(M)
  F = fresh_fn("func", z3.RealSort(), z3.RealSort())
  lo, hi = real(p, "lo"), real(p, "hi")
  steps = length(p, "steps", 0)
  p.input("values", lambda mo: [[str(mo.eval(x, model_completion=True)),
                                 str(mo.eval(F(x), model_completion=True))]
                                for x in G.xs])
  a, b = If(lo.z < hi.z, lo.z, hi.z), If(lo.z < hi.z, hi.z, lo.z)

  class G:
    """Ghost state: number of evaluations and bracket"""
    n = z3.IntVal(0)
    lo = hi = None
    xs = []

  def func(x):
    x = zreal(x)
    G.xs.append(x)
    p.prove("evaluated between the limits only", And(a <= x, x <= b))
    v = F(x)
    G.n = z3.simplify(G.n + 1)
    if G.lo is None:
      G.lo = x
    elif G.hi is None:
      swap = F(G.lo) > v
      G.lo, G.hi = If(swap, x, G.lo), If(swap, G.lo, x)
    else:
      G.lo, G.hi = If(v < 0, x, G.lo), If(v > 0, x, G.hi)
    return SReal(v)

  def roles(i, n):
    if G.hi is None:
      raise Unsupported("loop before the limits are evaluated")
    return [G.lo, G.hi, (G.lo + G.hi) / 2, i, steps.z - i]

  def extra(i, n):
    p.fact(lambda k: z3.Implies(k >= 0, ax.IP2(k + 1) == 2 * ax.IP2(k)), 1,
           "doubling")
    pw = z3.ToReal(ax.IP2(i))
    yield "evaluations", G.n == i + 2
    yield "at most the given number of steps", i <= steps.z
    yield "opposite signs", And(F(G.lo) <= 0, F(G.hi) >= 0)
    yield "between the limits", And(a <= G.lo, G.lo <= b, a <= G.hi,
                                    G.hi <= b)
    yield "width", z3.Or((G.hi - G.lo) * pw == b - a,
                         (G.lo - G.hi) * pw == b - a)
    yield "positive", pw >= 1

  def havoc(i):
    G.n = fresh("evals")
    G.lo, G.hi = fresh("blo", "Real"), fresh("bhi", "Real")

  p.loop_specs = [ForRoles(roles, extra, havoc),
                  WhileRoles(roles, extra, havoc)]
  got = []
  e = raises(lambda: got.append(m.dychotomic_zero_crossing(
      func, lo, hi, steps)), ValueError)
  same_sign = z3.Or(And(F(lo.z) > 0, F(hi.z) > 0), And(F(lo.z) < 0,
                                                       F(hi.z) < 0))
  p.prove("an error exactly when the signs agree",
          same_sign == zbool(e is not None))
  if e is not None:
    return
  r = zreal(got[0])
  z = fresh("z", "Real")
  pw = z3.ToReal(ax.IP2(steps.z))
  p.prove("at most steps+2 evaluations", G.n <= steps.z + 2)
  p.prove("between the limits", And(a <= r, r <= b))
  d = If(z > r, z - r, r - z)
  if p.valid(F(r) == 0):
    return p.prove("the function is zero there", F(r) == 0)
  h = G.hi - G.lo
  cut(p, "bracket", And(F(G.lo) <= 0, F(G.hi) >= 0))
  cut(p, "width of the bracket", z3.Or(h * pw == b - a, -h * pw == b - a))
  cut(p, "middle of the bracket", r == (G.lo + G.hi) / 2)
  p.assume(z3.Or(And(G.lo <= z, z <= G.hi), And(G.hi <= z, z <= G.lo)))
  cut(p, "half of the bracket", d * 2 <= If(h > 0, h, -h))
  cut(p, "positive", pw >= 1)
  p.prove("within width / 2^(steps+1) of every point of the bracket",
          d * 2 * pw <= b - a)
