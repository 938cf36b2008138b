"""C33: release tooling"""
from contracts.common import *  # noqa: F403
from pyvc import seq as S
from pyvc import strs

CL = "scripts.utils.make_changelog"
YA = "scripts.utils.yapf_nbformat"
NOTE = ("A text is a sequence of character codes of any length without line "
        "breaks; a regular expression has the meaning of its definition. The "
        "command-line parser, the notebook format and the formatter are not "
        "under contract.")
BOUNDED = [
    "the change log file, for generated directories of version files",
    "whole notebooks with command lines, through the formatter"]
ESC = "  # escaped-for-yapf"
PASS = "pass  # "
COMMANDS = (ord("!"), ord("%"))


class Cli:
  """chromatictools.cli: the decorated function, as for an imported module"""

  @staticmethod
  def main(name, *args, **kwargs):
    return lambda f: f


def tools(w, name):
  w.fakes["re"] = strs.Re()
  w.fakes["chromatictools.cli"] = Cli
  w.fakes["chromatictools"] = Obj(cli=Cli)
  return w.load(name)


# ---------------------------------------------------------------------------
# Versions
# ---------------------------------------------------------------------------
def version(p, name):
  """Version number: any number of integer components"""
  n = length(p, name + ".len", 0)
  f = fresh_fn(name, z3.IntSort(), z3.IntSort())
  v = S.SSeq(n, lambda k: SInt(f(k)))
  v.f, v.n = f, N.zi(n)
  p.input(name, lambda mo: [
      int(mo.eval(f(z3.IntVal(j)), True).as_long())
      for j in range(min(50, int(mo.eval(v.n, True).as_long())))])
  return v


class Equal(S.LoopSpec):
  """All components so far are present in both versions, and equal"""

  def __init__(self, *pairs):
    self.pairs = pairs

  def inv(self, L, i, n):
    u, v = L["u"], L["v"]
    yield "equal so far", S.All(1, lambda k: Implies(
        And(k >= 0, k < i), And(k < u.n, k < v.n, u.f(k) == v.f(k))))


def compare(p, m, u, v):
  p.loop_specs = [Equal()]
  ok = attempt(p, "versions can be compared", lambda: m._version_compare(u, v))
  if not ok:
    return None
  r = ok[0]
  if not isinstance(r, (int, SInt, SBool)):
    p.fail("a comparison gives an integer")
    return None
  return N.zi(r)


@vc("C33", "the first differing component decides",
    functions=[f"{CL}._version_compare"], replay="compare")
def first(p, w):
  m = tools(w, CL)
  u, v = version(p, "u"), version(p, "v")
  d = fresh("first difference")
  p.reg(d)
  p.assume(d >= 0)
  p.fact(lambda k: Implies(And(k >= 0, k < d),
                           And(k < u.n, k < v.n, u.f(k) == v.f(k))), 1, "same")
  p.assume(Or(u.n <= d, v.n <= d, u.f(d) != v.f(d)))
  r = compare(p, m, u, v)
  if r is None:
    return
  p.prove("versions that end together are equal", Implies(
      And(u.n <= d, v.n <= d), r == 0))
  p.prove("a missing component comes first", Implies(
      And(u.n <= d, v.n > d), r < 0))
  p.prove("a present component comes after a missing one", Implies(
      And(u.n > d, v.n <= d), r > 0))
  p.prove("a smaller component comes first", Implies(
      And(u.n > d, v.n > d, u.f(d) < v.f(d)), r < 0))
  p.prove("a greater component comes after", Implies(
      And(u.n > d, v.n > d, u.f(d) > v.f(d)), r > 0))


@vc("C33", "comparison is antisymmetric and total",
    functions=[f"{CL}._version_compare"], replay="compare")
def antisymmetric(p, w):
  m = tools(w, CL)
  u, v = version(p, "u"), version(p, "v")
  r, t = compare(p, m, u, v), compare(p, m, v, u)
  if r is None or t is None:
    return
  p.prove("swapped versions compare the other way", And(
      (r > 0) == (t < 0), (r < 0) == (t > 0)))
  p.reg(u.n)
  p.reg(v.n)
  p.prove("only equal versions are equal in the order", Implies(
      r == 0, u.n == v.n))
  k = fresh("k")
  p.reg(k)
  p.prove("only equal versions are equal in the order: components", Implies(
      And(r == 0, k >= 0, k < u.n), u.f(k) == v.f(k)))


@vc("C33", "comparison is transitive", functions=[f"{CL}._version_compare"],
    replay="compare", max_paths=4000)
def transitive(p, w):
  m = tools(w, CL)
  u, v, x = version(p, "u"), version(p, "v"), version(p, "w")
  r = compare(p, m, u, v)
  if r is None:
    return
  p.assume(r <= 0)
  t = compare(p, m, v, x)
  if t is None:
    return
  p.assume(t <= 0)
  q = compare(p, m, u, x)
  if q is None:
    return
  p.prove("an order", q <= 0)
  p.prove("a strict order", Implies(Or(r < 0, t < 0), q < 0))


@vc("C33", "a version equals itself", functions=[f"{CL}._version_compare"],
    replay="compare")
def reflexive(p, w):
  m = tools(w, CL)
  u = version(p, "u")
  r = compare(p, m, u, u)
  if r is not None:
    p.prove("reflexive", r == 0)


# ---------------------------------------------------------------------------
# Notebook lines
# ---------------------------------------------------------------------------
class Line:
  """Any single line of text; lead is the number of its leading spaces"""

  def __init__(self, p, name="s"):
    self.p = p
    self.s = s = strs.text(p, name)
    p.fact(lambda k: s.code(k) != 10, 1, "single line")
    self.n = s.zlen()
    self.lead = K = fresh("lead")
    p.reg(K)
    p.assume(0 <= K, K <= self.n, Or(K == self.n,
                                     Not(strs.is_space(s.code(K)))))
    p.fact(lambda k: Implies(And(k >= 0, k < K), strs.is_space(s.code(k))), 1,
           "leading spaces")
    strs.splits(p).append(K)

  def command(self):
    """The first character after the spaces is ! or %"""
    return self.command_at(self.lead)

  def command_at(self, k):
    return And(k < self.n, Or(*[self.s.code(k) == c for c in COMMANDS]))

  def const(self, at, text):
    return And(*[self.s.code(z3.simplify(at + j)) == ord(c)
                 for j, c in enumerate(text)])

  def escaped(self):
    """Of the form that a command line is given by escaping"""
    K, n = self.lead, self.n
    b = z3.simplify(K + len(PASS))
    e = z3.simplify(n - len(ESC))
    return And(b < e, self.const(K, PASS), self.command_at(b),
               self.const(e, ESC))


def same_text(p, name, got, want):
  """Two texts are equal"""
  if not isinstance(got, (str, strs.SStr, strs.SChar)):
    p.fail(name + ": a text")
    return
  got, want = strs.SStr.of(got), strs.SStr.of(want)
  p.prove(name + ": length", got.zlen() == want.zlen())
  k = fresh("k")
  p.reg(k)
  p.assume(k >= 0, k < want.zlen())
  p.prove(name + ": characters", got.code(k) == want.code(k))


def wrapping(p, w):
  m = tools(w, YA)
  return m, Line(p)


def do(p, f, s):
  ok = attempt(p, "a line is handled", lambda: f(s))
  return ok[0] if ok else None


@vc("C33", "escaping a command line comments it out",
    functions=[f"{YA}._wrap_command_line"], replay="line")
def wrap_command(p, w):
  m, l = wrapping(p, w)
  p.assume(l.command())
  r = do(p, m._wrap_command_line, l.s)
  if r is not None:
    K = SInt(l.lead)
    same_text(p, "escaped line", r, l.s[:K] + PASS + l.s[K:] + ESC)


@vc("C33", "escaping leaves other lines untouched",
    functions=[f"{YA}._wrap_command_line"], replay="line")
def wrap_other(p, w):
  m, l = wrapping(p, w)
  p.assume(Not(l.command()))
  r = do(p, m._wrap_command_line, l.s)
  if r is not None:
    same_text(p, "other line", r, l.s)


@vc("C33", "unescaping an escaped line gives the command back",
    functions=[f"{YA}._unwrap_command_line"], replay="line")
def unwrap_escaped(p, w):
  m, l = wrapping(p, w)
  p.assume(l.escaped())
  r = do(p, m._unwrap_command_line, l.s)
  if r is not None:
    K, n = SInt(l.lead), SInt(l.n)
    same_text(p, "unescaped line", r,
              l.s[:K] + l.s[K + len(PASS):n - len(ESC)])


@vc("C33", "unescaping leaves other lines untouched",
    functions=[f"{YA}._unwrap_command_line"], replay="line")
def unwrap_other(p, w):
  m, l = wrapping(p, w)
  p.assume(Not(l.escaped()))
  r = do(p, m._unwrap_command_line, l.s)
  if r is not None:
    same_text(p, "other line", r, l.s)


@vc("C33", "escaping then unescaping is the identity",
    functions=[f"{YA}._wrap_command_line", f"{YA}._unwrap_command_line"],
    replay="line")
def round_trip(p, w):
  m, l = wrapping(p, w)
  p.assume(Not(l.escaped()))
  r = do(p, m._wrap_command_line, l.s)
  if r is None:
    return
  # where the inserted text starts and ends
  for z in (l.lead, l.lead + len(PASS)):
    z = z3.simplify(z)
    strs.splits(p).append(z)
    p.reg(z)
  q = do(p, m._unwrap_command_line, r)
  if q is not None:
    same_text(p, "round trip", q, l.s)
