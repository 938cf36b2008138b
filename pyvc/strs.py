"""Text of unknown length: sequences of character codes; regular expressions
of the form fixed* (class* fixed*){0,2} by their definition"""
import re as _re

import z3

from pyvc import core
from pyvc import values as V
from pyvc import seq
from pyvc.core import Unsupported, cur, fresh
from pyvc.values import SBool, SInt, raise_, to_zbool, to_zint

SPACES = [c for c in range(0x110000) if chr(c).isspace()]


SPACE = z3.Function("isspace", z3.IntSort(), z3.BoolSort())


def is_space(z):
  """Unicode space: a predicate known at the ASCII characters and at every
  space"""
  p = cur()
  if not getattr(p, "space_axioms", False):
    p.space_axioms = True
    for c in sorted(set(range(128)) | set(SPACES)):
      a = SPACE(z3.IntVal(c))
      p.assume(a if c in SPACES else z3.Not(a))
  return SPACE(z)


class SChar(SInt):
  """One character, by its code"""
  __slots__ = ()

  def isspace(self):
    return SBool(is_space(self.z))

  def __eq__(self, o):
    if isinstance(o, str):
      return SBool(z3.simplify(self.z == ord(o))) if len(o) == 1 else \
          SBool(z3.BoolVal(False))
    if isinstance(o, SChar):
      return SBool(z3.simplify(self.z == o.z))
    if isinstance(o, SStr):
      return o == self
    return SBool(z3.BoolVal(False))

  def __ne__(self, o):
    return SBool(z3.simplify(z3.Not((self == o).z)))

  def __hash__(self):
    return id(self)

  def __add__(self, o):
    return SStr.of(self) + o

  def __radd__(self, o):
    return o + SStr.of(self)

  def __getattr__(self, k):
    if k.startswith("_"):
      raise AttributeError(k)
    raise Unsupported(f"character.{k}")


class SStr(seq.SSeq):
  """Immutable text"""
  pytype = str

  def __init__(self, n, get):
    super().__init__(n, lambda k: SChar(to_zint(get(k))))
    self.code = lambda k: self._get(k).z

  @classmethod
  def make(cls, n, get):
    return cls(n, get)

  @classmethod
  def of(cls, x):
    if isinstance(x, SStr):
      return x
    if isinstance(x, SChar):
      return cls(1, lambda k: x)
    if isinstance(x, str):

      def get(k):
        c = V._conc(z3.simplify(k))
        if c is not None and 0 <= c < len(x):
          return SInt(z3.IntVal(ord(x[int(c)])))
        r = z3.IntVal(ord(x[-1]) if x else 0)
        for j in range(len(x) - 2, -1, -1):
          r = z3.If(k == j, z3.IntVal(ord(x[j])), r)
        return SInt(r)

      return cls(len(x), get)
    if isinstance(x, seq.SSeq):
      return cls(x._vc_len(), x.get)
    raise_(TypeError, f"expected str, not {type(x).__name__}")

  def __add__(self, o):
    if not isinstance(o, (str, SStr, SChar)):
      return NotImplemented
    return _cat(self, SStr.of(o))

  def __radd__(self, o):
    if not isinstance(o, (str, SStr, SChar)):
      return NotImplemented
    return _cat(SStr.of(o), self)

  def zlen(self):
    return to_zint(self._vc_len())

  def same(self, o):
    """(length equal, codes equal at an index)"""
    o = SStr.of(o)
    return self.zlen() == o.zlen(), lambda k: self.code(k) == o.code(k)

  def __eq__(self, o):
    if isinstance(o, str):
      return SBool(z3.simplify(z3.And(
          self.zlen() == len(o),
          *[self.code(z3.IntVal(j)) == ord(c) for j, c in enumerate(o)])))
    if self is o:
      return SBool(z3.BoolVal(True))
    if isinstance(o, (SStr, SChar)):
      raise Unsupported("comparison of texts")
    return SBool(z3.BoolVal(False))

  def __ne__(self, o):
    return SBool(z3.Not((self == o).z))

  __hash__ = object.__hash__

  def _at(self, start, o):
    """The constant o stands at position start"""
    n = self.zlen()
    return z3.And(start >= 0, start + len(o) <= n,
                  *[self.code(z3.simplify(start + j)) == ord(c)
                    for j, c in enumerate(o)])

  def startswith(self, o):
    os_ = o if isinstance(o, tuple) else (o,)
    return SBool(z3.Or(*[self._at(z3.IntVal(0), x) for x in os_]))

  def endswith(self, o):
    os_ = o if isinstance(o, tuple) else (o,)
    return SBool(z3.Or(*[self._at(z3.simplify(self.zlen() - len(x)), x)
                         for x in os_]))

  def lstrip(self, chars=None):
    if chars is not None:
      raise Unsupported("lstrip of given characters")
    return self[leading(lambda c: c.isspace(), self):]

  def removesuffix(self, o):
    return self[:-len(o)] if o and bool(self.endswith(o)) else self

  def removeprefix(self, o):
    return self[len(o):] if bool(self.startswith(o)) else self

  def __format__(self, spec):
    raise Unsupported("text formatted by uninstrumented code")

  def __str__(self):
    raise Unsupported("text read by uninstrumented code")

  def __repr__(self):
    return f"<text of {self._vc_len()} characters>"

  def __getattr__(self, k):
    if k.startswith("_"):
      raise AttributeError(k)
    raise Unsupported(f"text.{k}")


def _cat(a, b):
  na, nb = a._vc_len(), b._vc_len()
  za = to_zint(na)

  def get(k):
    c = z3.simplify(k < za)
    if z3.is_true(c):
      return a.get(k)
    if z3.is_false(c):
      return b.get(z3.simplify(k - za))
    return SInt(z3.If(c, a.code(k), b.code(z3.simplify(k - za))))

  return SStr(na + nb if isinstance(na, int) and isinstance(nb, int) else SInt(
      z3.simplify(za + to_zint(nb))), get)


def leading(pred, s):
  """Number of leading elements that satisfy a predicate"""
  p = cur()
  n = to_zint(s._vc_len())
  g = s.snapshot() if not isinstance(s, SStr) else s.get
  ok = p.describe(lambda k: to_zbool(pred(g(k))), s._vc_len())
  K = fresh("LEAD")
  p.reg(K)
  p.assume(K >= 0, K <= n, z3.Or(K == n, z3.Not(ok(K))))
  p.fact(lambda k: z3.Implies(z3.And(k >= 0, k < K), ok(k)), 1, "leading")
  splits(p).append(K)
  return SInt(K)


def splits(p):
  if not hasattr(p, "str_splits"):
    p.str_splits = []
  return p.str_splits


def takewhile(pred, s):
  if not isinstance(s, seq.SSeq):
    import itertools
    return itertools.takewhile(pred, s)
  return s[:leading(pred, s)]


def dropwhile(pred, s):
  if not isinstance(s, seq.SSeq):
    import itertools
    return itertools.dropwhile(pred, s)
  return s[leading(pred, s):]


def join(sep, parts):
  if isinstance(parts, SStr):
    if sep == "":
      return parts
    raise Unsupported("joined characters of a text")
  if isinstance(parts, (seq.SSeq, seq.SFilter)):
    raise Unsupported("join of a symbolic number of texts")
  parts = list(parts)
  if not any(isinstance(x, (SStr, SChar)) for x in parts):
    return sep.join(parts)
  r = None
  for x in parts:
    r = SStr.of(x) if r is None else r + sep + x
  return r


def fstring(*parts):
  """Parts of an f-string: (constant,) or (value, conversion, format)"""
  if not any(isinstance(q[0], (SStr, SChar)) for q in parts):
    out = []
    for q in parts:
      v = q[0]
      if len(q) == 3:
        v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[q[1]](v)
        v = format(v, q[2])
      out.append(v)
    return "".join(out)
  r = SStr.of("")
  for q in parts:
    v = q[0]
    if isinstance(v, (SStr, SChar)):
      if len(q) == 3 and (q[1] not in (-1, 115) or q[2]):
        raise Unsupported("formatted text")
    elif len(q) == 3:
      v = format({-1: lambda x: x, 115: str, 114: repr, 97: ascii}[q[1]](v),
                 q[2])
    r = r + v
  return r


# ---------------------------------------------------------------------------
# Regular expressions
# ---------------------------------------------------------------------------
def _class(op, av):
  """Character class -> predicate on codes"""
  import re._constants as C
  if op is C.LITERAL:
    return lambda z: z == av
  if op is C.NOT_LITERAL:
    return lambda z: z != av
  if op is C.ANY:
    return lambda z: z != 10
  if op is C.CATEGORY:
    if av is C.CATEGORY_SPACE:
      return is_space
    if av is C.CATEGORY_NOT_SPACE:
      return lambda z: z3.Not(is_space(z))
    raise Unsupported("regular expression category")
  if op is C.IN:
    neg = av[0][0] is C.NEGATE
    qs = []
    for o, a in av[1 if neg else 0:]:
      if o is C.RANGE:
        qs.append(lambda z, a=a: z3.And(z >= a[0], z <= a[1]))
      else:
        qs.append(_class(o, a))
    r = lambda z: z3.Or(*[q(z) for q in qs])
    return (lambda z: z3.Not(r(z))) if neg else r
  if op is C.BRANCH:
    qs = []
    for alt in av[1]:
      if len(alt) != 1:
        raise Unsupported("regular expression alternatives")
      qs.append(_class(*alt[0]))
    return lambda z: z3.Or(*[q(z) for q in qs])
  if op is C.SUBPATTERN and not av[1] and not av[2] and len(av[3]) == 1:
    return _class(*av[3][0])
  raise Unsupported(f"regular expression {op}")


def _atoms(tree):
  import re._constants as C
  out = []
  for op, av in tree:
    if op is C.SUBPATTERN and not av[1] and not av[2]:
      out += _atoms(av[3])
    elif op is C.MAX_REPEAT or op is C.MIN_REPEAT:
      lo, hi, sub = av
      if len(sub) != 1 or hi is not C.MAXREPEAT:
        raise Unsupported("regular expression repetition")
      q = _class(*sub[0])
      out += [("one", q)] * lo + [("star", q)]
    else:
      out.append(("one", _class(op, av)))
  return out


class Pattern:

  def __init__(self, pattern, flags=0):
    self.native = _re.compile(pattern, flags)
    self.pattern = pattern

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    return getattr(self.native, k)

  def fullmatch(self, s, *a):
    if not isinstance(s, SStr):
      return self.native.fullmatch(s, *a)
    import re._parser as P
    if self.native.flags & ~_re.UNICODE or a:
      raise Unsupported("regular expression flags")
    segs, stars = [[]], []
    for kind, q in _atoms(P.parse(self.pattern)):
      if kind == "one":
        segs[-1].append(q)
      else:
        stars.append(q)
        segs.append([])
    return Match() if _fullmatch(s, segs, stars) else None

  def match(self, s, *a):
    if not isinstance(s, SStr):
      return self.native.match(s, *a)
    raise Unsupported("match of a prefix")

  def search(self, s, *a):
    if not isinstance(s, SStr):
      return self.native.search(s, *a)
    raise Unsupported("search in a text")


class Match:

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    raise Unsupported(f"match.{k}")


def _fixed(s, seg, at):
  return z3.And(*[q(s.code(z3.simplify(at + j))) for j, q in enumerate(seg)])


def _fullmatch(s, segs, stars):
  p = cur()
  n = s.zlen()
  L = [len(q) for q in segs]
  zero = z3.IntVal(0)
  if not stars:
    return p.branch(z3.And(n == L[0], _fixed(s, segs[0], zero)))
  if len(stars) > 2:
    raise Unsupported("regular expression with several repetitions")
  b = fresh("match", "Bool")

  def split(k):
    """(fixed part, [(class, from, to)]) where the first repetition ends at
    k"""
    last = z3.simplify(n - L[-1])
    fix = [n >= sum(L), _fixed(s, segs[0], zero), _fixed(s, segs[-1], last)]
    rng = [(stars[0], z3.IntVal(L[0]), k)]
    if len(stars) == 1:
      fix += [k == last]
    else:
      fix += [k >= L[0], k + L[1] <= last, _fixed(s, segs[1], k)]
      rng += [(stars[1], z3.simplify(k + L[1]), last)]
    return fix, rng

  if p.branch(b):
    k = fresh("split")
    p.reg(k)
    splits(p).append(k)
    fix, rng = split(k)
    p.assume(*fix)
    for q, lo, hi in rng:
      p.fact(lambda i, q=q, lo=lo, hi=hi: z3.Implies(
          z3.And(i >= lo, i < hi), q(s.code(i))), 1, "repetition")
    return True
  # no split matches: in particular none of these
  for k in list(splits(p)) + [z3.simplify(n - L[-1])]:
    fix, rng = split(k)
    out = [z3.Not(f) for f in fix]
    for q, lo, hi in rng:
      i = fresh("odd")
      p.reg(i)
      out.append(z3.And(i >= lo, i < hi, z3.Not(q(s.code(i)))))
    p.assume(z3.Or(*out))
  return False


class Re:
  """The module re"""
  error = _re.error

  def compile(self, pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)

  def fullmatch(self, pattern, s, flags=0):
    return self.compile(pattern, flags).fullmatch(s)

  def match(self, pattern, s, flags=0):
    return self.compile(pattern, flags).match(s)

  def search(self, pattern, s, flags=0):
    return self.compile(pattern, flags).search(s)

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    return getattr(_re, k)


def text(p, name="s"):
  """An arbitrary text"""
  n = z3.Int(name + ".len")
  p.assume(n >= 0)
  p.reg(n)
  f = core.fresh_fn(name, z3.IntSort(), z3.IntSort())
  p.fact(lambda k: z3.And(f(k) >= 0, f(k) <= 0x10FFFF), 1, "codes")
  s = SStr(SInt(n), lambda k: SInt(f(k)))

  def ev(mo):
    m = min(200, max(0, mo.eval(n, True).as_long()))
    out = []
    for j in range(m):
      c = mo.eval(f(z3.IntVal(j)), True).as_long()
      out.append(chr(c) if 0 <= c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF
                 else "?")
    return "".join(out)

  p.input(name, ev)
  return s
