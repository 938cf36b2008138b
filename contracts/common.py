"""Contract schemata shared by several properties"""
from pyvc.api import *  # noqa: F403
from pyvc import seq as S


def cut(p, name, cond, **kw):
  """Prove, then use"""
  p.prove(name, cond, **kw)
  p.assume(cond)


def scalar(v):
  return not isinstance(v, N.SArr)


def elementwise(prop, name, call, functions, replay=None, tag=None, lo=None,
                nd=(1, 2), outs=("none", "other", "self"), ints=True,
                spec=None):
  """call(world, x, **kw) is an elementwise numpy-like conversion: a scalar
  gives a scalar; an array an array of the same shape holding, element by
  element, what the scalar gives; out receives the result, also when it is
  the input; the input is otherwise unmodified"""
  tag = tag or {}

  def tags(p, **kw):
    for k, v in dict(tag, **kw).items():
      p.input(k, lambda mo, v=v: v)

  @vc(prop, f"{name}: a scalar gives a scalar", functions, replay=replay)
  def sc(p, w):
    x = real(p, "x", lo=lo)
    tags(p, out="none")
    r = call(w, x)
    if not scalar(r):
      p.fail("a scalar gives a scalar", "array returned")
    else:
      p.prove("a scalar gives a scalar", zbool(True))

  for d in nd:
    for om in outs:
      for k in ("f", "i") if (ints and om == "none" and d == 1) else ("f",):

        @vc(prop, f"{name}: {d}-d {k} array, out={om}", functions,
            replay=replay)
        def arr(p, w, d=d, om=om, k=k):
          shape = tuple(length(p, f"n{j}", 0) for j in range(d))
          x = array(p, "x", shape, k, lo=lo)
          tags(p, out=om)
          old = frozen_copy(x)
          kw = {}
          if om != "none":
            kw["out"] = x if om == "self" else array(p, "o", shape)
          r = call(w, x, **kw)
          sp = lambda *i: call(w, SReal(zreal(old.at(*i))))
          prove_array(p, "element by element what the scalar gives", r,
                      shape, sp)
          if om != "self":
            prove_same(p, "the input is unmodified", x, old)
          if om != "none":
            prove_array(p, "the output array holds the result", kw["out"],
                        shape, sp)


class Rec:
  """Records calls; returns ret (or what it gives when callable)"""

  def __init__(self, ret=None):
    self.ret, self.calls = ret, []

  def __call__(self, *a, **k):
    self.calls.append((a, k))
    return self.ret(*a, **k) if callable(self.ret) else self.ret


def attempt(p, name, f):
  """[the value of f], or the named obligation fails with the error the code
  under contract raises"""
  try:
    return [f()]
  except Exception as e:  # pylint: disable=W0703
    if not getattr(e, "_vc_modelled", False):
      t = e.__traceback__
      while t.tb_next is not None:
        t = t.tb_next
      if "/contracts/" in t.tb_frame.f_code.co_filename or isinstance(
          e, NameError) or isinstance(e, AttributeError) and (
              "/pyvc/" in t.tb_frame.f_code.co_filename or type(
                  e.obj).__module__.startswith("pyvc")):
        raise
    p.fail(name, repr(e))
    return None


class Obj:
  """Plain attributes"""

  def __init__(self, **k):
    self.__dict__.update(k)


class _Forward:

  def __call__(self, *a, **k):
    return self.target(*a, **k)


def lib(w, name, target):
  """Give a library function a contract, however it is imported. To be called
  before the module under verification is loaded"""
  parts = name.split(".")
  mod = w.fakes[parts[0]]
  for q in parts[1:-1]:
    mod = getattr(mod, q)
  f = vars(mod).get(parts[-1])
  if not isinstance(f, _Forward):
    f = _Forward()
    setattr(mod, parts[-1], f)
  f.target = target
  return target


class Roles:
  """Loop invariant over ghost state, independent of local names. roles(i, n)
  gives expressions at the point before iteration i; a local that equals one of
  them on entry is a candidate to keep doing so. arrays(i, n) gives conditions
  (element, *index) -> Bool that hold of every element; an array or list that
  the loop writes and of which one holds on entry is a candidate to keep doing
  so. Candidates that the loop does not preserve are dropped and the proof
  starts over, so that those left are an invariant"""

  def __init__(self, roles=lambda i, n: (), extra=lambda i, n: (), havoc=None,
               arrays=lambda i, n: (), match=None):
    self.roles, self.extra, self.hv = roles, extra, havoc
    self.arrays = arrays
    self.found = None
    if match:
      self.match = match

  def havoc_heap(self, L, i):
    if self.hv:
      self.hv(i)

  def havoc(self, L, name, value, i):
    if isinstance(value, (int, SInt)) and not isinstance(value, bool):
      js = [j for k, j in self.found if k == name]
      if js and not any(z3.is_int(self.r0[j]) for j in js):
        return SReal(fresh(name, "Real"))
    return S.auto_havoc(name, value)

  def _cands(self, L, i, n):
    """(key, condition)"""
    rs = self.roles(i, n)
    if self.start:
      self.r0 = rs
    for k in sorted(self.names):
      v = L.get(k)
      if not isinstance(v, (SReal, SInt)):
        if not isinstance(v, (int, float)) or isinstance(v, bool):
          continue
        v = lift(v)
      for j, e in enumerate(rs):
        if z3.is_real(e):
          yield (k, j), zreal(v) == e
        elif isinstance(v, SInt):
          yield (k, j), v.z == e
    for path, a in self.written:
      for j, c in enumerate(self.arrays(i, n)):
        if c is None:
          continue
        ar = c.__code__.co_argcount - 1
        if ar != (a.ndim if isinstance(a, N.SArr) else 1):
          continue
        e = a.at if isinstance(a, N.SArr) else a._get
        dims = a.shape if isinstance(a, N.SArr) else (a._n,)

        def body(*k, e=e, c=c, dims=dims):
          v = e(*k)
          if not V.is_num(v):
            return z3.BoolVal(False)
          return z3.Implies(
              z3.And(*[z3.And(x >= 0, x < N.zi(d)) for x, d in zip(k, dims)]),
              zbool(c(v, *k)))

        yield (path, j), S.All(ar, body)

  def preserve(self, L, i, n):
    for key, c in self._cands(L, i, n):
      if key in self.found and not S.inv_valid(cur(), c):
        cur().ex.learn(("drop", self.key), key)

  def inv(self, L, i, n):
    if self.start:
      dropped = cur().ex.memory.get(("drop", self.key), ())
      self.entry_L = L
      self.found = {
          key for key, c in self._cands(L, i, n)
          if key not in dropped and S.inv_valid(cur(), c)
      }
    for key, c in self._cands(L, i, n):
      if key in self.found:
        yield f"{'.'.join(key[0]) if isinstance(key[0], tuple) else key[0]}" \
            f" is role {key[1]}", c
    yield from self.extra(i, n)


class ForRoles(Roles, LoopSpec):
  pass


class WhileRoles(Roles, WhileSpec):
  pass


def sum_shift(p, x, c):
  """Lemma: sum(x - c) == sum(x) - n c, by induction on the number of
  summands (the sum of n elements being defined by recursion). Gives the sum
  of the differences"""
  n = N.zi(x.shape[0])
  d = N.SArr(x.shape, lambda i: SReal(zreal(x.at(i)) - c), "f")
  P = fresh_fn("PS", z3.IntSort(), z3.RealSort())
  D = fresh_fn("DS", z3.IntSort(), z3.RealSort())
  k = fresh("k")
  p.prove("lemma sum of differences: none", Implies(
      And(P(0) == 0, D(0) == 0), D(0) == P(0) - c * 0))
  p.prove("lemma sum of differences: one more", Implies(
      And(k >= 0, P(k + 1) == P(k) + zreal(x.at(k)),
          D(k + 1) == D(k) + zreal(d.at(k)), D(k) == P(k) - c * ToReal(k)),
      D(k + 1) == P(k + 1) - c * ToReal(k + 1)))
  sd, sx = N.reduce_sum(d), N.reduce_sum(x)
  p.assume(zreal(sd) == zreal(sx) - c * ToReal(n))
  return d


class Token:
  """An arbitrary value that the code under contract may only pass on: every
  other use is outside what the contract describes"""

  def __init__(self, name="v"):
    object.__setattr__(self, "_tok", name)

  def __repr__(self):
    return f"<{self._tok}>"

  def __getattribute__(self, k):
    if k in ("_tok", "__class__", "__repr__", "__dict__"):
      return object.__getattribute__(self, k)
    if k.startswith("__") or k in ("get_params", "set_params"):
      raise AttributeError(k)
    raise Unsupported(f"attribute {k} of an arbitrary value")

  def _no(self, *a, **k):
    raise Unsupported("an arbitrary value is inspected")

  __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
  __len__ = __iter__ = __getitem__ = __add__ = __radd__ = __mul__ = _no
  __contains__ = __call__ = __int__ = __float__ = __setattr__ = _no
  __hash__ = object.__hash__


def same_args(got, args, kwargs):
  """Delivered arguments are exactly these objects"""
  a, k = got
  return len(a) == len(args) and all(x is y for x, y in zip(a, args)) and \
      list(sorted(k)) == list(sorted(kwargs)) and all(
          k[n] is kwargs[n] for n in kwargs)
