"""C25: default members and intermediate-value storages"""
from contracts.common import *  # noqa: F403

M = "sample.utils.learn"
NOTE = ("Values and parents are arbitrary objects that are only passed on. A "
        "storage is described by one list of symbolic length and content "
        "under the key in use and one under another key (each of them possibly "
        "absent); every operation is proved on every such state, and so are, "
        "by induction, all sequences of operations.")


def ok(p, name, c):
  p.prove(name, zbool(bool(c)))


class Elem(Token):
  """Element of a stored list: the value at a (z3) index of it, or its copy"""

  def __init__(self, of, k):
    Token.__init__(self, f"{of}[{k}]")
    object.__setattr__(self, "_of", (of, k))

  def __getattribute__(self, k):
    return object.__getattribute__(self, k) if k == "__deepcopy__" else \
        Token.__getattribute__(self, k)

  def __deepcopy__(self, memo):
    e = Elem(*elem(self))
    object.__setattr__(e, "_copied", True)
    return e


def elem(e):
  return object.__getattribute__(e, "_of") if type(e) is Elem else None


def copied(e):
  return type(e) is Elem and "_copied" in object.__getattribute__(
      e, "__dict__")


def is_elem(p, name, e, of, k):
  t = elem(e)
  if t is None or t[0] != of:
    return p.fail(name, f"{e!r} instead of element {k} of {of}")
  p.prove(name, t[1] == k)


def put(p, st, key, name=None):
  """Give the storage an arbitrary list under the key"""
  st.append(key, Token("seed"))
  l = st.get_state(deepcopy=False)[key]
  if not isinstance(l, S.SList):
    raise Unsupported("the storage does not hold live lists")
  n = length(p, f"n_{name or key}", lo=1)
  l.replace(n, lambda k: Elem(name or key, k))
  return n


def storage(p, w):
  """A storage with arbitrary content: (storage, {key: length})"""
  m = w.load(M)
  p.sym_lists = True
  st = m.OptionalStorage(save=True)
  ns = {}
  for key in ("key", "other"):
    if p.choose(f"has {key}"):
      ns[key] = put(p, st, key)
  st.set_params(save=True)
  return m, st, ns


def lists(p, st, ns, but=()):
  """Content of the storage is as it was"""
  s = st.get_state(deepcopy=False)
  for key in ("key", "other"):
    if key in but:
      continue
    if key not in ns:
      ok(p, f"nothing appears under {key}", key not in s)
      continue
    ok(p, f"{key} still stored", key in s)
    l = st[key]
    p.prove(f"{key} length", N.zi(S.vlen(l)) == N.zi(ns[key]))
    k = integer(p, f"k_{key}").z
    p.assume(0 <= k, k < N.zi(ns[key]))
    is_elem(p, f"{key} elements", l[SInt(k)], key, k)
  ok(p, "no other key", set(s) <= {"key", "other"})


@vc("C25", "storage appends in order", [f"{M}:OptionalStorage.append",
                                        f"{M}:OptionalStorage.__getitem__"],
    replay="history", max_paths=2000)
def append(p, w):
  m, st, ns = storage(p, w)
  v = Token("value") if p.choose("value") else None
  f = st if p.choose("call") else st.append
  r = f("key", v) if p.choose("positional") else f(key="key", value=v)
  ok(p, "the value is returned", r is v)
  lists(p, st, ns, but=("key",))
  l = st["key"]
  n = N.zi(ns.get("key", 0))
  p.prove("one more element", N.zi(S.vlen(l)) == n + 1)
  k = integer(p, "k").z
  p.assume(0 <= k, k <= n)
  e = l[SInt(k)]
  if p.branch(k == n):
    ok(p, "the value is last", e is v)
  else:
    is_elem(p, "previous elements in order", e, "key", k)


@vc("C25", "storage appends at an index", [f"{M}:OptionalStorage.append",
                                           f"{M}:OptionalStorage.__getitem__"],
    replay="history", max_paths=4000)
def at_index(p, w):
  m, st, ns = storage(p, w)
  v = Token("value") if p.choose("value") else None
  i = 0 if p.choose("at zero") else integer(p, "i", lo=0)
  r = st.append("key", v, index=i) if p.choose("keyword") else st(
      "key", v, i)
  ok(p, "the value is returned", r is v)
  lists(p, st, ns, but=("key",))
  l = st["key"]
  n, i = N.zi(ns.get("key", 0)), N.zi(i)
  p.prove("length", N.zi(S.vlen(l)) == z3.If(i < n, n, i + 1))
  k = integer(p, "k").z
  p.assume(0 <= k, z3.Or(k < n, k <= i))
  e = l[SInt(k)]
  if p.branch(k == i):
    ok(p, "the value is at the index", e is v)
  elif p.branch(k < n):
    is_elem(p, "other elements in place", e, "key", k)
  else:
    ok(p, "the gap is filled with None", e is None)


@vc("C25", "inactive storage", [f"{M}:OptionalStorage.append"],
    replay="history")
def inactive(p, w):
  m, st, ns = storage(p, w)
  if p.choose("default"):
    st, ns = m.OptionalStorage(), {}
    ok(p, "inactive by default", st.save is False)
  else:
    st.set_params(save=False)
  v = Token("value")
  i = integer(p, "i", lo=0) if p.choose("indexed") else None
  ok(p, "the value is returned", st.append("key", v, i) is v)
  lists(p, st, ns)


@vc("C25", "storage reset and missing keys", [
    f"{M}:OptionalStorage.reset", f"{M}:OptionalStorage.get_state",
    f"{M}:OptionalStorage.__getitem__"], replay="history")
def reset(p, w):
  m, st, ns = storage(p, w)
  if "key" not in ns:
    ok(p, "missing key", raises(lambda: st["key"], KeyError))
  st.reset()
  for dc in (True, False):
    ok(p, "empty after a reset", not st.get_state(deepcopy=dc))
  ok(p, "no key after a reset", raises(lambda: st["key"], KeyError))
  st.reset()
  ok(p, "resetting twice", not st.get_state())
  st.append("key", v := Token("value"))
  ok(p, "usable after a reset", S.vlen(st["key"]) == 1 and st["key"][0] is v)


@vc("C25", "state handed out is a copy", [f"{M}:OptionalStorage.get_state",
                                          f"{M}:OptionalStorage.append"],
    replay="history", max_paths=4000)
def state(p, w):
  m, st, ns = storage(p, w)
  s = st.get_state() if p.choose("default") else st.get_state(deepcopy=True)
  # a later addition
  i = integer(p, "i", lo=0) if p.choose("indexed") else None
  if p.choose("then reset"):
    st.reset()
  st.append("key", Token("value"), i)
  ok(p, "no new key in the copy", set(s) == set(ns))
  for key, n in ns.items():
    p.prove(f"{key} length", N.zi(S.vlen(s[key])) == N.zi(n))
    k = integer(p, f"k_{key}").z
    p.assume(0 <= k, k < N.zi(n))
    e = s[key][SInt(k)]
    is_elem(p, f"{key} elements", e, key, k)
    ok(p, f"{key} elements are copies", copied(e))


# ---------------------------------------------------------------------------
# default properties
# ---------------------------------------------------------------------------
def falsy(p):
  """An explicit value"""
  for v in (0, "", False, [], ()):
    if p.choose(f"value {v!r}"):
      return v
  return Token("explicit")


def owner(p, m):
  """A class with two default properties: (class, log of defaults built)"""
  log = []

  def member(self):
    """Documentation"""
    log.append(("member", self, Token("default")))
    return log[-1][2]

  def second(self):
    log.append(("second", self, Token("default")))
    return log[-1][2]

  kind = "plain" if p.choose("decorator") else "call" if p.choose(
      "call") else "named"
  if kind == "plain":
    d, d2 = m.default_property(member), m.default_property(second)
  elif kind == "call":
    d, d2 = m.default_property()(member), m.default_property()(second)
  else:
    d = m.default_property(name="member")(lambda self: member(self))
    d2 = m.default_property(lambda self: second(self), name="second")
  cls = type("Owner", (), {
      "__init__": lambda self, member=None, second=None: (
          setattr(self, "member", member), setattr(self, "second", second),
          None)[-1],
      "member": d, "second": d2})
  if kind == "plain":
    ok(p, "documentation", d.__doc__ == "Documentation")
  return cls, log


@vc("C25", "default members", [f"{M}:default_property", f"{M}:_DefaultProperty"],
    replay="members", max_paths=3000)
def members(p, w):
  m = w.load(M)
  cls, log = owner(p, m)
  explicit = p.choose("explicit")
  v = falsy(p) if explicit else None
  a = cls(v) if explicit else cls()
  n = len(log)
  if explicit:
    ok(p, "explicit value kept", a.member is v and a.member is v)
    ok(p, "no default built for it", all(l[0] != "member" for l in log))
  else:
    ok(p, "one default built for the object on set", sum(
        l[0] == "member" and l[1] is a for l in log) == 1)
    ok(p, "it is the value", a.member is next(
        l[2] for l in log if l[0] == "member"))
    ok(p, "again", a.member is a.member)
  ok(p, "second member has its own", a.second is next(
      l[2] for l in log if l[0] == "second" and l[1] is a))
  ok(p, "nothing built on get", len(log) == n)
  old = a.member, a.second
  b = cls()
  ok(p, "another object has its own", b.member is not a.member and
     b.second is not a.second and b.member is next(
         l[2] for l in log if l[0] == "member" and l[1] is b))
  ok(p, "and leaves the first alone", a.member is old[0] and
     a.second is old[1])
  if p.choose("set again"):
    a.member = None
    ok(p, "a new default on every set", a.member is log[-1][2] and
       log[-1][1] is a and a.member is not old[0])
  else:
    x = Token("later")
    n = len(log)
    a.member = x
    ok(p, "explicit value on set", a.member is x and len(log) == n)
  ok(p, "the others are unaffected", a.second is old[1])


@vc("C25", "default condition", [f"{M}:_DefaultProperty.defaulter",
                                 f"{M}:_DefaultProperty"],
    replay="members", max_paths=3000)
def condition(p, w):
  m = w.load(M)
  log, asked = [], []
  answer = p.choose("condition holds")
  v = Token("explicit") if p.choose("value") else None

  def member(self):
    log.append((self, Token("default")))
    return log[-1][1]

  def cond(parent, x):
    asked.append((parent, x))
    return answer

  class Owner:
    pass

  how = "init" if p.choose("init") else "later" if p.choose("later") else "off"
  if how == "init":
    Owner.member = m.default_property(fdef=cond)(member)
  else:
    Owner.member = m.default_property(member)
    Owner.member.__class__  # the class gives the property itself
    d = vars(Owner)["member"]
    d.defaulter(cond) if how == "later" else d.defaulter()
  a = Owner()
  a.member = v
  if how == "off":
    ok(p, "constant defaulter never sets the default", a.member is v and
       not log)
    return
  ok(p, "condition asked about the object and the value",
     len(asked) >= 1 and all(q[0] is a and q[1] is v for q in asked))
  if answer:
    ok(p, "default", len(log) == 1 and log[0][0] is a and
       a.member is log[0][1])
  else:
    ok(p, "value", a.member is v and not log)


@vc("C25", "forbidden names", [f"{M}:_DefaultProperty.__init__"],
    replay="members")
def names(p, w):
  m = w.load(M)

  def _(self):
    return None

  class NoName:
    __call__ = lambda self, parent: None

  f = (lambda self: None) if p.choose("lambda") else _ if p.choose(
      "underscore") else NoName()
  ok(p, "ambiguous names are rejected",
     raises(lambda: m.default_property(f), ValueError))
  d = m.default_property(f, name="given")
  a = type("Owner", (), {"given": d})()
  a.given = x = Token("x")
  ok(p, "explicit names are accepted", a.given is x)


CLASSES = [("sample.sample", "SAMPLE", ("sinusoidal", "regressor")),
           ("sample.sms.sm", "SinusoidalModel", ("intermediate", "tracker")),
           ("sample.sms.mm", "ModalModel", ("intermediate", "tracker")),
           ("sample.hinge", "HingeRegression", ("linear_regressor",)),
           ("sample.beatsdrop.sample", "SAMPLEBeatsDROP",
            ("beatsdrop", "beat_decisor")),
           ("sample.optimize", "SAMPLEOptimizer", ("model",))]


@vc("C25", "members of the models", [f"{c[0]}:{c[1]}.{a}" for c in CLASSES
                                     for a in c[2]], replay="models")
def models(p, w):
  i = next((i for i in range(len(CLASSES) - 1) if p.choose(CLASSES[i][1])),
           len(CLASSES) - 1)
  mod, name, attrs = CLASSES[i]
  cls = getattr(w.load(mod), name)
  a, b = cls(), cls()
  for at in attrs:
    x, y = getattr(a, at), getattr(b, at)
    ok(p, f"{at} is built", x is not None and y is not None)
    ok(p, f"{at} is not shared", x is not y)
    ok(p, f"{at} is stable", getattr(a, at) is x and getattr(b, at) is y)
    t = Obj()
    c = cls(**{at: t})
    ok(p, f"explicit {at} is kept", getattr(c, at) is t)
    if at in ("intermediate", "tracker"):
      ok(p, f"{at} state is not shared", all(
          vars(x)[n] is not vars(y)[n] for n in vars(x)
          if isinstance(vars(x)[n], (list, dict, S.SList))))
