"""C23: parallel fitting"""
import contracts.c11 as c11
from contracts.common import *  # noqa: F403
from pyvc import seq as S
from pyvc.fakes import FakeModule

T = "sample._training"
L = "sample.utils.learn"
NOTE = ("The worker pool is a contract: an asynchronous call is made exactly "
        "once and its handle gives the value of the function whenever asked; "
        "which handles are ready is arbitrary at every poll. The manager is a "
        "contract: it builds what was registered and forwards the exposed "
        "methods to it, until it is shut down. Locks exclude each other.")


class Fault(Exception):
  pass


class Interrupt(BaseException):
  """As a keyboard interrupt"""


# ---------------------------------------------------------------------------
# contracts of multiprocessing
# ---------------------------------------------------------------------------
class Result:
  """Handle of an asynchronous call"""

  def __init__(self, world, k, value):
    self.world, self.k, self.value = world, k, value

  def ready(self):
    w = self.world
    return SBool(w.READY(w.time, self.k))

  def wait(self, timeout=None):
    return None

  def get(self, timeout=None):
    return self.value()

  def successful(self):
    raise Unsupported("success of an asynchronous call")


class World:

  def __init__(self, p):
    self.p = p
    self.READY = fresh_fn("READY", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    self.time = z3.IntVal(0)
    self.count = 0
    self.pools, self.managers, self.faults = [], [], {}

  def fault(self, where):
    """An injected failure"""
    if where == "body" and "lost" in self.faults:
      for k in ("get_state", "get_params", "append", "reset"):
        self.faults[k] = self.faults["lost"]
    if self.faults.get(where):
      raise self.faults[where]


class Pool:
  """Contract of a pool of any number of processes"""

  def __init__(self, world, processes=None):
    world.fault("pool")
    self.world, self.up = world, True
    world.pools.append(self)

  def check(self):
    # not where the description of a call made earlier is looked at again
    if not self.up and not getattr(self.world.p, "muting", 0):
      raise ValueError("Pool not running")

  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    self.check()
    if callback or error_callback:
      raise Unsupported("callbacks of asynchronous calls")
    value = func(*args, **(kwds or {}))
    return Result(self.world, fresh("handle"), lambda: value)

  def starmap(self, func, it, chunksize=None):
    self.check()
    return S.vc_listcomp(lambda a: func(*a), it, None)

  def map(self, func, it, chunksize=None):
    return self.starmap(lambda x: func(x), S.vc_listcomp(
        lambda x: (x,), it, None))

  imap = map

  def starmap_async(self, func, it, chunksize=None):
    r = self.starmap(func, it)
    return Result(self.world, fresh("handle"), lambda: r)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.up = False

  def close(self):
    pass

  join = close

  def terminate(self):
    self.up = False


class Proxy:
  """Stands for an object that lives in the manager"""

  def __init__(self, manager, obj, exposed):
    self.__dict__.update(_manager=manager, _obj=obj, _exposed=tuple(exposed))

  def __getattr__(self, k):
    if k.startswith("__") or k not in self._exposed:
      raise AttributeError(k)
    f = getattr(self._obj, k)

    def call(*a, **kw):
      if not self._manager.up:
        raise ConnectionError("the manager is shut down")
      self._manager.world.fault(k)
      return f(*a, **kw)

    return call

  def __setattr__(self, k, v):
    raise Unsupported("attribute of a proxy is set")

  def __getitem__(self, key):
    if "__getitem__" not in self._exposed:
      raise TypeError("not subscriptable")
    if not self._manager.up:
      raise ConnectionError("the manager is shut down")
    return self._obj[key]

  def __call__(self, *a, **k):
    raise TypeError("proxies are not callable")


CURRENT = []


class _World:
  """That of the path under verification (modules are loaded once)"""

  def __getattr__(self, k):
    return getattr(CURRENT[-1], k)


def fake_mp():
  mp = FakeModule("multiprocessing")
  world = _World()

  class BaseManager:
    registry = {}

    def __init__(self, *a, **k):
      world.fault("manager")
      self.world, self.up = world, True
      world.managers.append(self)

    @classmethod
    def register(cls, typeid, callable=None, proxytype=None, exposed=None,
                 **kw):
      cls.registry = dict(cls.registry)
      cls.registry[typeid] = callable, exposed

      def make(self, *a, **k):
        if not self.up:
          raise ConnectionError("the manager is shut down")
        self.world.fault("create")
        return Proxy(self, callable(*a, **k), exposed)

      setattr(cls, typeid, make)

    def start(self, *a, **k):
      self.up = True

    def shutdown(self):
      self.up = False

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.up = False

  class SyncManager(BaseManager):
    pass

  mp.managers = FakeModule(
      "multiprocessing.managers", BaseManager=BaseManager,
      SyncManager=SyncManager, NamespaceProxy=object,
      public_methods=lambda o: [n for n in dir(o) if n[0] != "_" and callable(
          getattr(o, n))])
  mp.c23 = True
  mp.Pool = lambda *a, **k: Pool(world, *a, **k)
  mp.Manager = lambda: SyncManager()
  mp.cpu_count = lambda: SInt(fresh("cpu_count"))
  return mp


class Poll(WhileSpec):
  """Waiting: the handles that are not ready may be any, at any time"""

  def __init__(self, world):
    self.world = world

  def havoc(self, L, name, v, i):
    if isinstance(v, S.SSeq) or isinstance(v, list) and all(
        isinstance(x, Result) for x in v):
      n, H = fresh("pending"), fresh_fn("H", z3.IntSort(), z3.IntSort())
      self.world.p.assume(n >= 0)
      return S.SList(SInt(n), lambda k: Result(self.world, H(k), _nothing))
    return S.auto_havoc(name, v)

  def havoc_heap(self, L, i):
    self.world.time = fresh("time")


def _nothing():
  raise Unsupported("value of a handle that only the wait knows")


class Wait(LoopSpec):
  """A loop over the handles"""

  def match(self, L, seq):
    return isinstance(S.getter(S._seq(seq))(fresh("h")), Result)


def world(p, w):
  p.effects = []
  wd = World(p)
  CURRENT[:] = [wd]
  if "c23" not in vars(w.fakes["multiprocessing"]):
    w.fakes["multiprocessing"] = fake_mp()
  return wd


# ---------------------------------------------------------------------------
# asynchronous map
# ---------------------------------------------------------------------------
def each_once(p, n, check):
  """The log: one event for each of the n arguments, which check accepts"""
  log = p.effects
  if p.branch(N.zi(n) == 0):
    return p.prove("no calls without arguments", zbool(not log))
  if len(log) != 1 or log[0][0] != "each" or len(log[0][3]) != 1:
    return p.fail("each argument tuple is processed exactly once", repr(log))
  _, m, k, (ev,) = log[0]
  p.prove("each argument tuple is processed exactly once",
          And(N.zi(m) == N.zi(n), check(k, ev)))


@vc("C23", "asynchronous map: results in the order of the arguments",
    [f"{T}:_progress_starmap"], replay="starmap")
def starmap(p, w):
  wd = world(p, w)
  tr = w.load(T)
  n = length(p, "n", 0)
  A = fresh_fn("ARG", z3.IntSort(), z3.RealSort())
  F = fresh_fn("F", z3.RealSort(), z3.RealSort(), z3.RealSort())
  two = p.choose("list of arguments")
  args = lambda k: (SReal(A(k)), SReal(A(k) * 2))
  it = S.SList(n, args) if two else S.SSeq(n, args)

  def func(x, y):
    p.effects.append(("call", zreal(x), zreal(y)))
    return SReal(F(zreal(x), zreal(y)))

  p.loop_specs = [Poll(wd), Wait()]
  pool = Pool(wd)
  fa = tr.FitArgs()
  fa.progress_update = Rec()
  r = attempt(p, "no failure", lambda: tr._progress_starmap(
      pool, fa, func, it, *([0] if p.choose("no sleep") else [])))
  if r is None:
    return
  r, = r
  each_once(p, n, lambda k, e: And(e[0] == "call", e[1] == A(k),
                                   e[2] == A(k) * 2))
  p.prove("one result per argument tuple", N.zi(S.vlen(r)) == n.z)
  k = integer(p, "k").z
  p.assume(0 <= k, k < n.z)
  v = S.getter(r)(k)
  p.prove("the k-th result is that of the k-th arguments",
          zreal(v) == F(A(k), A(k) * 2))


@vc("C23", "progress-reporting map: all results of any map, in order",
    [f"{T}:FitArgs.starmap_progress"], replay="starmap")
def progress(p, w):
  tr = w.load(T)
  n = length(p, "n", 0)
  R = fresh_fn("R", z3.IntSort(), z3.RealSort())
  f, it = Token("function"), Token("arguments")
  got = []
  fa = tr.FitArgs(starmap=lambda *a: got.append(a) or S.SSeq(
      n, lambda k: None if none else SReal(R(k))))
  none = p.choose("results of None")
  fa.progress_update, fa.progress_start, fa.progress_stop = Rec(), Rec(), Rec()
  spec = c11.Gen()
  spec.p = p
  p.loop_specs = [spec]
  g = fa.starmap_progress(f, it, n) if p.choose("total") else \
      fa.starmap_progress(f, it)
  try:
    v = next(g)
  except StopIteration:
    return p.prove("stops only after the last result", spec.i == n.z)
  p.prove("one pass of the map over the arguments", zbool(
      len(got) == 1 and got[0][0] is f and got[0][1] is it))
  spec.got += 1
  p.prove("the i-th result", zbool(v is None) if none else
          zreal(v) == R(spec.i))
  try:
    next(g)
  except StopIteration:
    pass
  p.fail("one result each", "the generator ends early or yields twice")


# ---------------------------------------------------------------------------
# storages
# ---------------------------------------------------------------------------
KEYS = ("beat_decisor__intermediate", "sinusoidal__intermediate")


class Node:
  """Contract of an estimator: its parameters are attributes and can be read
  and set, nested ones as well, which asks every nested object for its own"""

  def __init__(self, _wd, **params):
    self.__dict__.update(params, _wd=_wd, _names=list(params), _log=[])

  def __setattr__(self, k, v):
    if k not in self._names:
      raise Unsupported(f"attribute {k} of a model")
    self.__dict__[k] = v
    self._log.append((k, v))

  def get_params(self, deep=True):
    out = {}
    for k in self._names:
      v = out[k] = self.__dict__[k]
      if deep and hasattr(v, "get_params"):
        out.update((f"{k}__{a}", b) for a, b in v.get_params().items())
    return out

  def set_params(self, **kw):
    valid = self.get_params(deep=True) if kw else {}
    for k, v in kw.items():
      k, _, sub = k.partition("__")
      if k not in self._names or sub and f"{k}__{sub}" not in valid:
        raise ValueError(f"Invalid parameter {k}")
      if sub:
        valid[k].set_params(**{sub: v})
        continue
      setattr(self, k, v)
      if isinstance(v, Proxy):
        self._wd.fault("set")
    return self

  @property
  def params(self):
    """Everything that can be set, however the manager does"""
    out = {}
    for k in self._names:
      v = out[k] = self.__dict__[k]
      if isinstance(v, Node):
        out.update((f"{k}__{a}", b) for a, b in v.params.items())
    return out

  @property
  def log(self):
    return [(k, v) for k, v in self._log] + [
        e for k in self._names if isinstance(self.__dict__[k], Node)
        for e in self.__dict__[k].log]


def models(p, wd, m):
  """A model with either or both or none of the storages, which have been used
  or not, are active or not"""
  nested = {"sinusoidal": {"n": 16}, "beat_decisor": {"th": 4}}
  for i, k in enumerate(KEYS):
    if p.choose(f"has {k}"):
      s = m.OptionalStorage(save=i == 1 or p.choose("active"))
      nested[k.partition("__")[0]]["intermediate"] = s
      if i == 0 or p.choose("used"):
        s.cache_ = {"old": [f"old{i}"]}
  return Node(wd, x=Node(wd, intermediate="other"), max_n_modes=3, **{
      k: Node(wd, **v) for k, v in nested.items()})


def inject(p, wd, body=True):
  """At most one failure, anywhere"""
  for where in ("manager", "pool", "create", "set", "get_state") + (
      ("body",) if body else ()):
    if p.choose(f"failure: {where}"):
      wd.faults[where] = (Interrupt if where == "body" and p.choose(
          "interrupt") else Fault)(where)
      if where == "body" and p.choose("the manager is lost, too"):
        wd.faults["lost"] = Fault("lost")
      return where
  return None


def restored(p, model, before, states, stored, failed):
  ok = lambda name, c: p.prove(name, zbool(bool(c)))
  ok("the model holds its original parameters again",
     set(model.params) == set(before) and all(
         model.params[k] is v for k, v in before.items()))
  for k, v in before.items():
    if k in KEYS:
      ok("the configuration of the original storage", v.save is states[k][0])
      if not failed:
        want = {"k": stored[k]} if k in stored and v.save else {}
        got = v.get_state()
        ok("on success it contains what was stored meanwhile",
           {a: b for a, b in got.items() if a == "k"} == want)


def during(p, model, before, wd, stored):
  """What workers see and do while fitting"""
  ok = lambda name, c: p.prove(name, zbool(bool(c)))
  for i, k in enumerate(KEYS):
    if k not in before:
      continue
    s = model.params[k]
    ok("the storage is a shared one", isinstance(s, Proxy) and
       s._manager.up)
    if not isinstance(s, Proxy):
      continue
    ok("with the same configuration",
       isinstance(s._obj.save, bool) and s._obj.save is before[k].save)
    ok("of the same methods", all(hasattr(s, a) for a in (
        "append", "get_state", "reset", "get_params")))
    ok("the value is returned", s.append("k", 10 + i, index=0) == 10 + i)
    s.append("k", f"second{i}")
    stored[k] = [10 + i, f"second{i}"]
  ok("nothing else changes", all(
      model.params[k] is v for k, v in before.items() if k not in KEYS))
  wd.fault("body")


@vc("C23", "storages during and after parallel fitting", [
    f"{T}:sample_training_context", f"{T}:_wrap_as_managed",
    f"{T}:_OptionalStorageManager", f"{L}:OptionalStorage.get_state"],
    replay="context", max_paths=60000)
def context(p, w):
  wd = world(p, w)
  tr = w.load(T)
  m = w.load(L)
  given_pool = Pool(wd) if p.choose("pool given") else None
  given_man = None
  if p.choose("manager given"):
    given_man = tr._OptionalStorageManager()
  p.loop_specs = [Poll(wd), Wait()]
  model = models(p, wd, m)
  before = model.params
  states = {k: (v.save, v.get_state()) for k, v in before.items()
            if k in KEYS}
  kw = {}
  if given_pool is not None:
    kw["pool"] = given_pool
  if given_man is not None:
    kw["mp_manager"] = given_man
  jobs = "default" if p.choose("default jobs") else 0 if p.choose(
      "no jobs") else 3
  if jobs != "default":
    kw["n_jobs"] = jobs
  par = given_pool is not None or jobs not in ("default", 0)
  mine = tr.FitArgs()
  if p.choose("arguments given"):
    mine.starmap = Token("map")
    mine.mark = Token("mark")
    kw["_fit_args"] = mine
  where = inject(p, wd)
  bodies, stored, err = [], {}, None
  ok = lambda name, c: p.prove(name, zbool(bool(c)))
  try:
    with tr.sample_training_context(model, **kw) as fa:
      bodies.append(fa)
      if par:
        during(p, model, before, wd, stored)
        used = wd.pools[0]
        calls = [(1, "a"), (2, "b"), (3, "c")]
        done = []
        got = list(fa.starmap(lambda a, b: done.append(a) or (b, a), calls))
        ok("the map applies the function to each arguments once",
           sorted(done) == [1, 2, 3])
        ok("the map keeps the order", got == [("a", 1), ("b", 2), ("c", 3)])
        ok("pool alive", used.up)
      else:
        ok("sequential fitting changes nothing", not model.log and
           not wd.pools and len(wd.managers) == (given_man is not None))
        wd.fault("body")
      if "_fit_args" in kw:
        ok("the given arguments are passed on", getattr(
            fa, "mark", None) is mine.mark)
  except (Fault, Interrupt) as e:
    err = e
  ok("a failure is passed on", where is None or err is wd.faults[where] or (
      err is None and not relevant(where, par, kw, before)))
  ok("no failure of its own", err is None or err is wd.faults.get(where))
  ok("the body runs once", len(bodies) == 1 or err is not None and
     where != "body" and not bodies)
  restored(p, model, before, states, stored, err is not None)
  if par or err is not None:
    ok("the given arguments are left alone",
       "_fit_args" not in kw or type(mine.starmap) is Token)


def relevant(where, par, kw, before):
  """The failure must have been met"""
  if where == "body":
    return True
  if not par:
    return False
  if where == "manager":
    return "mp_manager" not in kw
  if where == "pool":
    return "pool" not in kw
  return any(k in before for k in KEYS) if where in ("create", "set") else False


# ---------------------------------------------------------------------------
# concurrent workers
# ---------------------------------------------------------------------------
class Monitor:
  """Which locks are held; every access to shared data is checked"""

  def __init__(self):
    mon = self
    self.start(None)

    class Lock:

      def __init__(self, *a, **k):
        self.n = 0

      def acquire(self, *a, **k):
        if self.n and not self.reentrant:
          mon.p.fail("no deadlock", "the lock is taken twice")
        self.n += 1
        mon.held.append(self)
        return True

      def release(self):
        if self not in mon.held:
          raise RuntimeError("release unlocked lock")
        self.n -= 1
        mon.held.remove(self)

      def __enter__(self):
        return self.acquire()

      def __exit__(self, *a):
        self.release()

      reentrant = False

    class RLock(Lock):
      reentrant = True

    import threading
    self.module = FakeModule("threading")
    for k in dir(threading):
      if not k.startswith("__"):
        setattr(self.module, k, getattr(threading, k))
    self.module.Lock, self.module.RLock = Lock, RLock
    self.Lock = Lock

  def start(self, p):
    self.p, self.held, self.common, self.on = p, [], None, False

  def access(self, what):
    if not self.on:
      return
    self.common = set(self.held) if self.common is None else (
        self.common & set(self.held))
    self.p.prove("shared data are used by one worker at a time",
                 zbool(bool(self.common)))


MONITOR = Monitor()


def watched(mon, obj):
  """The object, its accesses checked"""
  cls = type(obj)

  class Watched(cls):

    def __getattribute__(self, k):
      v = object.__getattribute__(self, k)
      if k in object.__getattribute__(self, "__dict__") and not isinstance(
          v, (bool, mon.Lock)):
        mon.access(k)
      return v

    def __getattr__(self, k):
      mon.access(k)
      raise AttributeError(k)

    def __setattr__(self, k, v):
      mon.access(k)
      object.__setattr__(self, k, v)

    def __delattr__(self, k):
      mon.access(k)
      object.__delattr__(self, k)

  obj.__class__ = Watched
  return obj


class TList(list):

  def __deepcopy__(self, memo):
    self.mon.access("copy")
    return list(self)


class TDict(dict):

  def __deepcopy__(self, memo):
    self.mon.access("copy")
    return {k: list(v) for k, v in dict.items(self)}


def _tracked(cls, names):
  for nm in names:

    def f(self, *a, nm=nm, base=cls.__mro__[1], **k):
      self.mon.access(nm)
      return getattr(base, nm)(self, *a, **k)

    setattr(cls, nm, f)


_tracked(TList, ("append", "extend", "__setitem__", "__len__", "insert",
                 "__iadd__", "__getitem__"))
_tracked(TDict, ("__setitem__", "__getitem__", "__contains__", "get", "pop",
                 "setdefault", "keys", "items", "clear", "update"))


def track(mon, d):
  t = TDict()
  t.mon = mon
  for k, v in d.items():
    l = TList(v)
    l.mon = mon
    dict.__setitem__(t, k, l)
  return t


@vc("C23", "shared storage: its operations exclude each other",
    [f"{T}:_OptionalStorageManager", f"{T}:_SharedStorage",
     f"{L}:OptionalStorage"], replay="shared", max_paths=4000)
def exclusion(p, w):
  wd = world(p, w)
  mon = MONITOR
  mon.start(p)
  w.fakes["threading"] = mon.module
  tr = w.load(T)
  m = w.load(L)
  f, exposed = tr._OptionalStorageManager.registry["OptionalStorage"]
  st = f(save=p.choose("active"))
  p.prove("it is a storage", zbool(isinstance(st, m.OptionalStorage)))
  if p.choose("used"):
    st.cache_ = track(mon, {"a": [1, 2], "b": []})
  watched(mon, st)
  mon.on = True
  for _ in range(2):
    op = next((o for o in ("append", "index", "beyond", "state", "reset",
                           "item") if p.choose(o)), "missing")
    try:
      if op == "append":
        st.append("a", 3)
      elif op == "index":
        st.append("a", 3, index=0)
      elif op == "beyond":
        st.append("c", 3, index=4)
      elif op == "state":
        # a copy is made before the result is sent to the client
        s = st.get_state()
        p.prove("the state handed out is not shared", zbool(
            not isinstance(s, TDict)))
      elif op == "reset":
        st.reset()
      else:
        st["a" if op == "item" else "zzz"]
    except (KeyError, IndexError):
      pass
    p.prove("the lock is released", zbool(not mon.held))
  mon.on = False


@vc("C23", "stores at different indices commute",
    [f"{L}:OptionalStorage.append"], replay="shared", max_paths=4000)
def commute(p, w):
  from contracts import c25
  m = w.load(L)
  p.sym_lists = True
  has = p.choose("has key")
  n = length(p, "n", 1)
  sts = []
  for _ in range(2):
    st = m.OptionalStorage(save=True)
    if has:
      st.append("key", Token("seed"))
      st.get_state(deepcopy=False)["key"].replace(
          n, lambda k: c25.Elem("key", k))
    sts.append(st)
  a, b = Token("a"), Token("b")
  i, j = integer(p, "i", lo=0), integer(p, "j", lo=0)
  p.assume(i.z != j.z)
  sts[0].append("key", a, index=i)
  sts[0].append("key", b, index=j)
  sts[1].append("key", b, index=j)
  sts[1].append("key", a, index=i)
  l0, l1 = sts[0]["key"], sts[1]["key"]
  N0 = N.zi(S.vlen(l0))
  p.prove("same length", N0 == N.zi(S.vlen(l1)))
  old = n.z if has else z3.IntVal(0)
  hi = lambda x, y: z3.If(x < y, y, x)
  p.prove("length", N0 == hi(old, hi(i.z + 1, j.z + 1)))
  k = integer(p, "k").z
  p.assume(0 <= k, k < N0)
  x, y = l0[SInt(k)], l1[SInt(k)]
  ok = lambda name, c: p.prove(name, zbool(bool(c)))
  if p.branch(k == i.z):
    ok("one worker's value", x is a and y is a)
  elif p.branch(k == j.z):
    ok("the other worker's value", x is b and y is b)
  elif has and p.branch(k < n.z):
    c25.is_elem(p, "earlier values", x, "key", k)
    c25.is_elem(p, "earlier values", y, "key", k)
  else:
    ok("gaps", x is None and y is None)


# ---------------------------------------------------------------------------
# fit
# ---------------------------------------------------------------------------
def fit_world(p, w, wd, C, res, n, par):
  """SAMPLE.fit on n tracks with the analysis and the per-track fit by their
  contracts"""
  tr = w.load(T)

  def progress_(self, func, it, tot=None):
    # contract proved above
    return self.starmap(func, it)

  w.patch(tr.FitArgs, "starmap_progress", progress_)
  m = w.load(L)
  xs = array(p, "x", (length(p, "nx", 0),))
  tracks = S.SList(n, lambda k: ("track", SInt(k)))
  base = w.imp("sklearn.base", fromlist=("x",))

  class Sin(base.BaseEstimator):

    def __init__(self, intermediate=None):
      self.intermediate = intermediate

    def time_frames(self, x):
      return N.zeros((3, 4))

    def fit(self, x, y=None, **kw):
      self.intermediate.append("stft", "frame")
      return self

    @property
    def tracks_(self):
      return tracks

  st = m.OptionalStorage(save=True)
  mod = C(sinusoidal=Sin(st))

  def one(i, x, t):
    kind, k = t
    p.effects.append(("fit", zint(i)))
    p.prove("track, index and signal belong together", And(
        zint(i) == zint(k), zbool(kind == "track" and x is xs)))
    return res(zint(k))

  mod._track_preprocess_and_fit = one
  p.loop_specs = [Poll(wd), Wait()]
  kw = {}
  if par == "pool":
    kw["pool"] = Pool(wd)
  elif par:
    kw["n_jobs"] = 5
  r = attempt(p, "no failure", lambda: mod.fit(xs, **kw))
  if r is None:
    return None
  p.prove("returns itself", zbool(r[0] is mod))
  each_once(p, n, lambda k, e: And(e[0] == "fit", e[1] == k))
  p.prove("the original storage is back", zbool(
      mod.sinusoidal.intermediate is st))
  p.prove("with what was stored", zbool(
      st.get_state() == {"stft": ["frame"]}))
  return mod


for _cls, _rows in (("SAMPLE", 3), ("SAMPLEBeatsDROP", 4)):
  for _par in ("", "jobs", "pool"):

    @vc("C23", f"{_cls}: every track once, columns in track order "
        f"({_par or 'sequential'})",
        ["sample.sample:SAMPLE.fit", f"{T}:sample_training_context",
         f"{T}:_progress_starmap", f"{T}:_wrap_as_managed"], replay="fit",
        max_paths=4000)
    def fit(p, w, _cls=_cls, _rows=_rows, _par=_par):
      wd = world(p, w)
      C = w.load("sample.sample").SAMPLE if _rows == 3 else w.load(
          "sample.beatsdrop.sample").SAMPLEBeatsDROP
      n = length(p, "n", 0)
      E = c11.entries(_rows, 1)
      mod = fit_world(p, w, wd, C, lambda k: (E(k),), n, _par)
      if mod is None:
        return
      fin = lambda k: Not(Or(*[V.nan_of(v) for v in E(k)]))
      c, K, _ = N.enum_mask(N.SArr((n,), lambda k: SBool(fin(k)), "b"))

      def spec(r, j):
        v = E(K(j))
        out = v[-1]
        for q in range(_rows - 2, -1, -1):
          out = V.ite(r == q, v[q], out)
        return out

      prove_array(p, "columns", mod.param_matrix_, (_rows, c), spec)
