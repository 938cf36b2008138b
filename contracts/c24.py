"""C24: adapters of arguments"""
import inspect
import warnings

from contracts.common import *  # noqa: F403

U = "sample.utils"
NOTE = ("Argument values are arbitrary objects that are only passed on; names "
        "are represented by their relation to the deprecated name (the same, "
        "the new name, the same prefix, unrelated), with up to two positional "
        "and two unrelated keyword arguments.")


def ok(p, name, c):
  p.prove(name, zbool(bool(c)))


def caught(f):
  """(result or exception, warnings)"""
  with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    try:
      r = f()
    except RuntimeError as e:
      r = e
  return r, ws


def others(p, names=("x", "y")):
  """Positional and unrelated keyword arguments"""
  a = [Token(f"a{i}") for i in range(2)]
  n = 0 if p.choose("none") else 1 if p.choose("one") else 2
  k = {m: Token(m) for m in names if p.choose(m)}
  return a[:n], k


def names_warning(m, ws, old):
  return len(ws) == 1 and issubclass(
      ws[0].category, m.SAMPLEDeprecationWarning) and issubclass(
          ws[0].category, DeprecationWarning) and \
      f"'{old}'" in str(ws[0].message)


def target(p):
  """The wrapped function: returns a value or raises"""
  res = RuntimeError("wrapped") if p.choose("raises") else Token("result")
  calls = []

  def func(*a, **k):
    """Documentation"""
    calls.append((a, k))
    if isinstance(res, RuntimeError):
      raise res
    return res

  return func, calls, res


@vc("C24", "deprecated keyword with a new name", [f"{U}:deprecated_argument"],
    replay="rename", max_paths=3000)
def rename(p, w):
  m = w.load(U)
  func, calls, res = target(p)
  warn = not p.choose("silent")
  kw = {} if warn else {"warn": False}
  if p.choose("msg"):
    kw["msg"] = "More indications"
  g = m.deprecated_argument("old", "new", **kw)(func)
  a, k = others(p, ("x", "old_x"))
  use = p.choose("used")
  v = Token("old")
  exp = dict(k)
  if use:
    exp["new"] = v
  elif p.choose("new used"):
    exp["new"] = k["new"] = Token("new")
  caller = dict(k, **({"old": v} if use else {}))
  kept = dict(caller)
  r, ws = caught(lambda: g(*a, **caller))
  ok(p, "called once, value under its new name, others untouched",
     len(calls) == 1 and same_args(calls[0], a, exp))
  ok(p, "result or exception of the function", r is res)
  ok(p, "the caller's dictionary is unmodified", list(caller) == list(
      kept) and all(caller[n] is kept[n] for n in kept))
  if use and warn:
    ok(p, "one deprecation warning naming it", names_warning(m, ws, "old"))
    ok(p, "and the new name", "'new'" in str(ws[0].message))
    if "msg" in kw:
      ok(p, "and the indications", kw["msg"] in str(ws[0].message))
  else:
    ok(p, "no warning", not ws)
  ok(p, "name and documentation", g.__name__ == "func" and
     g.__doc__ == func.__doc__)


@vc("C24", "deprecated keyword with a conversion",
    [f"{U}:deprecated_argument"], replay="convert", max_paths=3000)
def convert(p, w):
  m = w.load(U)
  func, calls, res = target(p)
  v, v2 = Token("old"), Token("converted")
  seen = []

  def conv(*a, **k):
    seen.append((a, k))
    return "other", v2

  kw = {"new_key": "new"} if p.choose("new key too") else {}
  warn = not p.choose("silent")
  if not warn:
    kw["warn"] = False
  g = m.deprecated_argument("old", convert=conv, **kw)(func)
  a, k = others(p)
  use = p.choose("used")
  caller = dict(k, **({"old": v} if use else {}))
  r, ws = caught(lambda: g(*a, **caller))
  exp = dict(k, **({"other": v2} if use else {}))
  ok(p, "called once with the converted pair, others untouched",
     len(calls) == 1 and same_args(calls[0], a, exp))
  ok(p, "result or exception of the function", r is res)
  ok(p, "conversion of the arguments as given", len(seen) == use and (
      not use or same_args(seen[0], a, caller)))
  ok(p, "one deprecation warning naming it", names_warning(
      m, ws, "old") if use and warn else not ws)
  if use and warn:
    ok(p, "and the new name", "'other'" in str(ws[0].message))


@vc("C24", "deprecated prefix", [f"{U}:deprecated_argument"],
    replay="prefix", max_paths=4000)
def prefix(p, w):
  m = w.load(U)
  func, calls, res = target(p)
  new = "" if p.choose("empty") else "fresh_"
  g = m.deprecated_argument("old_", new, prefix=True)(func)
  a, k = others(p, ("x", "not_old_y"))
  used = [n for n in ("old_p", "old_q", "old_old_r") if p.choose(n)]
  toks = {n: Token(n) for n in used}
  r, ws = caught(lambda: g(*a, **k, **toks))
  exp = dict(k, **{new + n[len("old_"):]: t for n, t in toks.items()})
  ok(p, "called once, values under their new names, others untouched",
     len(calls) == 1 and same_args(calls[0], a, exp))
  ok(p, "result or exception of the function", r is res)
  ok(p, "one warning for each", len(ws) == len(used) and all(
      any(names_warning(m, [x], n) and f"'{new + n[4:]}'" in str(x.message)
          for x in ws) for n in used))


@vc("C24", "deprecation needs a new name or a conversion",
    [f"{U}:deprecated_argument"])
def bad(p, w):
  m = w.load(U)
  for kw in ({}, {"prefix": True}, {"prefix": True, "convert": lambda *a: a}):
    e = raises(lambda kw=kw: m.deprecated_argument("old", **kw), ValueError)
    ok(p, "rejected", e is not None)


@vc("C24", "default keyword arguments", [f"{U}:default_kws"],
    replay="defaults", max_paths=3000)
def defaults(p, w):
  m = w.load(U)
  names = ("a", "b", "c")
  given = {n: None if p.choose(n + " none") else Token("g" + n)
           for n in names if p.choose("given " + n)}
  dflt = {n: Token("d" + n) for n in names if p.choose("default " + n)}
  d = dict(given)
  if not given and p.choose("none given"):
    d = None
  r = m.default_kws(d, **dflt)
  exp = dict(dflt, **given)
  ok(p, "the caller's values, then the defaults", type(r) is dict and set(
      r) == set(exp) and all(r[n] is exp[n] for n in exp))
  ok(p, "the caller's dictionary is unmodified", d is None or r is not d and
     set(d) == set(given) and all(d[n] is given[n] for n in given))
  ok(p, "a new dictionary each time", m.default_kws(d, **dflt) is not r)


@vc("C24", "functions with variants",
    [f"{U}:function_with_variants", f"{U}:function_variant",
     f"{U}:add_keyword_arg"], replay="variants", max_paths=3000)
def variants(p, w):
  m = w.load(U)
  func, calls, res = target(p)
  has_this = p.choose("this")
  this = "main" if has_this else None
  default = "main" if has_this and p.choose("default is this") else "one"
  g = m.function_with_variants(func, key="mode", default=default, this=this)
  logs = {"one": [], "two": []}
  outs = {n: Token(n) for n in logs}

  def variant(n):

    def f(*a, **k):
      logs[n].append((a, k))
      return outs[n]

    return f

  for n in logs:
    f = variant(n)
    ok(p, "a registered variant stays itself",
       m.function_variant(g, n)(f) is f)
  a, k = others(p)
  if p.choose("mode given"):
    mode = "main" if p.choose("main") else "one" if p.choose("one") else \
        "two" if p.choose("two") else "unknown" if p.choose("unknown") else \
        None if p.choose("nothing") else ""
    kw = dict(k, mode=mode)
  else:
    mode, kw = default, k
  err = None
  try:
    r = g(*a, **kw)
  except RuntimeError as e:
    r = e
  except ValueError as e:
    err = e
  logs["main"], outs["main"] = calls, res
  known = mode in ("one", "two") or mode == "main" and has_this
  if not known:
    ok(p, "unknown variants are rejected", err is not None)
    ok(p, "naming the option", f"'{mode}'" in str(err))
  else:
    ok(p, "result of the variant", err is None and r is outs[mode])
  for n, l in logs.items():
    if known and n == mode:
      ok(p, "the selected variant is called once with the arguments",
         len(l) == 1 and same_args(l[0], a, k))
    else:
      ok(p, "no other variant is called", not l)
  s = inspect.signature(g).parameters
  ok(p, "the selector is in the signature", "mode" in s and
     s["mode"].default == default and
     s["mode"].kind == inspect.Parameter.KEYWORD_ONLY)


@vc("C24", "warning filters", [f"{U}:warnings_simplefilter"],
    replay="filters", max_paths=3000)
def filters(p, w):
  m = w.load(U)
  res = RuntimeError("wrapped") if p.choose("raises") else Token("result")
  calls, during = [], []

  class W(UserWarning):
    pass

  def func(*a, **k):
    calls.append((a, k))
    during.append(warnings.filters[0][:3:2])
    warnings.warn("w", W)
    if isinstance(res, RuntimeError):
      raise res
    return res

  traces = [] if p.choose("traces") else None
  kw = {"action": "always" if traces is not None else "ignore", "category": W}
  if traces is not None:
    kw.update(traces=traces, catch_kws={"record": True})
  if p.choose("toggle"):
    kw["toggle"] = ("filtering", p.choose("toggled by default"))
  g = m.warnings_simplefilter(func, **kw) if p.choose("direct") else \
      m.warnings_simplefilter(**kw)(func)
  a, k = others(p)
  on = True
  call = dict(k)
  if "toggle" in kw:
    on = kw["toggle"][1]
    if p.choose("toggle given"):
      call["filtering"] = on = p.choose("toggled")
  with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    before = list(warnings.filters)
    try:
      r = g(*a, **call)
    except RuntimeError as e:
      r = e
    ok(p, "the filters are as before", list(warnings.filters) == before)
  ok(p, "called once with the arguments",
     len(calls) == 1 and same_args(calls[0], a, k))
  ok(p, "result or exception of the function", r is res)
  if on:
    ok(p, "the filter is active during the call", during == [
        (kw["action"], W)])
    ok(p, "the warning is handled by it", not ws)
  else:
    ok(p, "no filter is active during the call", during[0][1] is not W)
    ok(p, "the warning reaches the caller", len(ws) == 1)
  if traces is not None:
    ok(p, "the trace holds the warning", len(traces) == on and (
        not on or len(traces[0]) == 1 and traces[0][0].category is W))


@vc("C24", "keyword argument added to a signature", [f"{U}:add_keyword_arg"],
    replay="signature", max_paths=2000)
def signature(p, w):
  m = w.load(U)
  calls = []
  res = Token("result")
  shapes = [lambda *a, **k: None, lambda a, b=1: None,
            lambda a, *, mode="x", **k: None, lambda: None,
            lambda *a, c=3: None]
  i = 0
  while i < len(shapes) - 1 and not p.choose(f"shape {i}"):
    i += 1
  shape = shapes[i]

  def func(*a, **k):
    calls.append((a, k))
    return res

  kw = {"default": 7, "annotation": int}
  if p.choose("own signature"):
    func.__signature__ = inspect.signature(shape)
  else:
    kw["sig_func"] = shape
  g = m.add_keyword_arg(func, name="mode", **kw) if p.choose("direct") else \
      m.add_keyword_arg(name="mode", **kw)(func)
  s = inspect.signature(g).parameters
  old = [q for q in inspect.signature(shape).parameters.values()
         if q.name != "mode"]
  ok(p, "the parameter is there", "mode" in s and s[
      "mode"].kind == inspect.Parameter.KEYWORD_ONLY and s[
          "mode"].default == 7 and s["mode"].annotation is int)
  ok(p, "the other parameters are as before", [
      q for q in s.values() if q.name != "mode"] == old)
  a, k = others(p, ("x", "mode"))
  r = g(*a, **k)
  ok(p, "delivers the same arguments", len(calls) == 1 and same_args(
      calls[0], a, k) and r is res)


# --- the decorated functions -------------------------------------------------
TR = {"max_n_sines": "tracker__max_n_sines",
      "min_sine_dur": "tracker__min_sine_dur",
      "freq_dev_offset": "tracker__freq_dev_offset",
      "freq_dev_slope": "tracker__freq_dev_slope",
      "save_intermediate": "intermediate__save",
      "fs": "tracker__fs", "h": "tracker__h"}
MODAL = {n: "tracker__" + n for n in (
    "reverse", "frequency_bounds", "peak_threshold", "merge_strategy",
    "strip_t")}


def delivered(name, mod, cls, old, new):

  @vc("C24", f"{cls}({old}=...)", [f"{mod}:{cls}.__init__",
                                   f"{mod}:{cls}.set_params"],
      replay="models")
  def d(p, w):
    m = w.load(mod)
    p.input("cls", lambda mo: cls)
    p.input("old", lambda mo: old)
    p.input("new", lambda mo: new)
    v = Token(old)
    C = getattr(m, cls)
    if p.choose("constructor"):
      o, ws = caught(lambda: C(**{old: v}))
    else:
      o = C()
      _, ws = caught(lambda: o.set_params(**{old: v}))
    ps = o.get_params(deep=True)
    ok(p, "delivered under its new name", ps[new] is v)
    ok(p, "a warning names it", any(
        f"'{old}'" in str(x.message) and f"'{new}'" in str(x.message) and
        issubclass(x.category, DeprecationWarning) for x in ws))
    ref = C().get_params(deep=True)
    plain = lambda x: x is None or isinstance(x, (str, int, float, bool,
                                                  tuple))
    rest = [n for n in ref if n != new and not n.startswith(new + "__")]
    ok(p, "all other parameters are untouched", all(n in ps for n in rest) and
       all(ps[n] == ref[n] for n in rest if plain(ref[n])))


for _o, _n in TR.items():
  delivered("SinusoidalModel", "sample.sms.sm", "SinusoidalModel", _o, _n)
  delivered("ModalModel", "sample.sms.mm", "ModalModel", _o, _n)
for _o, _n in MODAL.items():
  delivered("ModalModel", "sample.sms.mm", "ModalModel", _o, _n)
delivered("SAMPLE", "sample.sample", "SAMPLE", "sinusoidal_model__t",
          "sinusoidal__t")
delivered("SAMPLE", "sample.sample", "SAMPLE",
          "sinusoidal_model__tracker__strip_t",
          "sinusoidal__tracker__strip_t")
delivered("SAMPLE", "sample.sample", "SAMPLE", "sinusoidal_model",
          "sinusoidal")


@vc("C24", "SinusoidalModel(sine_tracker_cls=..., safe_sine_len=...)",
    ["sample.sms.sm:SinusoidalModel.__init__"], replay="trackers")
def trackers(p, w):
  m = w.load("sample.sms.sm")

  class T(m.SineTracker):
    pass

  o, ws = caught(lambda: m.SinusoidalModel(sine_tracker_cls=T))
  ok(p, "a tracker of the class", type(getattr(o, "tracker", None)) is T)
  ok(p, "a warning names it", any("'sine_tracker_cls'" in str(x.message)
                                  for x in ws))
  n = integer(p, "n", lo=0)
  d = integer(p, "d", lo=1)
  o, ws = caught(lambda: m.SinusoidalModel(safe_sine_len=n,
                                           tracker__min_sine_dur=d))
  p.prove("the longer of the two durations", eq(
      o.tracker.min_sine_dur, ite(n > d, n, d)))


@vc("C24", "SAMPLEOptimizer(sample_fn=..., sample_kw=...)",
    ["sample.optimize:SAMPLEOptimizer.__init__"], replay="optimizer")
def optimizer(p, w):
  m = w.load("sample.optimize")
  model, v, v2 = m.sample.SAMPLE(), Token("v"), Token("v2")
  fn = Rec(model)
  remap = Rec(lambda **k: {"max_n_modes": v2, **k})
  use = {}
  if p.choose("arguments"):
    use["sample_kw"] = {"sinusoidal__t": v} if p.choose("some") else None
  kw = use.get("sample_kw") or {}
  which = p.choose("remapper")
  if which:
    use["remap"] = remap
  elif p.choose("no remapper"):
    use["remap"] = None
  else:
    w.patch(m, "sample_kwargs_remapper", remap)
    which = True
  exp = dict(kw, **({"max_n_modes": v2} if which else {}))
  if p.choose("constructor"):
    o, ws = caught(lambda: m.SAMPLEOptimizer(sample_fn=fn, **use))
    ok(p, "the model is what the constructor gives", o.model is model)
    ok(p, "of the remapped arguments", len(fn.calls) == 1 and same_args(
        fn.calls[0], (), exp))
    ok(p, "a warning names it", any("'sample_fn'" in str(x.message)
                                    for x in ws))
  else:
    if "sample_kw" not in use:
      return
    if p.choose("model"):
      use["model"] = model
    o, ws = caught(lambda: m.SAMPLEOptimizer(**use))
    ok(p, "the given model", "model" not in use or o.model is model)
    ps = o.model.get_params(deep=True)
    ok(p, "with the remapped arguments", all(ps[n] is exp[n] for n in exp))
    ok(p, "a warning names it", any("'sample_kw'" in str(x.message)
                                    for x in ws))
  ok(p, "the remapper is kept or the default", (
      o.remap is use["remap"]) if "remap" in use else o.remap is not None)
