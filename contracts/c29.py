"""C29: parsing and post-processing of the GUI settings"""
import builtins

from contracts.common import *  # noqa: F403

M = "sample.widgets.settings"
NOTE = ("A text is known by what float() makes of it (an error, nan, an "
        "infinity or any finite value); scipy.signal.get_window, the widgets "
        "and the user files by contract. Window and FFT sizes of at least one "
        "sample, as the parsers give.")
NAN = lambda: SReal(z3.RealVal(0), nan=z3.BoolVal(True))
INF = builtins.float("inf")
WORDS = ("false", "f", "")


class Lower:
  """The text in lower case"""

  def __init__(self, t):
    self.t = t

  def __eq__(self, o):
    if o in WORDS:
      return self.t.branch(self.t.word == WORDS.index(o))
    raise Unsupported(f"text compared with {o!r}")

  def __hash__(self):
    raise Unsupported("hash of a text")

  def __getattr__(self, k):
    if k.startswith("_"):
      raise AttributeError(k)
    raise Unsupported(f"text.{k}")


class Text:
  """Any text, known by what float() makes of it"""

  def __init__(self, p, name="text"):
    self.p = p
    self.kind = z3.Int(name + ".kind")
    self.v = z3.Real(name + ".value")
    self.word = z3.Int(name + ".word")
    p.assume(0 <= self.kind, self.kind <= 4, 0 <= self.word, self.word <= 3,
             Implies(self.word < 3, self.kind == 0))
    p.input(name, lambda mo: [int(mo.eval(self.kind, True).as_long()),
                              num(mo, self.v),
                              int(mo.eval(self.word, True).as_long())])

  def branch(self, c):
    return self.p.branch(c)

  def _vc_float(self):
    for i, f in enumerate((
        lambda: V.raise_(ValueError, "could not convert string to float"), NAN,
        lambda: INF, lambda: -INF)):
      if self.branch(self.kind == i):
        return f()
    return SReal(self.v)

  def _vc_int(self):
    raise Unsupported("int() of a text")

  def lower(self):
    return Lower(self)

  def __getattr__(self, k):
    if k.startswith("_"):
      raise AttributeError(k)
    raise Unsupported(f"text.{k}")


def lift(p, w):
  m = w.load(M)
  return m


def is_int(p, name, v):
  """A proper integer"""
  ok = isinstance(v, (SInt, builtins.int)) and not isinstance(v, (bool, SBool))
  p.prove(name, zbool(ok))
  return ok


def floor1(t):
  """The integer part of a finite value, at least one"""
  f = z3.ToInt(t.v)
  return If(t.v < 1, z3.IntVal(1), f)


def finite(t):
  return Or(t.kind == 4)


def positive(p, t, v, dflt):
  """Contract of custom_positive_int"""
  if v is None and dflt is None:
    return p.prove("the default only when not a finite number", t.kind <= 3)
  if is_int(p, "an integer", v):
    z = zint(v)
    p.prove("positive", z >= 1)
    p.prove("the integer part, at least one",
            Implies(t.kind == 4, z == floor1(t)))
    p.prove("the default when not a number", Implies(
        t.kind <= 1, zbool(False) if dflt is None else z == dflt))


for _d in ("none", "omitted", 4):

  @vc("C29", f"positive integers, default {_d}", [f"{M}:custom_positive_int"],
      replay="posint")
  def posint(p, w, d=_d):
    m = lift(p, w)
    t = Text(p)
    p.input("default", lambda mo: d)
    kw = {"none": {"dflt": None}, "omitted": {}}.get(d, {"dflt": d})
    got = attempt(p, "no text fails", lambda: m.custom_positive_int(t, **kw))
    if not got:
      return
    dflt = {"none": None, "omitted": 1}.get(d, d)
    positive(p, t, got[0], dflt)


def pow2(p, t, v):
  """Contract of next_power_of_2"""
  if not is_int(p, "an integer", v):
    return
  z = zint(v)
  p.prove("one when there is no positive integer part",
          Implies(Or(t.kind < 2, t.kind == 3), z == 1))
  p.prove("positive", z >= 1)
  n = floor1(t)
  k = If(n == 1, z3.IntVal(0), ax.BITLEN(n - 1))
  p.prove("a power of two", Implies(t.kind == 4, And(k >= 0, z == ax.IP2(k))))
  p.prove("not below the entered integer", Implies(t.kind == 4, z >= n))
  h = ax.IP2(k - 1)
  cut(p, "its half is the power before",
      Implies(And(t.kind == 4, k >= 1), 2 * h == z))
  p.prove("the smallest such", Implies(t.kind == 4, Or(z == 1, h < n)))


@vc("C29", "FFT size", [f"{M}:next_power_of_2", f"{M}:custom_positive_int"],
    replay="pow2")
def fft_size(p, w):
  m = lift(p, w)
  t = Text(p)
  got = attempt(p, "no text fails", lambda: m.next_power_of_2(t))
  if not got:
    return
  pow2(p, t, got[0])


def as_z(v):
  """(real term, is nan, infinity sign)"""
  if isinstance(v, builtins.float) and v in (INF, -INF):
    return z3.RealVal(0), z3.BoolVal(False), 1 if v > 0 else -1
  n = V.nan_of(v)
  return zreal(v), n if n is not None else z3.BoolVal(False), 0


def no_default(p, t, v, default):
  """What is not a number gives the default, a number is given as it is"""
  z, n, s = as_z(v)
  p.prove("the default when not a number", Implies(
      t.kind == 0, zbool(s == 0 and default is not None) if default is None
      else And(Not(n), zbool(s == 0), z == zreal(default))))
  p.prove("infinities", And((t.kind == 2) == zbool(s == 1),
                            (t.kind == 3) == zbool(s == -1)))
  p.prove("nan", (t.kind == 1) == n)
  p.prove("numbers as they are", Implies(t.kind == 4, And(Not(n), z == t.v)))


@vc("C29", "floats", [f"{M}:try_float", f"{M}:try_func"], replay="tryfloat")
def tryf(p, w):
  m = lift(p, w)
  t = Text(p)
  got = attempt(p, "no text fails", lambda: m.try_float(t))
  if not got:
    return
  no_default(p, t, got[0], 0)


@vc("C29", "wrapped functions", [f"{M}:try_func"])
def tryfunc(p, w):
  m = lift(p, w)
  x, y, r, d = (Token(k) for k in "xyrd")
  calls = []

  def ok(*a, **k):
    calls.append((a, k))
    return r

  def bad(*a, **k):
    raise KeyError("k")

  v = m.try_func(ok, KeyError, d)(x, k=y)
  p.prove("the value", zbool(v is r and len(calls) == 1 and
                             calls[0][0][0] is x and calls[0][1]["k"] is y and
                             len(calls[0][0]) == len(calls[0][1]) == 1))
  p.prove("the default", zbool(m.try_func(bad, KeyError, d)(x) is d))
  p.prove("of several", zbool(m.try_func(bad, (ValueError, KeyError), d)()
                              is d))
  p.prove("none by default", zbool(m.try_func(bad, KeyError)() is None))
  p.prove("other errors pass", zbool(raises(
      lambda: m.try_func(bad, ValueError, d)(), KeyError) is not None))


@vc("C29", "booleans", [f"{M}:custom_bool"], replay="boolean")
def boolean_(p, w):
  m = lift(p, w)
  t = Text(p)
  got = attempt(p, "no text fails", lambda: m.custom_bool(t))
  if not got:
    return
  b = got[0]
  if not isinstance(b, (bool, SBool)):
    return p.fail("a boolean", type(b).__name__)
  p.prove("false for the false words and zero", zbool(b) == Not(
      Or(t.word < 3, And(t.kind == 4, t.v == 0))))


@vc("C29", "strip time", [f"{M}:strip_time_parse"], replay="strip")
def strip(p, w):
  m = lift(p, w)
  t = Text(p)
  got = attempt(p, "no text fails", lambda: m.strip_time_parse(t))
  if not got:
    return
  if got[0] is None:
    return p.prove("none only when not a positive number", Or(
        t.kind < 4, t.v <= 0))
  z, n, s = as_z(got[0])
  p.prove("positive numbers as they are", Or(
      And(t.kind == 2, zbool(s == 1)),
      And(t.kind == 4, zbool(s == 0), Not(n), z == t.v, z > 0)))


def _clip(p, w, l, r, d, sym):
  m = lift(p, w)
  t = Text(p)
  lv = real(p, "left") if l else None
  rv = real(p, "right") if r else None
  dv = real(p, "default") if d else None
  if l and r:
    p.assume(lv.z <= rv.z)
  if d:
    # a default within the limits
    p.assume(*([lv.z <= dv.z] if l else []), *([dv.z <= rv.z] if r else []))
  p.input("which", lambda mo: [l, r, d])
  kw = {k: v for k, v in (("left", lv), ("right", rv), ("default", dv))
        if v is not None}
  got = attempt(p, "no text fails", lambda: m.float_clip(**kw)(t))
  if not got:
    return
  z, n, s = as_z(got[0])
  if l or r:
    p.prove("a number", Not(n))
  if l:
    p.prove("not below the lower limit", zbool(s == 1) if s else z >= lv.z)
  if r:
    p.prove("not above the upper limit", zbool(s == -1) if s else z <= rv.z)
  if d:
    p.prove("the default when not a number", Implies(
        t.kind == 0, And(zbool(s == 0), Not(n), z == dv.z)))
  inside = And(t.kind == 4, *([lv.z <= t.v] if l else []),
               *([t.v <= rv.z] if r else []))
  p.prove("a number between the limits as it is",
          Implies(inside, And(zbool(s == 0), Not(n), z == t.v)))
  if l:
    p.prove("below", Implies(Or(t.kind == 3, And(t.kind == 4, t.v < lv.z)),
                             And(zbool(s == 0), z == lv.z)))
  if r:
    p.prove("above", Implies(Or(t.kind == 2, And(t.kind == 4, t.v > rv.z)),
                             And(zbool(s == 0), z == rv.z)))


for _l in (0, 1):
  for _r in (0, 1):
    for _d in (0, 1):
      vc("C29", f"clipped floats, limits {_l}{_r}, default {_d}",
         [f"{M}:float_clip"], replay="clip")(
             lambda p, w, l=_l, r=_r, d=_d: _clip(p, w, l, r, d, True))


def bound(p, name):
  """Any float: a number, nan or an infinity"""
  k = z3.Int(name + ".kind")
  v = z3.Real(name + ".value")
  p.assume(1 <= k, k <= 4)
  p.input(name, lambda mo: [int(mo.eval(k, True).as_long()), num(mo, v)])
  for i, f in ((1, NAN), (2, lambda: INF), (3, lambda: -INF)):
    if p.branch(k == i):
      return f()
  return SReal(v)


def less(a, b):
  (x, n, s), (y, o, t) = as_z(a), as_z(b)
  c = zbool(s < t) if s or t else x < y
  return And(Not(n), Not(o), c)


def same_float(a, b):
  (x, n, s), (y, o, t) = as_z(a), as_z(b)
  return And(zbool(s == t), n == o, Or(n, zbool(s != 0), x == y))


@vc("C29", "frequency bounds", [f"{M}:postprocess_fbound"], replay="fbound")
def fbound(p, w):
  m = lift(p, w)
  a, b = bound(p, "smfb_0"), bound(p, "smfb_1")
  got = attempt(p, "no text fails", lambda: m.postprocess_fbound(a, b))
  if not got:
    return
  i, o = got[0]
  p.prove("both bounds", zbool(set(i) == {"smfb_0", "smfb_1"}))
  p.prove("one parameter", zbool(
      set(o) == {"sinusoidal__tracker__frequency_bounds"}))
  lo, hi = o["sinusoidal__tracker__frequency_bounds"]
  p.prove("ordered", less(lo, hi))
  p.prove("the settings are the parameters", And(
      same_float(lo, i["smfb_0"]), same_float(hi, i["smfb_1"])))
  p.prove("ordered bounds as they are", Implies(less(a, b), And(
      same_float(a, lo), same_float(b, hi))))
  p.prove("exchanged bounds put in order", Implies(less(b, a), And(
      same_float(b, lo), same_float(a, hi))))


@vc("C29", "number of jobs", [f"{M}:postprocess_multiprocessing"],
    replay="jobs")
def jobs(p, w):
  m = lift(p, w)
  n = integer(p, "n_jobs")
  b = boolean(p, "parallel")
  i, o = m.postprocess_multiprocessing(b, n)
  p.prove("the setting is kept", And(zbool(set(i) == {"parallel", "n_jobs"}),
                                     zint(i["n_jobs"]) == n.z,
                                     zbool(i["parallel"]) == b.z))
  p.prove("only the number of jobs", zbool(set(o) == {"n_jobs"}))
  p.prove("zero unless multiprocessing is on",
          zint(o["n_jobs"]) == If(b.z, n.z, z3.IntVal(0)))


class Windows:
  """Contract of scipy.signal.get_window"""

  def __init__(self, p, w):
    self.p = p
    self.known = {"blackman": z3.BoolVal(True)}
    self.calls = []
    lib(w, "scipy.signal.get_window", self)

  def __call__(self, window, Nx, fftbins=True):
    if isinstance(window, str):
      c = self.known.setdefault(window, z3.BoolVal(True))
    elif isinstance(window, Token):
      c = self.known.setdefault(id(window), z3.Bool("known window"))
    else:
      raise Unsupported("kind of window")
    z = zint(Nx)
    if not self.p.branch(And(c, z >= 0)):
      V.raise_(ValueError, "unknown window type or negative size")
    t = Token("window")
    self.calls.append((t, window, z, fftbins))
    return t


def window_contract(p, W, i, o, n, size, typ):
  p.prove("parameters", zbool(set(o) >= {"sinusoidal__n", "sinusoidal__w"}))
  p.prove("FFT size", zint(o["sinusoidal__n"]) == n.z)
  c = [c for c in W.calls if c[0] is o["sinusoidal__w"]]
  if len(c) != 1:
    return p.fail("one window", str(len(c)))
  _, t, z, fb = c[0]
  p.prove("size of the window clipped to the FFT size",
          z == If(size.z < n.z, size.z, n.z))
  p.prove("periodic window", zbool(fb is True))
  p.prove("the settings describe the window", And(
      zint(i["wsize"]) == z, zint(i["sinusoidal__n"]) == n.z,
      zbool(i["wtype"] is t or isinstance(t, str) and i["wtype"] == t)))
  p.prove("type of the window", Implies(z3.Bool("known window"),
                                        zbool(t is typ)))


@vc("C29", "window", [f"{M}:postprocess_windows"], replay="window")
def window(p, w):
  W = Windows(p, w)
  m = lift(p, w)
  n, size = integer(p, "n", lo=1), integer(p, "wsize", lo=1)
  typ = Token("type")
  p.input("known", lambda mo: bool(mo.eval(z3.Bool("known window"), True)))
  got = attempt(p, "no type of window fails",
                lambda: m.postprocess_windows(n, size, typ))
  if not got:
    return
  i, o = got[0]
  p.prove("settings", zbool(set(i) == {"sinusoidal__n", "wsize", "wtype"}))
  window_contract(p, W, i, o, n, size, typ)


@vc("C29", "theme", [f"{M}:postprocess_guitheme"])
def theme(p, w):
  m = lift(p, w)
  v = boolean(p, "valid")

  class Theme:

    @staticmethod
    def is_valid(t, **k):
      p.prove("the theme is checked", zbool(t == "some"))
      return v

  w.patch(m.userfiles, "UserTtkTheme", Theme)
  i, o = m.postprocess_guitheme("some")
  p.prove("no parameters", zbool(o == {}))
  t = i["gui_theme"]
  p.prove("only the theme", zbool(set(i) == {"gui_theme"}))
  p.prove("kept only when valid", Or(And(v.z, zbool(t == "some")),
                                     And(Not(v.z), zbool(t == ""))))


INTS = {"sinusoidal__tracker__max_n_sines": 1, "sinusoidal__tracker__h": 1,
        "wsize": 1, "n_jobs": 4}
FLOATS = ("sinusoidal__tracker__freq_dev_offset",
          "sinusoidal__tracker__freq_dev_slope", "smfb_0", "smfb_1",
          "sinusoidal__tracker__peak_threshold", "sinusoidal__t")
CLIPS = {"sinusoidal__tracker__min_sine_dur": (0, None),
         "beat_decisor__th": (0, None), "beatsdrop__lpf": (2, 50)}


def one_setting(p, w, name):
  """An entry of the settings table holding any text"""
  m = lift(p, w)
  t = Text(p)
  p.input("setting", lambda mo: name)
  spec = dict(m._settings)[name]
  s = Obj(name=name, is_spacer=False, var=Obj(get=lambda: t),
          get_fn=spec.get("get_fn"))
  got = attempt(p, "no text fails", lambda: m.SettingsTab.Setting.get(s))
  if not got:
    return
  v = got[0]
  if name in INTS:
    return positive(p, t, v, INTS[name])
  if name == "max_n_modes":
    return positive(p, t, v, None)
  if name == "sinusoidal__n":
    return pow2(p, t, v)
  if name == "sinusoidal__tracker__strip_t":
    return p.prove("nothing or a positive number", zbool(True) if v is None
                   else And(Not(as_z(v)[1]), Or(zbool(as_z(v)[2] == 1), And(
                       zbool(as_z(v)[2] == 0), as_z(v)[0] > 0))))
  if name in FLOATS:
    return p.prove("a number", zbool(isinstance(
        v, (SReal, SInt, builtins.int, builtins.float, Fraction))))
  lo, hi = CLIPS[name]
  z, n, sg = as_z(v)
  p.prove("a number", Not(n))
  p.prove("not below the lower limit", zbool(sg == 1) if sg else z >= lo)
  if hi is not None:
    p.prove("not above the upper limit", zbool(sg == -1) if sg else z <= hi)


for _n in (*INTS, "max_n_modes", "sinusoidal__n", *FLOATS, *CLIPS,
           "sinusoidal__tracker__strip_t"):
  vc("C29", f"setting {_n}",
     [f"{M}:SettingsTab.Setting.get", f"{M}:custom_positive_int",
      f"{M}:float_clip", f"{M}:try_float", f"{M}:next_power_of_2"],
     replay="setting")(lambda p, w, n=_n: one_setting(p, w, n))


@vc("C29", "expansion of all settings", [f"{M}:SettingsTab.apply_cbk"],
    replay="apply")
def apply(p, w):
  W = Windows(p, w)
  m = lift(p, w)
  n, size, nj = (integer(p, k, lo=1) for k in ("n", "wsize", "n_jobs"))
  b = boolean(p, "parallel")
  f0, f1 = real(p, "f0"), real(p, "f1")
  typ = Token("type")
  p.assume(z3.Bool("known window"), f0.z != f1.z)
  vals = {k: Token(k) for k, d in m._settings if not d.get("is_spacer")}
  vals.update(sinusoidal__n=n, wsize=size, wtype=typ, n_jobs=nj, parallel=b,
              smfb_0=f0, smfb_1=f1, gui_theme="")
  stored = {}
  sets = {}

  def setting(k, d):
    if d.get("is_spacer"):
      return Obj(is_spacer=True, get=lambda: None, set=lambda v: None)
    return Obj(is_spacer=False, get=lambda: vals[k],
               set=lambda v: sets.__setitem__(k, v))

  theme = Obj(get=lambda: "theme")

  class Theme:

    def __new__(cls, *a, **k):
      return theme

    @staticmethod
    def is_valid(t, **k):
      return True

  w.patch(m.userfiles, "UserTtkTheme", Theme)
  w.patch(m, "logging", Obj(debug=lambda *a: None, info=lambda *a: None))
  s = Obj(_settings={k: setting(k, d) for k, d in m._settings},
          _postprocess=m._postprocess, sample_object_kwargs=None,
          settings_file=Obj(is_valid=lambda: True, exists=lambda: True,
                            save_json=lambda d, **k: stored.update(d)))
  m.SettingsTab.apply_cbk(s)
  par = s.sample_object_kwargs
  names = set(vals) - {"wsize", "wtype", "smfb_0", "smfb_1", "gui_theme",
                       "parallel"} | {
                           "sinusoidal__w",
                           "sinusoidal__tracker__frequency_bounds"}
  p.prove("the parameters", zbool(set(par) == names), )
  p.prove("every other setting is a parameter as it is", zbool(all(
      par[k] is vals[k] for k in names
      if isinstance(vals.get(k), Token))))
  window_contract(p, W, stored, par, n, size, typ)
  p.prove("number of jobs", zint(par["n_jobs"]) == If(b.z, nj.z, 0))
  lo, hi = par["sinusoidal__tracker__frequency_bounds"]
  p.prove("ordered bounds", And(zreal(lo) < zreal(hi), Or(
      And(zreal(lo) == f0.z, zreal(hi) == f1.z),
      And(zreal(lo) == f1.z, zreal(hi) == f0.z))))
  p.prove("stored settings", zbool(set(stored) == set(vals)))
  p.prove("shown settings", zbool(set(sets) == set(vals) and all(
      sets[k] is stored[k] for k in sets)))
