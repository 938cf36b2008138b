"""C30: loading and trimming of audio in the GUI"""
from contracts.common import *  # noqa: F403
from pyvc import nparr as N

M = "sample.widgets.audioload"
U = "sample.widgets.utils"
D = "sample.utils.dsp"
NOTE = ("scipy.io.wavfile.read, the widgets and the onset detection (any "
        "onsets, see C31) by contract; positions are finite numbers, whole "
        "when in samples; WAV files of at least one sample.")
NAMES = ("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop")


class Log:
  """Logging has no effect"""

  def __getattr__(self, k):
    if k.startswith("_"):
      raise AttributeError(k)
    return lambda *a, **kw: None


class Lock:

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


def tab(p, w, m, **k):
  """The tab, with the code under contract as methods"""
  plots = []

  class Tab:
    audio_loaded = vars(w.load(U).DataOnRootMixin)["audio_loaded"]
    set_trim = m.AudioLoadTab.set_trim
    auto_trim = m.AudioLoadTab.auto_trim
    manual_trim_cbk_press = m.AudioLoadTab.manual_trim_cbk_press
    manual_trim_cbk_release = m.AudioLoadTab.manual_trim_cbk_release
    load_cbk = m.AudioLoadTab.load_cbk
    _manual_trim_lock = Lock()

    def update_plot(self, update_vars=True):
      plots.append(update_vars)

  s = Tab()
  w.patch(m, "logging", Log())
  for n in NAMES:
    setattr(s, n, None)
  for n, v in k.items():
    setattr(s, n, v)
  s.plots = plots
  return s


def loaded(p, w, m):
  """A tab with audio and a valid range"""
  n = length(p, "n", 1)
  x = array(p, "x", (n,))
  sr = integer(p, "sr", lo=1)
  a, b = integer(p, "start", lo=0), integer(p, "stop")
  p.assume(a.z < b.z, b.z <= n.z)
  return tab(p, w, m, audio_x=x, audio_sr=sr, audio_trim_start=a,
             audio_trim_stop=b), n, x, sr, a, b


def valid_range(p, s, n):
  for v in (s.audio_trim_start, s.audio_trim_stop):
    if not isinstance(v, (SInt, int)):
      return p.fail("whole positions", type(v).__name__)
  a, b = zint(s.audio_trim_start), zint(s.audio_trim_stop)
  p.prove("non-empty valid range", And(0 <= a, a < b, b <= zi(n)))


def zi(n):
  return N.zi(n)


def clamp(v, lo, hi):
  return If(v < lo, lo, If(v > hi, hi, v))


def honoured(p, s, k, start, n, a, b):
  """The requested position as far as possible, the other one as it was"""
  if start:
    p.prove("the requested start, up to the stop", zint(
        s.audio_trim_start) == clamp(k, z3.IntVal(0), b.z - 1))
    p.prove("the stop is kept", zint(s.audio_trim_stop) == b.z)
  else:
    p.prove("the requested stop, from the start", zint(
        s.audio_trim_stop) == clamp(k, a.z + 1, zi(n)))
    p.prove("the start is kept", zint(s.audio_trim_start) == a.z)


def seconds(p, s, v, sr, start, n, a, b):
  """As honoured, for a time to be rounded to a whole sample"""
  t = v * z3.ToReal(sr.z)
  g = zint(s.audio_trim_start if start else s.audio_trim_stop)
  k = z3.ToReal(g)
  lo, hi = (z3.IntVal(0), b.z - 1) if start else (a.z + 1, zi(n))
  p.prove("within the limits", And(lo <= g, g <= hi))
  p.prove("the requested time, to the sample", Or(
      And(k - t < 1, t - k < 1), And(g == lo, t < z3.ToReal(lo)),
      And(g == hi, t > z3.ToReal(hi))))
  i = fresh("i")
  p.prove("the time of a sample is that sample", Implies(
      t == z3.ToReal(i), g == clamp(i, lo, hi)))
  if start:
    p.prove("the stop is kept", zint(s.audio_trim_stop) == b.z)
  else:
    p.prove("the start is kept", zint(s.audio_trim_start) == a.z)


for _s in (True, False, "default"):
  for _u in ("samples", "omitted", "seconds"):

    @vc("C30", f"requested {_u}, start={_s}", [f"{M}:AudioLoadTab.set_trim"],
        replay="trim")
    def trim(p, w, s=_s, u=_u):
      m = w.load(M)
      t, n, x, sr, a, b = loaded(p, w, m)
      v = real(p, "value") if u == "seconds" else integer(p, "value")
      kw = {} if s == "default" else {"start": s}
      if u != "omitted":
        kw["samples"] = u == "samples"
      p.input("kw", lambda mo: dict(kw))
      got = attempt(p, "no position fails", lambda: t.set_trim(v, **kw))
      if not got:
        return
      valid_range(p, t, n)
      if u == "seconds":
        seconds(p, t, v.z, sr, bool(s), n, a, b)
      else:
        honoured(p, t, v.z, bool(s), n, a, b)
      p.prove("the audio is kept", zbool(t.audio_x is x and t.audio_sr is sr))
      p.prove("no plot unless asked", zbool(t.plots == []))
      t.set_trim(v, update=True, update_vars=True, **kw)
      t.set_trim(v, update=True, **kw)
      p.prove("plots when asked", zbool(t.plots == [True, False]))


@vc("C30", "nothing to trim without audio", [f"{M}:AudioLoadTab.set_trim"])
def unloaded(p, w):
  m = w.load(M)
  for missing in NAMES:
    t = tab(p, w, m, **{k: None if k == missing else 3 for k in NAMES})
    old = {k: getattr(t, k) for k in NAMES}
    t.set_trim(1, samples=True, update=True)
    p.prove(f"nothing without {missing}", zbool(
        all(getattr(t, k) is old[k] for k in NAMES) and not t.plots))
  t = tab(p, w, m, **{k: 3 for k in NAMES})
  p.prove("loaded otherwise", zbool(t.audio_loaded is True))


def onsets(p, w, m):
  """Contract of the onset detection (C31): flags for every sample"""
  calls = []

  def detect(x, *a, **k):
    calls.append(x)
    n = x.shape[0]
    return array(p, "onsets", (n,), "b")

  w.patch(w.load(D), "onset_detection", detect)
  if getattr(m, "dsp", None) is None:
    w.patch(m, "onset_detection", detect)
  return calls


def selection(p, t, n, calls):
  """The range goes from an onset (or the first sample, if there are none) to
  the next onset or the end"""
  valid_range(p, t, n)


@vc("C30", "automatic range", [f"{M}:AudioLoadTab.auto_trim"], replay="auto")
def auto(p, w):
  m = w.load(M)
  calls = onsets(p, w, m)
  n = length(p, "n", 1)
  x = array(p, "x", (n,))
  for old in ("none", "any"):
    t = tab(p, w, m, audio_x=x, audio_sr=integer(p, "sr", lo=1))
    if old == "any":
      # a range of the audio loaded before
      t.audio_trim_start, t.audio_trim_stop = (integer(p, k) for k in "ab")
    got = attempt(p, "no audio fails", t.auto_trim)
    if got:
      selection(p, t, n, calls)
      p.prove("the audio is kept", zbool(t.audio_x is x))


def wav_dtype(kind, bits):
  return N.DType(kind, {"u": "uint", "i": "int", "f": "float"}[kind] +
                 str(bits), bits=bits)


class Wav(N.SArr):
  """Samples as read from a file: arithmetic of narrow integers only with
  floats"""

  def __init__(self, a, dt):
    super().__init__(a._shape, None, a.kind, a.store)
    self._dt = dt

  dtype = property(lambda s: s._dt)
  itemsize = property(lambda s: s._dt.itemsize)


def _guard(name):
  f = getattr(N.SArr, name)

  def g(self, *a):
    if self._dt.kind != "f":
      o = a[0] if a else None
      if not (isinstance(o, (SReal, Fraction, float)) or
              name.strip("_r") in ("truediv",) or
              getattr(o, "kind", "") == "f"):
        raise Unsupported("arithmetic of narrow integers")
    return f(self, *a)

  return g


for _k in ("add", "sub", "mul", "truediv", "floordiv", "pow", "mod", "radd",
           "rsub", "rmul", "neg", "abs", "lshift", "rshift"):
  if hasattr(N.SArr, f"__{_k}__"):
    setattr(Wav, f"__{_k}__", _guard(f"__{_k}__"))


def _load(p, w, kind, bits, nd):
  n = length(p, "n", 1)
  shape = (n,) if nd == 1 else (n, length(p, "channels", 1))
  lo = -2**(bits - 1) if kind == "i" else 0
  hi = lo + 2**bits - 1
  kw = {} if kind == "f" else {"lo": lo, "hi": hi}
  raw = array(p, "raw", shape, "f" if kind == "f" else "i", **kw)
  old = frozen_copy(raw)
  x = Wav(raw, wav_dtype(kind, bits))
  sr = integer(p, "sr", lo=1)
  reads = []

  def read(filename, *a, **k):
    reads.append(filename)
    return sr, x

  lib(w, "scipy.io.wavfile.read", read)
  m = w.load(M)
  calls = onsets(p, w, m)
  p.input("dtype", lambda mo: f"{kind}{bits}")
  t = tab(p, w, m, filedialog_dir="dir", filedialog_dir_save=None,
          _plt_lims_valid=True)
  w.patch(m, "filedialog", Obj(askopenfilename=lambda **k: "file.wav"))
  w.patch(m, "messagebox", Obj(showerror=lambda *a: p.fail("no error", "")))
  if not attempt(p, "no file fails", t.load_cbk):
    return
  y = t.audio_x
  if not isinstance(y, N.SArr) or y.ndim != 1:
    return p.fail("mono samples", repr(y))
  p.prove("every sample", zi(y.shape[0]) == n.z)
  p.prove("the file is read", zbool(reads == ["file.wav"]))
  p.prove("floating point samples", zbool(y.kind == "f"))
  k = fresh("k")
  p.reg(k)
  p.assume(k >= 0, k < n.z)
  half = z3.RealVal(2**(bits - 1))
  zero = z3.RealVal(0 if kind == "i" else 2**(bits - 1))
  scaled = lambda *i: (zreal(old.at(*i)) if kind == "f" else
                       (zreal(old.at(*i)) - zero) / half)
  if nd == 1:
    p.prove("the samples", zreal(y.at(k)) == scaled(k))
    if kind != "f":
      p.prove("in [-1, 1]", And(zreal(y.at(k)) >= -1, zreal(y.at(k)) <= 1))
  else:
    c = shape[1]
    ref = N.mean(N.SArr(shape, lambda *i: SReal(scaled(*i)), "f"), axis=-1)
    p.prove("the mean of the channels", zreal(y.at(k)) == zreal(ref.at(k)))
  p.prove("the sample rate", zbool(t.audio_sr is sr))
  valid_range(p, t, n)
  p.prove("the plot is updated", zbool(t.plots == [True] and
                                       t._plt_lims_valid is False))


for _k, _b in (("i", 16), ("i", 32), ("u", 8), ("f", 32), ("f", 64), ("i", 8),
               ("i", 64)):
  for _nd in (1, 2):
    vc("C30", f"loading {_nd}-d {_k}{_b}",
       [f"{M}:AudioLoadTab.load_cbk", f"{M}:AudioLoadTab.auto_trim"],
       replay="load")(lambda p, w, k=_k, b=_b, nd=_nd: _load(p, w, k, b, nd))


@vc("C30", "files that cannot be read", [f"{M}:AudioLoadTab.load_cbk"],
    replay="unreadable")
def unreadable(p, w):
  shown = []

  def read(filename, *a, **k):
    V.raise_(ValueError, "File format b'' not understood")

  lib(w, "scipy.io.wavfile.read", read)
  m = w.load(M)
  for chosen in ("file.wav", "", ()):
    t, n, x, sr, a, b = loaded(p, w, m)
    t.filedialog_dir, t.filedialog_dir_save = "dir", None
    w.patch(m, "filedialog", Obj(askopenfilename=lambda **k: chosen))
    w.patch(m, "messagebox", Obj(showerror=lambda *q: shown.append(q)))
    if attempt(p, "the error is reported", t.load_cbk):
      p.prove("the audio and the range are kept", zbool(
          t.audio_x is x and t.audio_sr is sr and t.audio_trim_start is a and
          t.audio_trim_stop is b))


@vc("C30", "trimming with the mouse",
    [f"{M}:AudioLoadTab.manual_trim_cbk_press",
     f"{M}:AudioLoadTab.manual_trim_cbk_release"], replay="mouse")
def mouse(p, w):
  m = w.load(M)
  t, n, x, sr, a, b = loaded(p, w, m)
  t._trim_side = None
  t.toolbar_on = False
  v, u = real(p, "press"), real(p, "release")
  if not attempt(p, "no position fails", lambda: t.manual_trim_cbk_press(
      Obj(xdata=v))):
    return
  side = t._trim_side
  if side is None:
    return p.fail("a side is chosen", "None")
  p.prove("the range is kept", And(zint(t.audio_trim_start) == a.z,
                                   zint(t.audio_trim_stop) == b.z))
  side = p.branch(zbool(side))
  d, e = v.z * z3.ToReal(sr.z) - z3.ToReal(a.z), \
      v.z * z3.ToReal(sr.z) - z3.ToReal(b.z)
  ab = lambda z: If(z < 0, -z, z)
  p.prove("the closer side", Implies(ab(d) + 2 < ab(e), zbool(side)))
  p.prove("the closer side (stop)", Implies(ab(e) + 2 < ab(d),
                                            Not(zbool(side))))
  if not attempt(p, "no position fails (release)",
                 lambda: t.manual_trim_cbk_release(Obj(xdata=u))):
    return
  valid_range(p, t, n)
  seconds(p, t, u.z, sr, side, n, a, b)
  p.prove("done", zbool(t._trim_side is None))
  p.prove("shown", zbool(t.plots == [True]))


@vc("C30", "no trimming while the toolbar is used",
    [f"{M}:AudioLoadTab.manual_trim_cbk_press",
     f"{M}:AudioLoadTab.manual_trim_cbk_release"])
def toolbar(p, w):
  m = w.load(M)
  for side in (None, True, False):
    for f in ("press", "release"):
      t, n, x, sr, a, b = loaded(p, w, m)
      t._trim_side, t.toolbar_on = side, True
      getattr(t, f"manual_trim_cbk_{f}")(Obj(xdata=real(p, "at")))
      p.prove("the range is kept", zbool(t.audio_trim_start is a and
                                         t.audio_trim_stop is b))
      p.prove("aborted", zbool(t._trim_side is None))
  t, n, x, sr, a, b = loaded(p, w, m)
  t._trim_side, t.toolbar_on = None, False
  t.manual_trim_cbk_release(Obj(xdata=real(p, "at")))
  p.prove("no release without a press", zbool(
      t.audio_trim_start is a and t.audio_trim_stop is b))


class Anything:
  """A widget: every use of it has no effect on the audio"""

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    return Anything()

  def __call__(self, *a, **k):
    return Anything()

  def __getitem__(self, k):
    return Anything()


@vc("C30", "trim entries", [f"{M}:AudioLoadTab.__init__",
                            f"{M}:AudioLoadTab.set_trim"], replay="entry")
def entries(p, w):
  from contracts.c29 import Text
  m = w.load(M)
  t0, n, x, sr, a, b = loaded(p, w, m)
  text = Text(p)
  plots, variables = [], []

  class Var(Anything):

    def __init__(self, *a, **k):
      self.cbk = []
      variables.append(self)

    def trace_add(self, mode, f):
      self.cbk.append((mode, f))

    def get(self):
      return text

  tk = Anything()
  tk.StringVar = Var
  cls = m.AudioLoadTab
  src = {k: v for c in (w.load(U).DataOnRootMixin, cls)
         for k, v in vars(c).items() if k in (
             "audio_loaded", "set_trim", "auto_trim")}
  s = object.__new__(cls)
  root = Obj(**{k: getattr(t0, k) for k in NAMES})
  d = {"winfo_parent": lambda: "", "_nametowidget": lambda q: root,
       "responsive": lambda *q, **k: None,
       "update_plot": lambda update_vars=True: plots.append(update_vars)}
  for k, v in d.items():
    object.__setattr__(s, k, v)
  for k, v in (("tk", tk), ("pyplot", Anything()), ("utils", Anything()),
               ("_backend_tk", Anything())):
    w.patch(m, k, v)
  root.audio_cache_file = Obj(is_valid=lambda: False)
  cls.__init__(s)
  p.prove("the range is kept", zbool(root.audio_trim_start is a and
                                     root.audio_trim_stop is b))
  for start, var in ((True, s.trim_start_input_var),
                     (False, s.trim_stop_input_var)):
    p.prove("one callback on changes", zbool(
        [q[0] for q in var.cbk] == ["write"]))
    root.audio_trim_start, root.audio_trim_stop = a, b
    e = raises(lambda: var.cbk[0][1]("name", "", "write"), ValueError,
               OverflowError)
    valid_range(p, root, n)
    if e is not None:
      p.prove("only texts that are no numbers fail", text.kind != 4)
      continue
    v = If(text.kind == 4, text.v, z3.RealVal(0))
    p.prove("text or zero", text.kind != 1)
    seconds(p, root, v, sr, start, n, a, b)
