"""C29: parsing and post-processing of the GUI settings"""
import inspect
import math
import signal as os_signal

import numpy as np
from scipy import signal

from battery.util import same
from sample.widgets import settings as m

WORDS = ["false", "f", "", "some"]
TEXTS = ["", " ", "abc", "nan", "-nan", "NaN", "inf", "-inf", "Infinity",
         "1e400", "-1e400", "0", "-0", "0.0", "1", "1.0", "0.99", "1.99",
         "2", "3", "4", "5", "1023", "1024", "1024.5", "1025", "1_000",
         "1e5", "-5", "1e-320", "0x10", "1,5", "\ud800", "\0", "٣", "1e30",
         " 12 ", "true", "True", "F", "FALSE", "f ", "no", "None",
         "9007199254740993", "1e16", "2.0000001", "16000.0", "1125899906842625", "1152921504606847232",
         "2305843009213693952", "9007199254740991"]


def text(t):
  if isinstance(t, str):
    return t
  k, v, w = t
  return [WORDS[w], "nan", "inf", "-inf", repr(float(v))][k]


def parse(t):
  try:
    return float(t)
  except ValueError:
    return None


def number(f):
  """Is finite"""
  return f is not None and math.isfinite(f)


def g_text(rng, i, **k):
  if i < len(TEXTS):
    return {"text": TEXTS[i], **k}
  r = rng.random()
  if r < .4:
    return {"text": repr(float(rng.normal() * 10**rng.uniform(-3, 6))), **k}
  if r < .8:
    return {"text": str(int(2**rng.integers(0, 40) + rng.integers(-2, 3))),
            **k}
  return {"text": "".join(chr(c) for c in rng.integers(32, 127, size=3)), **k}


def is_int(v):
  return isinstance(v, int) and not isinstance(v, bool)


def check_posint(t, v, dflt):
  f = parse(t)
  if number(f):
    assert is_int(v) and v == max(1, math.floor(f)), f"{t!r} gives {v!r}"
  elif f is None or math.isnan(f):
    assert v == dflt and (v is None) == (dflt is None), f"{t!r} gives {v!r}"
  else:
    assert v is None and dflt is None or is_int(v) and v >= 1


def posint(text, default="omitted", **_):
  t = globals()["text"](text)
  kw = {"none": {"dflt": None}, "omitted": {}}.get(default, {"dflt": default})
  check_posint(t, m.custom_positive_int(t, **kw),
               {"none": None, "omitted": 1}.get(default, default))


def check_pow2(t, v):
  assert is_int(v) and v >= 1 and v & (v - 1) == 0, f"{t!r} gives {v!r}"
  f = parse(t)
  n = max(1, math.floor(f)) if number(f) else 1
  if number(f) or f is None or math.isnan(f):
    assert v >= n and (v == 1 or v // 2 < n), f"{t!r} gives {v!r}"


def pow2(text, **_):
  t = globals()["text"](text)
  check_pow2(t, m.next_power_of_2(t))


def tryfloat(text, **_):
  t = globals()["text"](text)
  v, f = m.try_float(t), parse(t)
  f = 0. if f is None else f
  assert v == f or math.isnan(v) and math.isnan(f), f"{t!r} gives {v!r}"


def boolean(text, **_):
  t = globals()["text"](text)
  f = parse(t)
  w = not (t.lower() in ("false", "f", "") or f == 0)
  v = m.custom_bool(t)
  assert isinstance(v, bool) and v == w, f"{t!r} gives {v!r}"


def strip(text, **_):
  t = globals()["text"](text)
  f, v = parse(t), m.strip_time_parse(t)
  if number(f) and f > 0:
    assert v == f, f"{t!r} gives {v!r}"
  elif f == math.inf:
    assert v in (None, f)
  else:
    assert v is None, f"{t!r} gives {v!r}"


def check_clip(t, v, left, right, default):
  f = parse(t)
  if left is not None or right is not None:
    assert not math.isnan(v), f"{t!r} gives {v!r}"
  assert left is None or v >= left, f"{t!r} gives {v!r} below {left}"
  assert right is None or v <= right, f"{t!r} gives {v!r} above {right}"
  if f is None:
    assert default is None or v == default, f"{t!r} gives {v!r}"
  elif not math.isnan(f):
    lo = -math.inf if left is None else left
    hi = math.inf if right is None else right
    assert v == min(hi, max(lo, f)), f"{t!r} gives {v!r}"


def clip(text, left=0., right=1., default=.5, which=(1, 1, 1), **_):
  t = globals()["text"](text)
  l, r, d = (x if b else None for x, b in zip((left, right, default), which))
  if l is not None and r is not None and l > r:
    return
  if d is not None and (l is not None and d < l or r is not None and d > r):
    return
  kw = {k: v for k, v in (("left", l), ("right", r), ("default", d))
        if v is not None}
  check_clip(t, m.float_clip(**kw)(t), l, r, d)


def g_clip(rng, i):
  l, d, r = np.sort(rng.normal(size=3) * 10)
  k = int(rng.integers(8))
  return g_text(rng, i % 90, left=float(l), default=float(d), right=float(r),
                which=[k & 1, k >> 1 & 1, k >> 2])


def flt(v):
  return [None, math.nan, math.inf, -math.inf, float(v[1])][v[0]]


def fbound(smfb_0, smfb_1, **_):
  a, b = flt(smfb_0), flt(smfb_1)
  i, o = m.postprocess_fbound(a, b)
  assert set(i) == {"smfb_0", "smfb_1"}
  assert set(o) == {"sinusoidal__tracker__frequency_bounds"}
  lo, hi = o["sinusoidal__tracker__frequency_bounds"]
  assert lo < hi, f"({a}, {b}) gives ({lo}, {hi})"
  assert (i["smfb_0"], i["smfb_1"]) == (lo, hi)
  if a != b and a == a and b == b:
    assert (lo, hi) == (min(a, b), max(a, b)), f"({a}, {b}) gives ({lo}, {hi})"


def g_fbound(rng, i):
  f = lambda: [int(rng.integers(1, 5)) if rng.random() < .6 else 4,
               float(np.round(rng.normal(), 1))]
  return {"smfb_0": f(), "smfb_1": f()}


def jobs(n_jobs, parallel, **_):
  i, o = m.postprocess_multiprocessing(parallel, n_jobs)
  assert i == {"parallel": parallel, "n_jobs": n_jobs}
  assert o == {"n_jobs": n_jobs if parallel else 0}, f"{o}"


TYPES = ["hann", "boxcar", "blackman", "triang", "8.6", "kaiser", "", "nope",
         "general_hamming", "exponential", "tukey", "taylor", "flattop"]


class limit:
  """Fail when it takes too long"""

  def __enter__(self):

    def stop(*_):
      raise AssertionError("does not end")

    self.old = os_signal.signal(os_signal.SIGALRM, stop)
    os_signal.alarm(20)

  def __exit__(self, *_):
    os_signal.alarm(0)
    os_signal.signal(os_signal.SIGALRM, self.old)


def check_window(i, o, n, wsize, wtype):
  assert o["sinusoidal__n"] == i["sinusoidal__n"] == n
  s = min(n, wsize)
  assert i["wsize"] == s, f"window of {i['wsize']} for {wsize} and FFT of {n}"
  try:
    w = signal.get_window(wtype, s)
  except ValueError:
    w = signal.get_window(i["wtype"], s)
  else:
    assert i["wtype"] == wtype
  same(o["sinusoidal__w"], w, "window")


def window(n, wsize, wtype=None, known=True, **_):
  if n < 1 or wsize < 1 or min(n, wsize) > 1e6:
    return
  if wtype is None:
    wtype = "hann" if known else "nope"
  with limit():
    i, o = m.postprocess_windows(n, wsize, wtype)
  assert set(i) == {"sinusoidal__n", "wsize", "wtype"}
  assert set(o) == {"sinusoidal__n", "sinusoidal__w"}
  check_window(i, o, n, wsize, wtype)


def g_window(rng, i):
  return {"n": int(2**rng.integers(0, 11)), "wsize": int(rng.integers(1, 1500)),
          "wtype": TYPES[i % len(TYPES)]}


SETTINGS = dict(m._settings)


class Var:

  def __init__(self, v):
    self.v = v

  def get(self):
    return self.v

  def set(self, v):
    self.v = v


def entry(name, t):
  s = object.__new__(m.SettingsTab.Setting)
  d = SETTINGS[name]
  s.name, s.is_spacer = name, d.get("is_spacer", False)
  s.get_fn, s.set_fn, s.var = d.get("get_fn"), d.get("set_fn"), Var(t)
  return s


INTS = {"sinusoidal__tracker__max_n_sines": 1, "sinusoidal__tracker__h": 1,
        "wsize": 1, "n_jobs": 4, "max_n_modes": None}
CLIPS = {"sinusoidal__tracker__min_sine_dur": (0, None),
         "beat_decisor__th": (0, None), "beatsdrop__lpf": (2, 50)}
FLOATS = ("sinusoidal__tracker__freq_dev_offset",
          "sinusoidal__tracker__freq_dev_slope", "smfb_0", "smfb_1",
          "sinusoidal__tracker__peak_threshold", "sinusoidal__t")
ENTRIES = (*INTS, *CLIPS, *FLOATS, "sinusoidal__n",
           "sinusoidal__tracker__strip_t")


def setting(text, setting, **_):
  t = globals()["text"](text)
  v = entry(setting, t).get()
  if setting in INTS:
    check_posint(t, v, INTS[setting])
  elif setting in CLIPS:
    check_clip(t, v, *CLIPS[setting], None)
  elif setting == "sinusoidal__n":
    check_pow2(t, v)
  elif setting == "sinusoidal__tracker__strip_t":
    assert v is None or v > 0, f"{t!r} gives {v!r}"
  else:
    assert isinstance(v, (int, float)), f"{t!r} gives {v!r}"
    f = parse(t)
    assert f is None or v == f or f != f


def g_setting(rng, i):
  return g_text(rng, i // len(ENTRIES), setting=ENTRIES[i % len(ENTRIES)])


class Stub:
  pass


def apply(n=1024, wsize=2048, n_jobs=3, parallel=True, f0=1., f1=2.,
          wtype="hann", **_):
  """Any combination of settings"""
  if min(n, wsize, n_jobs) < 1 or n > 1 << 16 or n & (n - 1):
    return
  e = {k: entry(k, d.get("init_value", "")) for k, d in SETTINGS.items()}
  for k, v in (("sinusoidal__n", n), ("wsize", wsize), ("n_jobs", n_jobs),
               ("smfb_0", f0), ("smfb_1", f1), ("wtype", wtype),
               ("sinusoidal__tracker__strip_t", "0.5")):
    e[k].var.set(str(v))
  e["max_n_modes"].var.set("")
  e["parallel"].var.set(bool(parallel))
  stored = {}
  s = Stub()
  s._settings, s._postprocess = e, m._postprocess
  s.settings_file = Stub()
  s.settings_file.is_valid = s.settings_file.exists = lambda: True
  s.settings_file.save_json = lambda d, **k: stored.update(d)
  theme = Stub()
  theme.get = lambda: "theme"
  old = m.userfiles.UserTtkTheme

  class Theme:

    def __new__(cls, *a, **k):
      return theme

    is_valid = staticmethod(lambda t, **k: True)

  m.userfiles.UserTtkTheme = Theme
  try:
    with limit():
      m.SettingsTab.apply_cbk(s)
  finally:
    m.userfiles.UserTtkTheme = old
  par = s.sample_object_kwargs
  hidden = {"wsize", "wtype", "smfb_0", "smfb_1", "gui_theme", "parallel"}
  names = {k for k, d in SETTINGS.items() if not d.get("is_spacer")}
  assert set(stored) == names
  assert set(par) == names - hidden | {
      "sinusoidal__w", "sinusoidal__tracker__frequency_bounds"}
  check_window(stored, par, n, wsize, wtype)
  assert par["n_jobs"] == (n_jobs if parallel else 0)
  lo, hi = par["sinusoidal__tracker__frequency_bounds"]
  assert lo < hi and (f0 == f1 or (lo, hi) == (min(f0, f1), max(f0, f1)))
  for k in names - hidden - {"n_jobs", "sinusoidal__n"}:
    assert par[k] == stored[k]
  for k in names:
    assert e[k].var.get() == stored[k]


def g_apply(rng, i):
  f = [float(x) for x in np.round(rng.normal(size=2) * 3)]
  return {"n": int(2**rng.integers(0, 11)), "wsize": int(rng.integers(1, 1500)),
          "n_jobs": int(rng.integers(1, 9)), "parallel": bool(i % 2),
          "f0": f[0], "f1": f[1], "wtype": TYPES[i % len(TYPES)]}


def g_posint(rng, i):
  return g_text(rng, i // 3, default=["none", "omitted", 4][i % 3])


CASES = {
    "posint": (g_posint, posint, 600),
    "pow2": (g_text, pow2, 300),
    "tryfloat": (g_text, tryfloat, 120),
    "boolean": (g_text, boolean, 120),
    "strip": (g_text, strip, 120),
    "clip": (g_clip, clip, 600),
    "fbound": (g_fbound, fbound, 200),
    "jobs": (lambda rng, i: {"n_jobs": i // 2, "parallel": bool(i % 2)}, jobs,
             10),
    "window": (g_window, window, 200),
    "setting": (g_setting, setting, 15 * 90),
    "apply": (g_apply, apply, 60),
}
