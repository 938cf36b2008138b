"""C30: loading and trimming of audio in the GUI"""
import os
import tempfile
import threading
import warnings
from unittest import mock

import numpy as np
from scipy.io import wavfile

from battery.util import close, same
from sample.utils import dsp
from sample.widgets import audioload as m

warnings.simplefilter("ignore")


FRAME = m.tk.Frame


class Root:
  """The root widget, where the audio is kept"""
  audio_x = audio_sr = audio_trim_start = audio_trim_stop = None


class Var:
  """A text variable"""

  def __init__(self, *_, value=None, **__):
    self.v, self.cbk = value, []

  def trace_add(self, mode, f):
    assert mode == "write"
    self.cbk.append(f)

  def get(self):
    return self.v

  def set(self, v):
    self.v = v
    for f in self.cbk:
      f("", "", "write")


def tab(cls=m.AudioLoadTab, plot=False, **k):
  """The tab with stand-ins for the widgets"""
  s = object.__new__(cls)
  root = Root()
  root.__dict__.update(k)
  s.winfo_parent = lambda: ""
  s._nametowidget = lambda _: root
  s.responsive = lambda *a, **k: None
  tk = mock.MagicMock()
  tk.StringVar = Var
  root.audio_cache_file = mock.MagicMock()
  root.audio_cache_file.is_valid.return_value = False
  with mock.patch.multiple(m, tk=tk, pyplot=mock.MagicMock(),
                           utils=mock.MagicMock(),
                           _backend_tk=mock.MagicMock()), \
      mock.patch.object(FRAME, "__init__", lambda *a, **k: None):
    m.AudioLoadTab.__init__(s)
  s.ax.get_xlim = s.ax.get_ylim = lambda: (0, 1)
  s._check_vals = {}
  if not plot:
    s.update_plot = lambda update_vars=True: None
  return s


def valid(s):
  a, b = s.audio_trim_start, s.audio_trim_stop
  assert all(isinstance(v, (int, np.integer)) for v in (a, b)), (a, b)
  n = s.audio_x.size
  assert 0 <= a < b <= n, f"range [{a}, {b}) of {n} samples"


def clamp(v, lo, hi):
  return min(max(v, lo), hi)


def honoured(s, t, start, a, b, n):
  """t: position in samples, to be rounded"""
  lo, hi = (0, b - 1) if start else (a + 1, n)
  g = s.audio_trim_start if start else s.audio_trim_stop
  assert abs(g - clamp(t, lo, hi)) < 1, f"{t} of [{a}, {b}) gives {g}"
  assert (s.audio_trim_stop == b) if start else (s.audio_trim_start == a)


def trim(n, start, stop, value, sr=44100, kw=None, **_):
  if not (0 <= start < stop <= n <= 1e6 and sr >= 1):
    return
  kw = kw or {}
  s = tab(audio_x=np.zeros(n), audio_sr=sr, audio_trim_start=start,
          audio_trim_stop=stop)
  s.set_trim(value, **kw)
  valid(s)
  sec = not kw.get("samples", True)
  t = value * sr if sec else value
  st = kw.get("start", True)
  honoured(s, t, st, start, stop, n)
  if not sec:
    lo, hi = (0, stop - 1) if st else (start + 1, n)
    assert (s.audio_trim_start if st else s.audio_trim_stop) == clamp(
        value, lo, hi)


def g_trim(rng, i):
  n = int(rng.integers(1, 1000))
  a, b = sorted(int(v) for v in rng.choice(n + 1, 2, replace=False))
  kw = {}
  if i % 3:
    kw["start"] = bool(i % 2)
  if i % 4:
    kw["samples"] = i % 4 != 1
  sr = int(rng.choice([1, 2, 8000, 44100]))
  v = int(rng.integers(-20, n + 20))
  if kw.get("samples") is False:
    v = (v + float(rng.random() if i % 5 else 0)) / sr
  return {"n": n, "start": a, "stop": b, "value": v, "sr": sr, "kw": kw}


def audio(rng, i):
  n = int(rng.choice([1, 2, 3, 100, 255, 256, 257, 1000, 5000, 20000]))
  x = np.zeros(n)
  if i % 3 == 1:
    x += rng.normal(size=n) * .1
  for k in rng.integers(0, n, size=i % 5):
    x[k:] += np.exp(-np.arange(n - k) / 300) * np.sin(np.arange(n - k) * .3)
  return x


def auto(x=None, onsets=None, seed=0, idx=0, **_):
  if x is None:
    x = audio(np.random.default_rng(seed), idx)
  x = np.asarray(x, dtype=float)
  for old in ((None, None), (5, 10**6)):
    s = tab(audio_x=x, audio_sr=44100, audio_trim_start=old[0],
            audio_trim_stop=old[1])
    if onsets is None:
      s.auto_trim()
    else:
      o = np.asarray(onsets, dtype=bool)
      if o.size != x.size:
        return
      with mock.patch.object(dsp, "onset_detection", lambda *a, **k: o):
        s.auto_trim()
    valid(s)


def g_auto(rng, i):
  if i % 2:
    return {"seed": int(rng.integers(1 << 30)), "idx": i}
  n = int(rng.integers(1, 12))
  o = rng.random(n) < [0, .1, .5, 1][i // 2 % 4]
  return {"x": [0.] * n, "onsets": [bool(v) for v in o]}


def _raw(rng, dtype, n, nd):
  shape = (n,) if nd == 1 else (n, int(rng.integers(1, 4)))
  d = np.dtype(dtype)
  if d.kind == "f":
    return rng.uniform(-1, 1, size=shape).astype(d)
  i = np.iinfo(d)
  x = rng.integers(i.min, i.max, size=shape, dtype=d, endpoint=True)
  x.flat[0] = i.min
  x.flat[-1] = i.max
  return x


NAMES = {"i16": "int16", "i32": "int32", "u8": "uint8", "f32": "float32",
         "f64": "float64", "i8": "int8", "i64": "int64"}


def load(dtype="int16", seed=0, n=100, dims=1, raw=None, sr=8000,
         through_file=False, **_):
  dtype = NAMES.get(dtype, dtype)
  if raw is None:
    raw = _raw(np.random.default_rng(seed), dtype, n, dims)
  else:
    raw = np.asarray(raw).astype(dtype)
  if raw.size == 0:
    return
  s = tab(plot=True, audio_x=np.zeros(10**6), audio_sr=3,
          audio_trim_start=10**5, audio_trim_stop=2 * 10**5)
  with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.wav")
    if through_file:
      wavfile.write(f, sr, raw)
      read = wavfile.read
    else:
      read = lambda *a, **k: (sr, raw)
    s.filedialog_dir = d
    errors = []
    with mock.patch.multiple(
        m, filedialog=mock.MagicMock(askopenfilename=lambda **k: f),
        messagebox=mock.MagicMock(showerror=lambda *a: errors.append(a)),
        utils=mock.MagicMock()), mock.patch.object(m.wavfile, "read", read):
      s.load_cbk()
  assert not errors, errors
  x = s.audio_x
  assert x.ndim == 1 and x.size == len(raw) and x.dtype.kind == "f"
  assert s.audio_sr == sr
  k = np.dtype(dtype)
  y = raw.astype(float)
  if k.kind != "f":
    h = 2.**(8 * k.itemsize - 1)
    y = (y - (h if k.kind == "u" else 0)) / h
    assert np.max(np.abs(x)) <= 1, "samples outside [-1, 1]"
  if y.ndim > 1:
    y = np.mean(y, axis=1)
  close(x, y, "samples", 1e-6, 1e-7)
  valid(s)


def g_load(rng, i):
  d = ["int16", "int32", "uint8", "float32", "float64"][i % 5]
  return {"dtype": d, "seed": int(rng.integers(1 << 30)), "dims": 1 + i // 5 % 2,
          "n": int(rng.integers(1, 3000)), "sr": int(rng.choice([1, 8000])),
          "through_file": True}


def shown(start, stop, n, sr, **_):
  """The range that the entries show is the range"""
  if not 0 <= start < stop <= n:
    return
  s = tab(plot=True, audio_x=np.zeros(n), audio_sr=sr, audio_trim_start=start,
          audio_trim_stop=stop)
  with mock.patch.object(m, "utils", mock.MagicMock()):
    s.update_plot()
    assert (s.audio_trim_start, s.audio_trim_stop) == (start, stop), \
        f"[{start}, {stop}) becomes [{s.audio_trim_start}, " \
        f"{s.audio_trim_stop}) at {sr} Hz"
    s.set_trim(start, update=True, update_vars=True)
    s.set_trim(stop, start=False, update=True, update_vars=True)
  assert (s.audio_trim_start, s.audio_trim_stop) == (start, stop), \
      f"[{start}, {stop}) becomes [{s.audio_trim_start}, " \
      f"{s.audio_trim_stop}) at {sr} Hz"


def g_shown(rng, i):
  n = int(rng.integers(2, 5000))
  a, b = sorted(int(v) for v in rng.choice(n + 1, 2, replace=False))
  return {"n": n, "start": a, "stop": b,
          "sr": int(rng.choice([8000, 22050, 44100, 48000, 96000]))}


TEXTS = ["nan", "inf", "-inf", "abc", "", "0", "-1", "1e-3", "1e9", ".5"]


def entry(n, start, stop, sr, text, **_):
  from battery.c29 import text as mk
  text = mk(text)
  if not 0 <= start < stop <= n <= 10**6:
    return
  for st in (True, False):
    s = tab(plot=True, audio_x=np.zeros(n), audio_sr=sr,
            audio_trim_start=start, audio_trim_stop=stop)
    var = s.trim_start_input_var if st else s.trim_stop_input_var
    with mock.patch.object(m, "utils", mock.MagicMock()):
      try:
        var.set(text)
      except (ValueError, OverflowError):
        try:
          v = float(text)
        except ValueError:
          v = 0.
        assert not np.isfinite(v), f"{text!r} fails"
        valid(s)
        continue
    valid(s)
    try:
      v = float(text)
    except ValueError:
      v = 0.
    if np.isfinite(v):
      honoured(s, v * sr, st, start, stop, n)


def g_entry(rng, i):
  d = g_shown(rng, i)
  d["text"] = TEXTS[i % 20] if i % 20 < len(TEXTS) else repr(
      float(rng.uniform(-.1, 1.1) * d["n"] / d["sr"]))
  return d


class Event:

  def __init__(self, v):
    self.xdata = v


def mouse(n, start, stop, sr, press, release, **_):
  if not 0 <= start < stop <= n <= 10**6 or sr < 1:
    return
  s = tab(plot=True, audio_x=np.zeros(n), audio_sr=sr, audio_trim_start=start,
          audio_trim_stop=stop)
  with mock.patch.object(m, "utils", mock.MagicMock()):
    s.manual_trim_cbk_release(Event(release))
    assert (s.audio_trim_start, s.audio_trim_stop) == (start, stop)
    s.manual_trim_cbk_press(Event(press))
    assert (s.audio_trim_start, s.audio_trim_stop) == (start, stop)
    x = press * sr
    a, b = abs(x - start), abs(x - stop)
    st = bool(s._trim_side)
    assert st if a + 2 < b else not st if b + 2 < a else True, "closer side"
    s.manual_trim_cbk_release(Event(release))
  valid(s)
  honoured(s, release * sr, st, start, stop, n)
  assert s._trim_side is None


def g_mouse(rng, i):
  d = g_shown(rng, i)
  for k in ("press", "release"):
    d[k] = float(rng.uniform(-.1, 1.1) * d["n"] / d["sr"])
  return d


def unreadable(**_):
  for f in ("/nonexistent/file.wav", ""):
    x = np.zeros(10)
    s = tab(plot=True, audio_x=x, audio_sr=3, audio_trim_start=2,
            audio_trim_stop=4)
    shown_ = []
    with mock.patch.multiple(
        m, filedialog=mock.MagicMock(askopenfilename=lambda **k: f),
        messagebox=mock.MagicMock(showerror=lambda *a: shown_.append(a)),
        utils=mock.MagicMock()):
      s.load_cbk()
    assert len(shown_) == bool(f)
    assert s.audio_x is x and s.audio_sr == 3
    assert (s.audio_trim_start, s.audio_trim_stop) == (2, 4)


def history(seed=0, **_):
  """Any sequence of loads and trims"""
  rng = np.random.default_rng(seed)
  s = tab(plot=True)
  s.filedialog_dir = "d"
  with mock.patch.multiple(
      m, filedialog=mock.MagicMock(askopenfilename=lambda **k: "f"),
      messagebox=mock.MagicMock(showerror=None), utils=mock.MagicMock()):
    for _ in range(12):
      k = rng.integers(5)
      if k == 0 or s.audio_x is None:
        x = (audio(rng, int(rng.integers(20))) * 8000).astype(np.int16)
        with mock.patch.object(m.wavfile, "read", lambda *a: (8000, x)):
          s.load_cbk()
      elif k == 1:
        s.set_trim(int(rng.integers(-5, s.audio_x.size + 5)),
                   start=bool(rng.integers(2)), update=True, update_vars=True)
      elif k == 2:
        v = s.trim_start_input_var if rng.integers(2) else \
            s.trim_stop_input_var
        v.set(str(rng.uniform(-.1, 1.1) * s.audio_x.size / 8000))
      elif k == 3:
        for _ in range(2):
          s.manual_trim_cbk_press(Event(rng.uniform(-.1, 1.1) *
                                        s.audio_x.size / 8000))
        s.manual_trim_cbk_release(Event(rng.uniform(-.1, 1.1) *
                                        s.audio_x.size / 8000))
      else:
        s.update_plot()
      valid(s)


CASES = {
    "trim": (g_trim, trim, 300),
    "auto": (g_auto, auto, 120),
    "load": (g_load, load, 60),
    "shown": (g_shown, shown, 150),
    "entry": (g_entry, entry, 120),
    "mouse": (g_mouse, mouse, 120),
    "unreadable": (lambda rng, i: {}, unreadable, 1),
    "history": (lambda rng, i: {"seed": int(rng.integers(1 << 30))}, history,
                25),
}
