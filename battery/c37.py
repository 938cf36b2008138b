"""C37: analysis, resynthesis and export in the GUI"""
import json
import os
import tempfile
import threading
import warnings
from unittest import mock

import numpy as np
from scipy.io import wavfile

from battery.util import close, same
from sample import beatsdrop
from sample.beatsdrop import sample as bd_sample
from sample.sample import SAMPLE
from sample.widgets import analysis as m
from sample.widgets import sample as ms

warnings.simplefilter("ignore")
DATA = ("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop")


class Lock:
  """A real lock; waiting for an analysis that runs is a failure"""

  def __init__(self):
    self.l = threading.Lock()
    self.release, self.locked = self.l.release, self.l.locked

  def acquire(self, blocking=True, timeout=-1):
    if self.l.acquire(blocking=False):
      return True
    assert not blocking or timeout >= 0, "the interface waits for an analysis"
    return False

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()


class Root:
  """The root widget, where the state is kept"""


def tab(**k):
  """The tab with stand-ins for the widgets"""
  s = object.__new__(m.AnalysisTab)
  root = Root()
  root.__dict__.update(k)
  s.winfo_parent = lambda: ""
  s._nametowidget = lambda _: root
  s._analisis_lock = Lock()
  s.progressbar = mock.MagicMock()
  s.log = []
  s.plot_error = None

  def plot(*a, **k):
    s.log.append(("plot", s.audio_resynth_x, s.sample_object))
    if s.plot_error:
      raise s.plot_error("plot")

  s.update_plot = plot
  return s


def box(s):
  return mock.patch.object(m, "messagebox", mock.Mock(
      showerror=lambda *a, **k: s.log.append(("error", a)),
      showinfo=lambda *a, **k: s.log.append(("info", a))))


def count(s, k):
  return sum(e[0] == k for e in s.log)


def audio_of(rng, i, n=None):
  n = int(rng.integers(1, 400)) if n is None else n
  a, b = sorted(int(v) for v in rng.choice(n + 1, 2, replace=False))
  return dict(x=rng.uniform(-1, 1, n), sr=int([8000, 44100, 1][i % 3]),
              start=a, stop=b)


def state(x, sr, start, stop, miss=None):
  d = dict(zip(DATA, (np.asarray(x, float), sr, start, stop)))
  if miss:
    d[miss] = None
  return d


def ok(x, sr, start, stop):
  return x is not None and 0 <= start < stop <= np.size(x) and sr >= 1


def gen_analysis(rng, i):
  st = [[], [], ["factory"], ["fit"], ["plot"], ["fit", "plot"]][i % 6]
  return dict(audio_of(rng, i), stage=st, busy=i % 7 == 3,
              miss=[None, None, None, *DATA][i % 7] if i % 5 == 2 else None,
              err=["ValueError", "AttributeError", "KeyError"][i % 3])


def check_analysis(x=None, sr=1, start=0, stop=1, stage=(), busy=False,
                   miss=None, err="ValueError", **_):
  if not ok(x, sr, start, stop):
    return
  err = getattr(__builtins__, err) if not isinstance(
      __builtins__, dict) else __builtins__[err]
  old, kept, fit_args = object(), object(), {"n_jobs": 3}
  s = tab(**state(x, sr, start, stop, miss), sample_object=old,
          audio_resynth_x=kept, sample_object_kwargs={"sinusoidal__n": 64})
  x = np.asarray(x, float)
  inner = []

  class Model:

    def fit(self, y, **k):
      s.log.append(("fit", np.copy(y), k))
      if len(inner) < 1:
        # the user clicks again while the analysis is running
        inner.append(1)
        n = len(s.log)
        s.analysis_cbk()
        assert len(s.log) == n, f"a nested analysis: {s.log[n:]}"
        th = threading.Thread(target=s.analysis_cbk, daemon=True)
        th.start()
        th.join(5)
        assert not th.is_alive(), "a concurrent analysis waits"
        assert len(s.log) == n, f"a concurrent analysis: {s.log[n:]}"
      if "fit" in stage:
        raise err("fit")
      return self

  made = []

  def factory(**k):
    s.log.append(("factory", k))
    if "factory" in stage:
      raise err("factory")
    made.append(Model())
    return made[-1], dict(fit_args)

  s.plot_error = err if "plot" in stage else None
  if busy:
    s._analisis_lock.acquire()
  with box(s), mock.patch.object(ms, "sample_factory", factory), \
      mock.patch.object(m.sample, "sample_factory", factory):
    try:
      s.analysis_cbk("event")
    except Exception as e:  # pylint: disable=W0703
      if isinstance(e, AssertionError) or "plot" not in str(e):
        raise AssertionError(f"not reported to the user: {e!r}") from e
  if busy:
    s._analisis_lock.release()
  assert s._analisis_lock.acquire(blocking=False), "the lock is not released"
  if miss or busy:
    assert s.sample_object is old and s.audio_resynth_x is kept, "state"
    assert [e[0] for e in s.log] == (["error"] if miss else []), s.log
    return
  same([e for e in s.log if e[0] == "factory"][0][1]
       ["sinusoidal__tracker__fs"], sr, "sampling rate")
  assert [e for e in s.log if e[0] == "factory"][0][1][
      "sinusoidal__n"] == 64, "settings"
  f = [e for e in s.log if e[0] == "fit"]
  assert len(f) == len(made) == ("factory" not in stage), "fits"
  if made:
    same(f[0][1], x[start:stop], "selected range")
    assert f[0][2] == fit_args, "fit arguments"
    assert s.sample_object is made[0], "current model"
  assert count(s, "error") == ("fit" in stage or "factory" in stage), s.log
  assert s.audio_resynth_x is None, "an earlier resynthesis remains"
  pl = [e for e in s.log if e[0] == "plot"]
  assert len(pl) == 1 and pl[0][1] is None, "figure"


class Predictor:

  def __init__(self):
    self.calls = 0

  def predict(self, t):
    self.calls += 1
    return 1.6 * np.sin(np.asarray(t) * 3000.1)

  def sdt_params_(self):
    return {"nFragments": 1.5, "freqs": [440.25, 1e-9], "name": "\u00e8 \""}


class Unfitted:

  def __getattr__(self, k):
    raise AttributeError(k)


def current(which):
  return {"fitted": Predictor, "unfitted": SAMPLE, "none": lambda: None}[
      which]()


def want(x, sr, start, stop):
  return np.clip(Predictor().predict(np.arange(stop - start) / sr), -1, 1)


MODELS = ("fitted", "fitted", "unfitted", "none")


def gen_audio(rng, i):
  return dict(audio_of(rng, i), model=MODELS[i % 4], o=bool(i % 3 == 2),
              miss=DATA[i % 4] if i % 6 == 5 else None)


def check_audio(x=None, sr=1, start=0, stop=1, model="fitted", miss=None,
                o=None, **_):
  if not ok(x, sr, start, stop):
    return
  for orig in (True, False) if o is None else (o,):
    s = tab(**state(x, sr, start, stop, miss), sample_object=current(model),
            audio_resynth_x=None)
    played = []

    class Temp:

      def __init__(self, y, fs):
        self.a = np.copy(y), fs

      def play(self):
        played.append(self.a)

    f = s.play_cbk(original=orig)
    for k in ("first", "second"):
      with box(s), mock.patch.object(m.audio, "TempAudio", Temp):
        f("event")
      bad = bool(miss) or not orig and model != "fitted"
      assert count(s, "error") == bad, f"{k}: {s.log}"
      assert len(played) == (not bad), f"{k}: {len(played)} played"
      if not bad:
        assert played[0][1] == sr, f"{k}: at {played[0][1]} Hz"
        close(played[0][0], np.asarray(x, float)[start:stop] if orig
              else want(x, sr, start, stop), f"{k}: audio")
      del played[:], s.log[:]
    if model == "fitted":
      assert s.sample_object.calls <= 1, "predicted again"


def gen_export(rng, i):
  return dict(audio_of(rng, i), model=MODELS[i % 4], chosen=bool(i % 5),
              kind=["wav", "json"][i // 4 % 2], fails=i % 7 == 3)


def check_export(x=None, sr=1, start=0, stop=1, model="fitted", chosen=True,
                 kind="wav", fails=False, **_):
  if x is None:
    x, sr, start, stop = np.zeros(5), 8000, 1, 4
  if not ok(x, sr, start, stop):
    return
  with tempfile.TemporaryDirectory() as d:
    s = tab(**state(x, sr, start, stop), sample_object=current(model),
            audio_resynth_x=None, filedialog_file=None,
            filedialog_dir_save="old")
    name = os.path.join(d, "none" if fails else "", "name." + kind)
    there = start % 2 and not fails
    if there:
      with open(name, "w", encoding="utf-8") as f:
        f.write("an earlier export " * 1000)
    with box(s), mock.patch.object(m, "filedialog", mock.Mock(
        asksaveasfilename=lambda *a, **k: name if chosen else "")):
      (s.wav_export_cbk if kind == "wav" else s.export_cbk)("event")
    good = chosen and model == "fitted"
    if there and not good:
      with open(name, encoding="utf-8") as f:
        assert f.read() == "an earlier export " * 1000, "overwritten"
    assert os.path.exists(name) == bool(there or good and not fails), "file"
    assert count(s, "error") == (model != "fitted" or good and fails), s.log
    assert count(s, "info") == (good and not fails), s.log
    assert s.filedialog_dir_save == (os.path.dirname(name) if good
                                     else "old"), s.filedialog_dir_save
    if good and not fails:
      if kind == "wav":
        r, y = wavfile.read(name)
        assert r == sr, f"sampling rate {r}"
        close(y, want(x, sr, start, stop), "exported audio")
      else:
        with open(name, encoding="utf-8") as f:
          assert json.load(f) == Predictor().sdt_params_(), "parameters"


SAVES = ("beat_decisor__intermediate__save", "sinusoidal__intermediate__save")


def gen_factory(rng, i):
  ks = ("sinusoidal__n", "max_n_modes", "unknown", *SAVES)
  return dict(given=[k for k in ks if rng.integers(2)],
              beatsdrop=[True, False, None][i % 3])


def check_factory(given=(), beatsdrop=None, **_):
  vals = {"sinusoidal__n": 512, "max_n_modes": 0, "unknown": 1,
          **{k: False for k in SAVES}}
  kw = {k: vals[k] for k in given}
  if beatsdrop is not None:
    kw["beatsdrop"] = beatsdrop
  bar = mock.MagicMock()
  obj, fit = ms.sample_factory(progressbar=bar, n_jobs=2, **kw)
  assert type(obj) is (bd_sample.SAMPLEBeatsDROP if beatsdrop else SAMPLE)
  p = obj.get_params()
  ref = type(obj)().get_params()
  for k in p:
    if k in vals or k in SAVES:
      v = kw[k] if k in kw else True if k in SAVES else ref[k]
      assert p[k] == v, f"{k}: {p[k]} instead of {v}"
    elif isinstance(p[k], (int, float, str, bool, type(None))):
      assert p[k] == ref[k], f"{k} changed to {p[k]}"
  assert fit["n_jobs"] == 2 and fit["_fit_args"].progressbar is bar
  assert set(fit) == {"n_jobs", "_fit_args"}


def gen_real(rng, i):
  return dict(i=i, beatsdrop=bool(i % 2))


def check_real(i=0, beatsdrop=False, **_):
  """A whole analysis"""
  rng = np.random.default_rng(i)
  sr = 8000
  t = np.arange(sr // 4) / sr
  x = .8 * np.exp(-6 * t) * np.cos(2 * np.pi * (500 + 100 * i) * t) + \
      .01 * np.exp(-6 * t) * rng.normal(size=t.size)
  s = tab(audio_x=x, audio_sr=sr, audio_trim_start=100, audio_trim_stop=1950,
          sample_object=None, audio_resynth_x=None, filedialog_file=None,
          filedialog_dir_save=None, sample_object_kwargs=dict(
              beatsdrop=beatsdrop, max_n_modes=3,
              sinusoidal__tracker__min_sine_dur=.05))
  with box(s):
    s.analysis_cbk()
  assert not count(s, "error"), s.log
  o = s.sample_object
  assert o.sinusoidal.fs == sr, f"analysed at {o.sinusoidal.fs} Hz"
  with box(s):
    y = s._get_audio(True)
  close(y, np.clip(o.predict(np.arange(1850) / sr), -1, 1), "resynthesis")
  check_file(s, o)


def check_file(s, o):
  with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "a.json")
    with box(s), mock.patch.object(m, "filedialog", mock.Mock(
        asksaveasfilename=lambda *a, **k: name)):
      s.export_cbk()
    assert not count(s, "error"), s.log
    with open(name, encoding="utf-8") as f:
      j = json.load(f)
    assert j == json.loads(json.dumps(o.sdt_params_())), "parameters"


CASES = {
    "analysis": (gen_analysis, check_analysis, 120),
    "audio": (gen_audio, check_audio, 100),
    "export": (gen_export, check_export, 100),
    "factory": (gen_factory, check_factory, 60),
    "real": (gen_real, check_real, 2),
}
