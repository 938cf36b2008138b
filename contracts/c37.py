"""C37: analysis, resynthesis and export in the GUI"""
import io
import json as _json

from contracts.common import *  # noqa: F403
from contracts.c30 import Log
from pyvc import nparr as N

M = "sample.widgets.analysis"
U = "sample.widgets.utils"
S = "sample.widgets.sample"
NOTE = ("The widgets, the dialogs, the plots, the file system and "
        "scipy.io.wavfile.write by contract (a write fails or stores what it "
        "is given); the model is an uninterpreted function of time. The lock "
        "by contract: exclusive, taken at once or not at all.")
BOUNDED = ["analyses by several threads, and files as read back, with the "
           "real lock and file system"]
DATA = ("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop")
ERRORS = (None, ValueError, AttributeError, RuntimeError, KeyError)


class Lock:
  """A non-reentrant lock, possibly held by another analysis"""

  def __init__(self, p, busy):
    self.p, self.busy, self.held, self.n = p, busy, False, 0

  def acquire(self, blocking=True, timeout=-1):
    if self.busy or self.held:
      if blocking and timeout == -1:
        self.p.fail("the interface never waits for an analysis", "it does")
        raise RuntimeError("deadlock")
      return False
    self.held = True
    self.n += 1
    return True

  def release(self):
    if not self.held:
      self.p.fail("only an owned lock is released", "it was not owned")
      raise RuntimeError("release unlocked lock")
    self.held = False

  def locked(self):
    return self.busy or self.held

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()


def tab(p, w, **k):
  m = w.load(M)
  log = []
  c = m.AnalysisTab

  class Tab:
    audio_loaded = vars(w.load(U).DataOnRootMixin)["audio_loaded"]
    analysis_cbk = c.analysis_cbk
    play_cbk = c.play_cbk
    wav_export_cbk = c.wav_export_cbk
    export_cbk = c.export_cbk

    def __getattr__(self, k):
      # helpers of the class; attributes of the root that were never set
      v = vars(c).get(k)
      if v is None:
        if k.startswith("__") or k in ("_analisis_lock",):
          raise AttributeError(k)
        return None
      return v.__get__(self, type(self))

    def update_plot(self, *a, **k):
      log.append(("plot", self.audio_resynth_x, self.sample_object))
      if self.plot_error:
        raise self.plot_error("plot")

  s = Tab()
  w.patch(m, "logging", Log())
  w.patch(m, "messagebox", Obj(
      showerror=lambda *a, **k: log.append(("error", a)),
      showinfo=lambda *a, **k: log.append(("info", a))))
  for n in DATA + ("sample_object", "audio_resynth_x", "filedialog_file",
                   "filedialog_dir_save", "plot_error"):
    s.__dict__[n] = None
  s.__dict__.update(k)
  return m, s, log


def loaded(p):
  n = length(p, "n", 1)
  x = array(p, "x", (n,))
  sr = integer(p, "sr", lo=1)
  a, b = integer(p, "start", lo=0), integer(p, "stop")
  p.assume(a.z < b.z, b.z <= n.z)
  return dict(audio_x=x, audio_sr=sr, audio_trim_start=a, audio_trim_stop=b)


def selection(p, what, x, d):
  a, b = d["audio_trim_start"], d["audio_trim_stop"]
  if not isinstance(x, N.SArr):
    return p.fail(what, type(x).__name__)
  prove_array(p, what, x, (b - a,), lambda i: SReal(zreal(
      d["audio_x"].at(i + a.z))))


def count(log, k):
  return sum(e[0] == k for e in log)


for _busy in (False, True):
  for _miss in (None,) + (() if _busy else DATA):

    @vc("C37", "analysis" + (" while another one runs" if _busy else "") + (
        f" without {_miss}" if _miss else ""),
        [f"{M}:AnalysisTab.analysis_cbk", f"{M}:_non_block_lock"],
        replay="analysis", max_paths=400)
    def analysis(p, w, busy=_busy, miss=_miss):
      d = loaded(p)
      if miss:
        d[miss] = None
      lock = Lock(p, busy)
      old, kept = Token("earlier model"), Token("earlier resynthesis")
      bar = Token("bar")
      settings = {"beatsdrop": Token("b"), "sinusoidal__n": Token("n")}
      m, s, log = tab(p, w, **d, _analisis_lock=lock, sample_object=old,
                      audio_resynth_x=kept, progressbar=bar,
                      sample_object_kwargs=settings)
      stage = [k for k in ("factory", "fit", "plot") if p.choose(k + " fails")]
      err = ValueError if p.choose("ValueError") else AttributeError
      s.plot_error = err if "plot" in stage else None
      p.input("miss", lambda mo: miss)
      p.input("busy", lambda mo: busy)
      p.input("stage", lambda mo: list(stage))
      p.input("err", lambda mo: err.__name__)
      fit_args = {"_fit_args": Token("fa"), "n_jobs": Token("jobs")}

      class Model:

        def fit(self, x, y=None, **k):
          log.append(("fit", x, y, k, lock.held, self))
          if "fit" in stage:
            raise err("fit")
          return self

      made = []

      def factory(beatsdrop=False, progressbar=None, n_jobs=0, **k):
        log.append(("factory", beatsdrop, progressbar, k, lock.held))
        if "factory" in stage:
          raise err("factory")
        made.append(Model())
        return made[-1], dict(fit_args)

      w.patch(m, "sample", Obj(sample_factory=factory))
      try:
        s.analysis_cbk(Token("event"))
      except Exception as e:  # pylint: disable=W0703
        if str(e) != "plot":
          p.fail("errors are reported to the user", f"{type(e).__name__}: {e}")
      p.prove("the next analysis is possible", zbool(not lock.held))
      if miss or busy:
        p.prove("nothing is analysed", zbool(
            not count(log, "factory") and not count(log, "fit")))
        p.prove("the earlier analysis is kept", zbool(
            s.sample_object is old and s.audio_resynth_x is kept))
        p.prove("an error is reported when nothing is loaded", zbool(
            count(log, "error") == (1 if miss else 0)))
        return
      p.prove("one model", zbool(count(log, "factory") == 1))
      for e in log:
        if e[0] == "factory":
          p.prove("with the settings", zbool(
              e[1] is settings["beatsdrop"] and e[2] is bar and set(e[3]) == {
                  "sinusoidal__n", "sinusoidal__tracker__fs"} and
              e[3]["sinusoidal__n"] is settings["sinusoidal__n"]))
          p.prove("and the sampling rate of the audio", zint(
              e[3].get("sinusoidal__tracker__fs", -1)) == d["audio_sr"].z)
          p.prove("exclusively", zbool(e[4]))
        if e[0] == "fit":
          selection(p, "fitted to the selected range", e[1], d)
          p.prove("with the arguments of the factory, exclusively", zbool(
              e[2] is None and set(e[3]) == set(fit_args) and all(
                  e[3][k] is fit_args[k] for k in fit_args) and e[4] and
              e[5] is made[0]))
      p.prove("one fit", zbool(count(log, "fit") == len(made)))
      if made:
        p.prove("the model is the current one", zbool(
            s.sample_object is made[0]))
      p.prove("failures are reported", zbool(count(log, "error") == (
          1 if "factory" in stage or "fit" in stage else 0)))
      p.prove("no earlier resynthesis remains", zbool(
          s.audio_resynth_x is None))
      pl = [e for e in log if e[0] == "plot"]
      p.prove("the figure shows the new state", zbool(
          len(pl) == 1 and pl[0][1] is None and
          pl[0][2] is (made[0] if made else old)))
      p.prove("the settings are unmodified", zbool(
          set(settings) == {"beatsdrop", "sinusoidal__n"}))


class Predictor:
  """A fitted model"""

  def __init__(self):
    self.f = z3.Function("PRED", z3.RealSort(), z3.RealSort())
    self.calls = 0

  def predict(self, t, *a, **k):
    if a or k:
      raise Unsupported("arguments of predict")
    self.calls += 1
    t = frozen_copy(N.asarray(t))
    return N.SArr(t.shape, lambda i: SReal(self.f(zreal(t.at(i)))), "f")


class Unfitted:

  def predict(self, t):
    raise AttributeError("params_")

  def sdt_params_(self):
    raise AttributeError("params_")


def resynthesis(p, what, y, mod, d):
  n = d["audio_trim_stop"] - d["audio_trim_start"]

  def at(i):
    v = mod.f(V._norm(ToReal(N.zi(i)) / ToReal(d["audio_sr"].z)))
    return SReal(If(v < -1, -1, If(v > 1, 1, v)))

  if not isinstance(y, N.SArr):
    return p.fail(what, type(y).__name__)
  prove_array(p, what, y, (n,), at)


MODELS = ("fitted", "unfitted", "none")


def current(p, which):
  p.input("model", lambda mo: which)
  return {"fitted": Predictor, "unfitted": Unfitted, "none": lambda: None}[
      which]()


for _model in MODELS:
  for _miss in (None, "audio_sr"):
    for _o in (True, False):

      @vc("C37", f"playback of the {'original' if _o else 'resynthesis'}, "
          f"{_model} model{', nothing loaded' if _miss else ''}",
          [f"{M}:AnalysisTab.play_cbk", f"{M}:AnalysisTab._get_audio"],
          replay="audio")
      def play(p, w, which=_model, miss=_miss, o=_o):
        d = loaded(p)
        sel = dict(d)
        if miss:
          d[miss] = None
        mod = current(p, which)
        m, s, log = tab(p, w, **d, sample_object=mod)
        played = []

        class Temp:

          def __init__(self, x, sr):
            self.a = (x, sr)

          def play(self):
            played.append(self.a)

        w.patch(m, "audio", Obj(TempAudio=Temp))
        f = s.play_cbk(original=o)
        for k in ("first", "second"):
          if not attempt(p, "no failure", lambda: f(Token("event"))):
            return
          bad = miss or not o and which != "fitted"
          p.prove(f"{k}: an error or the audio", zbool(
              count(log, "error") == bool(bad) and
              len(played) == (not bad)))
          if not bad:
            x, sr = played[0]
            p.prove(f"{k}: at the sampling rate", zint(sr) == d["audio_sr"].z)
            if o:
              selection(p, f"{k}: the selected range", x, sel)
            else:
              resynthesis(p, f"{k}: the clipped prediction", x, mod, d)
          del played[:], log[:]
        if which == "fitted":
          p.prove("predicted at most once", zbool(mod.calls <= 1))


for _model in MODELS:
  for _chosen in (True, False):

    @vc("C37", f"WAV export, {_model} model"
        f"{'' if _chosen else ', cancelled'}",
        [f"{M}:AnalysisTab.wav_export_cbk", f"{M}:AnalysisTab._get_audio",
         f"{M}:AnalysisTab._filedialog_file_safe"], replay="export")
    def wav(p, w, which=_model, chosen=_chosen):
      d = loaded(p)
      p.input("kind", lambda mo: "wav")
      p.input("chosen", lambda mo: chosen)
      fails = p.choose("the file cannot be written")
      p.input("fails", lambda mo: bool(fails))
      written = []

      def write(filename, rate, data):
        written.append((filename, rate, data))
        if fails:
          raise OSError("disk")

      lib(w, "scipy.io.wavfile.write", write)
      mod = current(p, which)
      m, s, log = tab(p, w, **d, sample_object=mod, filedialog_dir_save="old",
                      filedialog_file="/in/put.wav" if p.choose("named")
                      else None)
      w.patch(m, "filedialog", Obj(
          asksaveasfilename=lambda *a, **k: "/dir/name.wav" if chosen else ""))
      if not attempt(p, "no failure", lambda: s.wav_export_cbk(Token("e"))):
        return
      ok = which == "fitted" and chosen
      p.prove("written if and only if a file is chosen", zbool(
          len(written) == ok))
      p.prove("errors are reported, success is confirmed", zbool(
          count(log, "error") == (which != "fitted" or ok and bool(fails)) and
          count(log, "info") == (ok and not fails)))
      p.prove("the directory is remembered", zbool(
          s.filedialog_dir_save == ("/dir" if ok else "old")))
      if ok:
        p.prove("the chosen file", zbool(written[0][0] == "/dir/name.wav"))
        p.prove("the sampling rate", zint(written[0][1]) == d["audio_sr"].z)
        resynthesis(p, "the clipped prediction", written[0][2], mod, d)

    @vc("C37", f"JSON export, {_model} model"
        f"{'' if _chosen else ', cancelled'}",
        [f"{M}:AnalysisTab.export_cbk",
         f"{M}:AnalysisTab._filedialog_file_safe"], replay="export")
    def js(p, w, which=_model, chosen=_chosen):
      p.input("kind", lambda mo: "json")
      p.input("chosen", lambda mo: chosen)
      fails = p.choose("the file cannot be written")
      p.input("fails", lambda mo: bool(fails))
      value = {"nFragments": 1.5, "freqs": [440.25, 1e-9], "name": "\u00e8 \""}
      mod = current(p, which)
      if which == "fitted":
        mod = Obj(sdt_params_=lambda: dict(value))
      m, s, log = tab(p, w, sample_object=mod, filedialog_dir_save="old",
                      filedialog_file="/in/put.wav" if p.choose("named")
                      else None)
      files = []

      class File(io.StringIO):

        def __exit__(self, *a):
          files[-1][2] = self.getvalue()
          return super().__exit__(*a)

      def opened(name, mode="r", *a, encoding=None, **k):
        if fails:
          raise OSError("disk")
        if mode not in ("w", "wt") or encoding not in ("utf-8", "utf8"):
          p.fail("written as text in UTF-8", f"{mode}, {encoding}")
        files.append([name, mode, None])
        return File()

      w.patch(m, "open", opened)
      w.patch(m, "filedialog", Obj(
          asksaveasfilename=lambda *a, **k: "/dir/name.json" if chosen
          else ""))
      if not attempt(p, "no failure", lambda: s.export_cbk(Token("e"))):
        return
      ok = which == "fitted" and chosen
      p.prove("written if and only if a file is chosen", zbool(
          len(files) == (ok and not fails)))
      p.prove("errors are reported, success is confirmed", zbool(
          count(log, "error") == (which != "fitted" or ok and bool(fails)) and
          count(log, "info") == (ok and not fails)))
      p.prove("the directory is remembered", zbool(
          s.filedialog_dir_save == ("/dir" if ok else "old")))
      if files:
        p.prove("the chosen file holds the SDT parameters", zbool(
            files[0][0] == "/dir/name.json" and files[0][2] is not None and
            _json.loads(files[0][2]) == value))


for _b in (False, True, None):

  @vc("C37", f"model of the settings, beatsdrop={_b}",
      [f"{S}:sample_factory"], replay="factory")
  def factory(p, w, b=_b):
    m = w.load(S)
    p.input("beatsdrop", lambda mo: b)
    saves = ("beat_decisor__intermediate__save",
             "sinusoidal__intermediate__save")
    known = ("sinusoidal__n", "max_n_modes") + saves[1:] + (
        saves[:1] if b else ())
    sets, made = [], []

    def model(name):

      class Model:

        def __init__(self, *a, **k):
          made.append((name, a, k))

        def get_params(self, deep=True):
          if not deep:
            raise Unsupported("shallow parameters")
          return {k: Token(k) for k in known}

        def set_params(self, **k):
          sets.append(k)
          return self

      return Model

    w.patch(m.sample.sample, "SAMPLE", model("SAMPLE"))
    w.patch(m.bd.sample, "SAMPLEBeatsDROP", model("SAMPLEBeatsDROP"))
    w.patch(m, "logging", Log())
    kw = {k: Token(k + " value") for k in ("sinusoidal__n", "max_n_modes",
                                           "unknown") + saves if p.choose(k)}
    p.input("given", lambda mo: sorted(kw))
    bar, jobs = Token("bar"), Token("jobs")
    extra = {} if b is None else {"beatsdrop": b}
    r = attempt(p, "a model", lambda: m.sample_factory(
        progressbar=bar, n_jobs=jobs, **extra, **kw))
    if not r:
      return
    if len(made) != 1:
      return p.fail("one model", str(len(made)))
    p.prove("of the chosen class, by default", zbool(made[0] == (
        "SAMPLEBeatsDROP" if b else "SAMPLE", (), {})))
    got = {}
    for k in sets:
      got.update(k)
    want = {k: True for k in saves}
    want.update(kw)
    want = {k: v for k, v in want.items() if k in known}
    p.prove("every setting the model has is set, and no other", zbool(
        set(got) == set(want)))
    p.prove("to the given values", zbool(all(
        got[k] is v for k, v in want.items() if k in got)))
    obj, fit = r[0]
    p.prove("the number of workers", zbool(
        set(fit) == {"_fit_args", "n_jobs"} and fit["n_jobs"] is jobs))
    p.prove("the progress bar", zbool(fit["_fit_args"].progressbar is bar))
