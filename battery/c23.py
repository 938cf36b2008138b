"""Concrete contracts of parallel fitting"""
import copy
import multiprocessing.pool
import sys
import threading
import time

import numpy as np
from sklearn import base

from battery.util import close, same
from sample import _training, sample as sm
from sample.beatsdrop import sample as bs
from sample.utils import learn

KEYS = ("beat_decisor__intermediate", "sinusoidal__intermediate")


class Fault(Exception):
  pass


class Interrupt(BaseException):
  """As a keyboard interrupt"""


def sleeper(seed, scale=4e-3):
  """Random delays, one for each argument: any completion order"""
  ds = np.random.default_rng(seed).uniform(0, scale, 64)
  return lambda i: time.sleep(ds[i % 64])


def starmap(n, seed=0, **_):
  if n > 40:
    return
  nap = sleeper(seed)
  calls, lock = [], threading.Lock()

  def f(i, x):
    nap(i)
    with lock:
      calls.append(i)
    if x == "bad":
      raise Fault(i)
    return i, x

  args = [(i, f"x{i}") for i in range(n)]
  with multiprocessing.pool.ThreadPool(3) as pool:
    fa = _training.FitArgs()
    for it in (args, iter(args), (a for a in args)):
      for kw in ({}, {"refresh_time": 0}):
        if kw and it is not args:
          continue
        calls.clear()
        r = list(_training._progress_starmap(pool, fa, f, it, **kw))
        assert r == args, ("results in order", r)
        assert sorted(calls) == list(range(n)), ("each once", calls)
    if n > 1:
      bad = list(args)
      bad[seed % n] = (seed % n, "bad")
      try:
        list(_training._progress_starmap(pool, fa, f, bad))
        assert False, "a failing call is not reported"
      except Fault as e:
        assert e.args == (seed % n,)
  got = []
  g = _training.FitArgs(starmap=lambda f, it: got.append((f, it)) or [
      f(*a) for a in it]).starmap_progress(lambda i, x: (x, i), args, n)
  assert list(g) == [(x, i) for i, x in args], "progress-reporting map"
  assert len(got) == 1
  for v in (None, False, 0, ()):
    assert list(_training.FitArgs().starmap_progress(lambda i: v if i % 2 else
                i, ((i,) for i in range(n)), n)) == [
        v if i % 2 else i for i in range(n)], ("results of any value", v)


def g_starmap(rng, i):
  return {"n": int(rng.integers(0, 12)), "seed": int(rng.integers(1e6))}


class Decisor(base.BaseEstimator):

  def __init__(self, intermediate=None):
    self.intermediate = intermediate


class Sin(base.BaseEstimator):

  def __init__(self, intermediate=None):
    self.intermediate = intermediate

  def time_frames(self, x):
    return np.zeros((3, 4))

  def fit(self, x, y=None, **kw):
    if self.intermediate is not None:
      self.intermediate.append("stft", "frame")
    return self

  @property
  def tracks_(self):
    return self.tr


class Bare(Sin):
  """Without a storage"""

  def __init__(self, tag=None):
    self.tag = tag


class Model(base.BaseEstimator):

  def __init__(self, beat_decisor=None, sinusoidal=None, other=None):
    self.beat_decisor, self.sinusoidal = beat_decisor, sinusoidal
    self.other = other


class ModelS(base.BaseEstimator):

  def __init__(self, sinusoidal=None, other=None):
    self.sinusoidal, self.other = sinusoidal, other


class Broken(_training._OptionalStorageManager):
  """A manager that fails to create the n-th storage"""
  left = 0

  def OptionalStorage(self, *a, **k):
    self.left -= 1
    if self.left < 0:
      raise Fault("create")
    return _training._OptionalStorageManager.OptionalStorage(self, *a, **k)


def context(has=(1, 1), save=(1, 1), used=(1, 0), pool=1, given=0, fault="",
            jobs=0, **_):
  sts = [learn.OptionalStorage(save=bool(s)) if h else None
         for h, s in zip(has, save)]
  for s, u in zip(sts, used):
    if s is not None and u:
      s.cache_ = {"old": ["old"]}
  sin = Sin(sts[1]) if has[1] else Bare()
  model = Model(Decisor(sts[0]), sin, "other") if has[0] else ModelS(
      sin, "other")
  before = model.get_params(deep=True)
  par = bool(pool or jobs)
  man = None
  mine = _training.FitArgs()
  kw = {"_fit_args": mine, "n_jobs": jobs}
  seen, err = [], None
  with multiprocessing.pool.ThreadPool(2) as tp:
    if pool:
      kw["pool"] = tp
    try:
      if given or fault.startswith("create") or fault == "lost":
        man = Broken()
        man.start()
        man.left = {"create0": 0, "create1": 1}.get(fault, 9)
        kw["mp_manager"] = man
      with _training.sample_training_context(model, **kw) as fa:
        seen.append(fa)
        now = model.get_params(deep=True)
        if not par:
          assert fa is mine and all(now[k] is v for k, v in before.items())
        else:
          for k, s in zip(KEYS, sts):
            if s is None:
              continue
            assert now[k] is not s, "a shared storage during fitting"
            assert now[k].append("k", 1, index=0) == 1
            now[k].append("k", 2)
          if pool:
            nap = sleeper(3)
            assert list(fa.starmap(lambda i: nap(i) or i, (
                (i,) for i in range(5)))) == list(range(5)), "order"
        if fault == "body":
          raise Fault("body")
        if fault == "lost":
          if man is not None:
            man.shutdown()
            man = None
          raise Fault("body")
        if fault == "stop":
          raise Interrupt()
    except (Fault, Interrupt) as e:
      err = e
    finally:
      if man is not None:
        man.shutdown()
  failing = fault in ("body", "stop", "lost") or par and (
      fault == "create0" and any(s is not None for s in sts) or
      fault == "create1" and all(s is not None for s in sts))
  assert (err is not None) == failing, ("failures are passed on", err)
  try:
    now = model.get_params(deep=True)
  except (OSError, EOFError) as e:
    assert False, ("the model still holds shared storages", e)
  assert set(now) == set(before) and all(
      now[k] is v for k, v in before.items()), "original parameters restored"
  if par and not failing:
    for s in sts:
      if s is not None:
        got = s.get_state()
        assert got.get("k") == ([1, 2] if s.save else None), got
  assert mine.starmap is _training.FitArgs().starmap


def g_context(rng, i):
  b = lambda: int(rng.integers(0, 2))
  return {"has": (b(), b()), "save": (1, b()), "used": (b(), b()),
          "pool": i % 3 > 0, "given": b(), "jobs": 0,
          "fault": ("", "body", "create0", "create1", "stop", "lost")[int(rng.integers(0, 6))]}


def _preempted(a, b, at, wait=.03):
  """a is stopped before its at-th line until b is over, or waits for a"""
  n, err = [0], []
  over = threading.Event()

  def run_b():
    try:
      b()
    except Exception as e:  # pylint: disable=W0703
      err.append(e)
    over.set()

  tb = threading.Thread(target=run_b)

  def tracer(frame, event, arg):
    if "/sample/" not in frame.f_code.co_filename:
      return None
    if event == "line":
      n[0] += 1
      if n[0] == at:
        tb.start()
        over.wait(wait)
    return tracer

  def run_a():
    sys.settrace(tracer)
    try:
      a()
    except Exception as e:  # pylint: disable=W0703
      err.append(e)
    finally:
      sys.settrace(None)

  ta = threading.Thread(target=run_a)
  ta.start()
  ta.join()
  reached = tb.ident is not None
  if reached:
    tb.join()
  return reached, err


def shared(prior=0, i=0, j=1, at=None, **_):
  f = _training._OptionalStorageManager._registry["OptionalStorage"][0]
  if max(i, j) > 50:
    return
  for n in range(1, 40) if at is None else [at]:
    st = f(save=True)
    for k in range(prior):
      st.append("k", f"old{k}")
    want = learn.OptionalStorage(save=True)
    for k in range(prior):
      want.append("k", f"old{k}")
    want.append("k", "a", index=i)
    want.append("k", "b", index=j)
    reached, err = _preempted(lambda: st.append("k", "a", index=i),
                              lambda: st.append("k", "b", index=j), n)
    assert not err, err
    if not reached:
      assert n > 1, "nothing to interrupt"
      break
    assert st.get_state() == want.get_state(), (
        "a value is lost", n, st.get_state(), want.get_state())


def g_shared(rng, i):
  a = int(rng.integers(0, 4))
  return {"prior": 0 if i < 2 else int(rng.integers(0, 4)), "i": a,
          "j": int(a + rng.integers(1, 4))}


def fit(cols=None, beats=False, seed=0, jobs=0, **_):
  if cols is None:
    return
  nap = sleeper(seed)
  C, nrow = (bs.SAMPLEBeatsDROP, 4) if beats else (sm.SAMPLE, 3)
  x = np.arange(5.)
  mats = []
  for par in (False, True):
    st = learn.OptionalStorage(save=True)
    m = C(sinusoidal=Sin(st))
    m.sinusoidal.tr = [{"id": k} for k in range(len(cols))]
    calls = []

    def one(i, x_, t, m=m, calls=calls):
      assert x_ is x and t is m.sinusoidal.tr[i], "arguments"
      nap(i)
      calls.append(i)
      return tuple(map(tuple, cols[i]))

    m._track_preprocess_and_fit = one
    with multiprocessing.pool.ThreadPool(3) as pool:
      assert m.fit(x, **({"pool": pool} if par else {})) is m
    assert sorted(calls) == list(range(len(cols))), "each track once"
    assert m.sinusoidal.intermediate is st, "original storage"
    assert st.get_state() == {"stft": ["frame"]}, st.get_state()
    mats.append(m.param_matrix_)
  want = [c for t in cols for c in t if np.all(np.isfinite(c))]
  want = np.array(want).T if want else np.empty((nrow, 0))
  same(mats[0], want, "sequential")
  same(mats[1], want, "parallel")


def g_fit(rng, i):
  nrow, mx = (4, 2) if i % 2 else (3, 1)
  cols = []
  for _ in range(int(rng.integers(0, 6))):
    t = rng.normal(size=(int(rng.integers(1, mx + 1)), nrow))
    if rng.random() < .3:
      t[rng.integers(len(t)), rng.integers(nrow)] = np.nan
    cols.append(t)
  return {"cols": cols, "beats": bool(i % 2), "seed": int(rng.integers(1e6))}


def _sound(seed):
  rng = np.random.default_rng(seed)
  fs = 8000
  t = np.arange(int(.6 * fs)) / fs
  x = 0
  for f in (440., 700., 705., 1500.):
    x = x + rng.uniform(.5, 1) * np.exp(-2 * t / rng.uniform(.3, .6)) * np.cos(
        2 * np.pi * f * t)
  return fs, x / np.max(np.abs(x))


def whole(seed=0, beats=True, jobs=2, **_):
  """Real worker processes"""
  fs, x = _sound(seed)
  C = bs.SAMPLEBeatsDROP if beats else sm.SAMPLE
  ms = []
  for j in (0, jobs):
    m = C(sinusoidal__tracker__fs=fs, sinusoidal__intermediate__save=True,
          sinusoidal__tracker__max_n_sines=8,
          sinusoidal__tracker__peak_threshold=-40)
    if beats:
      m.set_params(beat_decisor__intermediate__save=True)
    st = [m.get_params()[k] for k in KEYS if k in m.get_params()]
    m.fit(x, n_jobs=j)
    assert all(a is b for a, b in zip(st, [
        getattr(m, a).intermediate for a in ("beat_decisor", "sinusoidal")
        if hasattr(m, a)])), "original storages"
    ms.append((m, st))
  same(ms[0][0].param_matrix_, ms[1][0].param_matrix_, "parameter matrix")
  assert ms[0][0].param_matrix_.shape[1] > 1
  for a, b in zip(ms[0][1], ms[1][1]):
    a, b = a.get_state(), b.get_state()
    assert set(a) == set(b), (set(a), set(b))
    for k in a:
      assert len(a[k]) == len(b[k]) > 0, (k, len(a[k]), len(b[k]))
      for u, v in zip(a[k], b[k]):
        if u is None or v is None:
          assert u is v, k
        else:
          for uu, vv in zip(u, v) if isinstance(u, tuple) else [(u, v)]:
            same(np.asarray(uu), np.asarray(vv), k)


def g_whole(rng, i):
  return {"seed": int(rng.integers(1e6)), "beats": i == 0, "jobs": 2 + i}


CASES = {
    "starmap": (g_starmap, starmap, 40),
    "context": (g_context, context, 24),
    "shared": (g_shared, shared, 6),
    "fit": (g_fit, fit, 20),
    "whole": (g_whole, whole, 2),
}
