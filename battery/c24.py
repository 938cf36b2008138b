"""Concrete contracts of the argument adapters"""
import inspect
import warnings

import numpy as np

import sample
from sample import optimize, psycho, utils
from sample.evaluation import metrics
from sample.sms import mm, sm
from sample.sample import additive_synth


def caught(f):
  with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    r = f()
  return r, [w for w in ws if issubclass(w.category, DeprecationWarning) and
             issubclass(w.category, utils.SAMPLEDeprecationWarning)]


def recorder():
  calls = []

  def func(*a, **k):
    calls.append((a, k))
    return len(calls), a

  return func, calls


def g_args(rng, i):
  return {"pos": int(rng.integers(0, 3)), "bits": int(rng.integers(0, 256))}


def same_args(call, a, k):
  assert len(call[0]) == len(a) and all(
      x is y for x, y in zip(call[0], a)), "positional arguments"
  assert set(call[1]) == set(k) and all(
      call[1][n] is k[n] for n in k), f"keywords {call[1]} instead of {k}"


def rename(pos=0, bits=7, **_):
  func, calls = recorder()
  a = [object() for _ in range(pos)]
  k = {n: object() for j, n in enumerate(("x", "old_x")) if bits >> j & 1}
  use, warn = bits >> 2 & 1, bits >> 3 & 1
  kw = {} if warn else {"warn": False}
  g = utils.deprecated_argument("old", "new", **kw)(func)
  v = object()
  call = dict(k, old=v) if use else dict(k)
  kept = dict(call)
  r, ws = caught(lambda: g(*a, **call))
  assert call == kept and r[0] == 1 and len(calls) == 1
  same_args(calls[0], a, dict(k, new=v) if use else k)
  assert len(ws) == bool(use and warn)
  assert not ws or "'old'" in str(ws[0].message) and "'new'" in str(
      ws[0].message)


def convert(pos=0, bits=7, **_):
  func, calls = recorder()
  a = [object() for _ in range(pos)]
  k = {n: object() for j, n in enumerate(("x", "old_x")) if bits >> j & 1}
  use = bits >> 2 & 1
  v, v2, seen = object(), object(), []
  g = utils.deprecated_argument("old", convert=lambda *q, **w: (seen.append(
      (q, w)), ("other", v2))[1])(func)
  call = dict(k, old=v) if use else dict(k)
  r, ws = caught(lambda: g(*a, **call))
  assert r[0] == 1 and len(calls) == 1
  same_args(calls[0], a, dict(k, other=v2) if use else k)
  assert len(seen) == len(ws) == use
  if use:
    same_args(seen[0], a, call)


def prefix(pos=0, bits=7, **_):
  func, calls = recorder()
  a = [object() for _ in range(pos)]
  k = {n: object() for j, n in enumerate(("x", "not_old_y")) if bits >> j & 1}
  d = {n: object() for j, n in enumerate(("old_p", "old_q", "old_old_r"))
       if bits >> j + 2 & 1}
  new = "" if bits >> 5 & 1 else "fresh_"
  g = utils.deprecated_argument("old_", new, prefix=True)(func)
  r, ws = caught(lambda: g(*a, **k, **d))
  assert r[0] == 1 and len(calls) == 1 and len(ws) == len(d)
  same_args(calls[0], a, dict(k, **{new + n[4:]: v for n, v in d.items()}))


def defaults(bits=7, **_):
  g = {n: None if bits >> j + 6 & 1 else object()
       for j, n in enumerate("ab") if bits >> j & 1}
  d = {n: object() for j, n in enumerate("abc") if bits >> j + 2 & 1}
  kept = dict(g)
  r = utils.default_kws(g, **d)
  assert g == kept and r is not g
  same_args(((), r), (), dict(d, **g))
  same_args(((), utils.default_kws(None, **d)), (), d)


def variants(pos=0, bits=7, **_):
  func, calls = recorder()
  main = utils.function_with_variants(
      func, key="mode", default="one", **({"this": "main"} if bits & 1 else {}))
  logs = {"main": calls} if bits & 1 else {}
  for n in ("one", "two"):
    f, logs[n] = recorder()
    assert utils.function_variant(main, n)(f) is f
  a = [object() for _ in range(pos)]
  k = {"x": object()} if bits >> 1 & 1 else {}
  mode = ["main", "one", "two", ["unknown", None, "", 0][bits >> 5 & 3]][
      bits >> 2 & 3]
  call = dict(k, mode=mode)
  if bits >> 4 & 1:
    call, mode = k, "one"
  try:
    main(*a, **call)
    assert mode in logs, "unknown variant accepted"
  except ValueError:
    assert mode not in logs, "known variant rejected"
  for n, l in logs.items():
    assert len(l) == (n == mode), f"calls of {n}: {len(l)}"
    if l:
      same_args(l[0], a, k)
  assert inspect.signature(main).parameters["mode"].default == "one"


class W(UserWarning):
  pass


def filters(pos=0, bits=7, **_):
  during = []

  def func(*a, **k):
    during.append((a, k, warnings.filters[0][2]))
    warnings.warn("w", W)
    if bits & 1:
      raise RuntimeError
    return 3

  tr = [] if bits >> 1 & 1 else None
  kw = {"action": "ignore", "category": W}
  if tr is not None:
    kw = {"action": "always", "category": W, "traces": tr,
          "catch_kws": {"record": True}}
  on = True
  call = {"x": object()} if bits >> 2 & 1 else {}
  k = dict(call)
  if bits >> 3 & 1:
    on = bool(bits >> 4 & 1)
    kw["toggle"] = ("flt", on)
    if bits >> 5 & 1:
      call["flt"] = on = bool(bits >> 6 & 1)
  g = utils.warnings_simplefilter(**kw)(func)
  a = [object() for _ in range(pos)]
  with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    before = list(warnings.filters)
    try:
      assert g(*a, **call) == 3 and not bits & 1
    except RuntimeError:
      assert bits & 1
    assert list(warnings.filters) == before, "filters left changed"
  assert len(during) == 1
  same_args(during[0][:2], a, k)
  assert (during[0][2] is W) == on and len(ws) == (not on)
  if tr is not None:
    assert len(tr) == on and (not on or len(tr[0]) == 1)


def signature(pos=0, bits=7, **_):
  func, calls = recorder()
  shape = [lambda *a, **k: None, lambda a, b=1: None,
           lambda a, *, mode="x", **k: None, lambda: None][bits & 3]
  g = utils.add_keyword_arg(func, sig_func=shape, name="mode", default=7)
  s = inspect.signature(g).parameters
  assert s["mode"].default == 7 and s["mode"].kind.name == "KEYWORD_ONLY"
  assert [q for q in s.values() if q.name != "mode"] == [
      q for q in inspect.signature(shape).parameters.values()
      if q.name != "mode"]
  a = [object() for _ in range(pos)]
  k = {n: object() for j, n in enumerate(("x", "mode")) if bits >> j + 2 & 1}
  g(*a, **k)
  same_args(calls[0], a, k)


TR = {"max_n_sines": "tracker__max_n_sines",
      "min_sine_dur": "tracker__min_sine_dur",
      "freq_dev_offset": "tracker__freq_dev_offset",
      "freq_dev_slope": "tracker__freq_dev_slope",
      "save_intermediate": "intermediate__save",
      "fs": "tracker__fs", "h": "tracker__h"}
MODAL = {n: "tracker__" + n for n in (
    "reverse", "frequency_bounds", "peak_threshold", "merge_strategy",
    "strip_t")}
SITES = [("SinusoidalModel", o, n) for o, n in TR.items()] + [
    ("ModalModel", o, n) for o, n in [*TR.items(), *MODAL.items()]
] + [("SAMPLE", "sinusoidal_model__" + o, "sinusoidal__" + n)
     for o, n in [*TR.items(), *MODAL.items()]
     ] + [("SAMPLE", "sinusoidal_model__t", "sinusoidal__t"),
          ("SAMPLE", "sinusoidal_model", "sinusoidal")]


def g_models(rng, i):
  c, o, n = SITES[i % len(SITES)]
  return {"cls": c, "old": o, "new": n}


def models(cls="SAMPLE", old="sinusoidal_model__t", new="sinusoidal__t", **_):
  C = {"SinusoidalModel": sm.SinusoidalModel, "ModalModel": mm.ModalModel,
       "SAMPLE": sample.SAMPLE}[cls]
  v = mm.ModalModel() if new == "sinusoidal" else (3, 7) if "bounds" in new \
      else object()
  for how in (0, 1):
    o, ws = caught(lambda: C(**{old: v}) if how else C().set_params(**{old: v}))
    ps = o.get_params(deep=True)
    assert ps[new] is v, f"{old} not delivered as {new}"
    assert any(f"'{old}'" in str(w.message) for w in ws)
    ref = C().get_params(deep=True)
    for n, x in ref.items():
      if n != new and not n.startswith(new + "__") and (
          x is None or isinstance(x, (int, float, str, tuple))):
        assert ps[n] == x, f"{n} changed by {old}"


def trackers(n=3, d=2, **_):

  class T(sm.SineTracker):
    pass

  o, ws = caught(lambda: sm.SinusoidalModel(sine_tracker_cls=T))
  assert type(o.tracker) is T and any(
      "'sine_tracker_cls'" in str(w.message) for w in ws)
  o, ws = caught(lambda: sm.SinusoidalModel(safe_sine_len=n,
                                            tracker__min_sine_dur=d))
  assert o.tracker.min_sine_dur == max(n, d)


def g_trackers(rng, i):
  return {"n": int(rng.integers(0, 9)), "d": int(rng.integers(1, 9))}


def g_optimizer(rng, i):
  return {"bits": i}


def optimizer(bits=0, **_):
  kw = [None, {}, {"sinusoidal__t": -3}, {"sinusoidal__t": -3.5,
                                          "max_n_modes": 2}][bits & 3]
  use = {"sample_kw": kw}
  remap = lambda **k: dict(k, regressor_k="z")
  if bits >> 2 & 1:
    use["remap"] = remap if bits >> 3 & 1 else None
  calls = []

  def fn(**k):
    calls.append(k)
    return sample.SAMPLE(**k)

  if bits >> 4 & 1:
    o, ws = caught(lambda: optimize.SAMPLEOptimizer(sample_fn=fn, **use))
    assert len(calls) == 1
  else:
    o, ws = caught(lambda: optimize.SAMPLEOptimizer(**use))
  assert ws
  ps = o.model.get_params(deep=True)
  for n, v in (kw or {}).items():
    assert ps[n] == v, f"{n} not delivered"
  if use.get("remap"):
    assert ps["regressor_k"] == "z"


def g_analytical(rng, i):
  return {"i": i, "x": rng.normal(size=32)}


def analytical(i=0, x=None, **_):
  if x is None or x.size != 32:
    return
  fb = psycho.GammatoneFilterbank(freqs=[100., 300., 500.])
  v = bool(i // 8 % 2)
  s = "ir" if v else "output"
  f = [
      lambda **k: additive_synth(np.arange(8.), [.1], [1.], [1.], **k),
      lambda **k: psycho.GammatoneFilter(f=100.).wavefun(np.arange(8.) / 1e3,
                                                          **k),
      lambda **k: psycho.GammatoneFilter(f=100.).ir(fs=1e3, **k),
      lambda **k: psycho.GammatoneFilterbank.PrecomputedIRBank(
          fb, 1e3, **k).convolve(x),
      lambda **k: fb.precompute(1e3, **k).convolve(x),
  ][i % 8] if i % 8 < 5 else [
      lambda **k: fb.convolve(x, 1e3, **k),
      lambda **k: psycho.cochleagram(x, 1e3, filterbank=fb, **k)[0],
      lambda **k: metrics.CochleagramLoss(
          1e3, filterbank=fb, **k).cochleagram(x) if 0 else vars(
              metrics.CochleagramLoss(1e3, n_filters=3, **k))["analytic"],
  ][i % 8 - 5]
  v = v if i % 8 < 5 else s
  want = f(analytic=v)
  got, ws = caught(lambda: f(analytical=v))
  assert any("'analytical'" in str(w.message) and "'analytic'" in str(
      w.message) for w in ws), "no warning"
  if isinstance(want, str):
    assert got == want
    return
  want, got = np.asarray(want), np.asarray(got)
  assert want.dtype == got.dtype and np.array_equal(want, got), \
      "analytical is not delivered as analytic"


CASES = {n: (g_args, globals()[n], 100) for n in (
    "rename", "convert", "prefix", "defaults", "variants", "filters",
    "signature")}
CASES.update(models=(g_models, models, len(SITES)),
             trackers=(g_trackers, trackers, 10),
             optimizer=(g_optimizer, optimizer, 32),
             analytical=(g_analytical, analytical, 16))
