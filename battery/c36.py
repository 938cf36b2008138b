"""C36: residual, starting point and predictions of the beat regression"""
import warnings

import numpy as np
from sklearn import linear_model

from battery.util import close, same
from sample import beatsdrop, psycho
from sample.beatsdrop import regression as m
from sample.sms import dsp as sms_dsp
from sample.utils import dsp

warnings.simplefilter("ignore")
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")


def gen_params(rng):
  return [float(v) for v in (*rng.uniform(.1, 2, 2), *rng.uniform(95, 110, 2),
                             *rng.uniform(.3, 3, 2), *rng.uniform(-4, 4, 2))]


def gen_track(rng, i, n=None):
  n = int(rng.integers(2, 90)) if n is None else n
  t = np.cumsum(rng.uniform(.002, .03, n)) if i % 3 else np.arange(n) / 86
  t = t + (i % 4 == 3) * .25
  a, f = rng.normal(-20, 15, n), rng.uniform(90, 115, n)
  if i % 7 == 2:
    a[int(rng.integers(n))] = -np.inf
  if i % 5 == 3:
    f = -f
  if i % 11 == 6:
    f[int(rng.integers(n))] *= -1
  return dict(t=t, a=a, f=f)


def gen_residual(rng, i):
  kw = {"x" + k: v for k, v in zip(NAMES, gen_params(rng))}
  if i % 6 == 4:
    kw["xf1"] = -kw["xf1"]
  return dict(gen_track(rng, i), **kw,
              cls=["DualBeatRegression", "BeatRegression"][i % 3 == 0],
              losses=["default", "given"][i % 4 == 1],
              fs=[100, 86.5, 441][i % 3],
              freq_w=[1 / 3800, 2.5, 0.01, 1.0][i % 4],
              freq_clip=[2.5, None, 0, .5, 1e-3, 30.][i % 6])


def check_residual(t=None, a=None, f=None, cls="DualBeatRegression",
                   losses="default", fs=100, freq_w=1 / 3800, freq_clip=None,
                   **kw):
  if t is None or a is None or f is None:
    return
  q = [float(kw.get("x" + k, 1)) for k in NAMES]
  t, a, f = (np.asarray(v, float) for v in (t, a, f))
  if not t.size or np.min(t) < 0 or not np.max(t) > 0 or \
      not 0 < fs * np.max(t) < 1e6 or np.any(np.abs(
          a[np.isfinite(a)]) > 2000) or not min(q[4:6]) > 0 or \
      max(np.abs(q)) > 1e4 or (freq_clip is not None and freq_clip < 0):
    return
  old = [np.copy(v) for v in (t, a, f)]
  lin = 10.0**(a / 20)
  if cls == "BeatRegression":
    fn = m.BeatRegression(fs=fs)._residual_fn(t, a, f)
    u = np.arange(int(np.ceil(np.max(t) * fs)) + 2) / fs
    # between the samples of the model, the two nearest ones bound it
    am = beatsdrop.ModalBeat(*q).am(u)
    j = np.floor(t * fs * (1 + 1e-12)).astype(int)
    w = np.clip(t * fs - j, 0, 1)
    est = am[j] * (1 - w) + am[j + 1] * w
    last = t > (np.ceil(np.max(t) * fs) - 1) / fs
    for k in ("first", "second"):
      r = fn(tuple(q))
      assert r.shape == t.shape, f"{k} call: shape {r.shape}"
      r = np.array(r)
      close(r[~last], (lin - est)[~last], f"{k} call: residual", rtol=1e-6,
            atol=1e-7 * (1 + np.max(lin)))
      assert np.all(np.isfinite(r)), "residuals are not finite"
  else:
    kl = {}
    if losses == "given":
      kl = dict(amp_loss=lambda x, y: 3 * x - y**2,
                freq_loss=lambda x, y: x**2 - 5 * y)
    la = kl.get("amp_loss", lambda x, y: x - y)
    lf = kl.get("freq_loss", lambda x, y: psycho.hz2mel(x) - psycho.hz2mel(y))
    fn = m.DualBeatRegression(fs=fs, freq_w=freq_w, freq_clip=freq_clip,
                              **kl)._residual_fn(t, a, f)
    b = beatsdrop.ModalBeat(*q)
    am, fr = b.am(t), np.abs(b.fm(t)) / (2 * np.pi)
    if freq_clip is not None:
      q1, q2, q3 = (np.percentile(fr, v) for v in (25, 50, 75))
      d = freq_clip * (q3 - q1) / 2
      fr = np.minimum(np.maximum(fr, q2 - d), q2 + d)
    for k in ("first", "second"):
      r = np.array(fn(tuple(q)))
      assert r.shape == (2 * t.size,), f"{k} call: shape {r.shape}"
      close(r[:t.size], la(lin, am), f"{k} call: amplitude losses",
            atol=1e-9 * (1 + np.max(lin)))
      lw = freq_w * lf(np.abs(old[2]), fr)
      close(r[t.size:], lw, f"{k} call: frequency losses", rtol=1e-6,
            atol=1e-9 * (1 + np.max(np.abs(lw))))
  for u, v in zip((t, a, f), old):
    same(u, v, "the track is modified")


def gen_start(rng, i):
  n = int(rng.integers(30, 150))
  t = np.arange(n) / [100, 86][i % 2]
  df, d = float(rng.uniform(3, 12)), float(rng.uniform(.3, 2))
  am = np.abs(1 + .7 * np.exp(2j * np.pi * df * t + 1j * rng.uniform(0, 6)))
  a = 20 * np.log10(am * np.exp(-2 * t / d) * rng.uniform(.1, 3))
  if i % 4 == 3:
    a = rng.normal(-30, 10, n)
  if i % 5 == 4:
    a = -10 - 12 * t  # no modulation
  return dict(t=t, a=a, f=rng.uniform(435, 445, n), fs=[100, 120.][i % 2],
              lpf=[50, 20, None][i % 3])


class Slope(linear_model.LinearRegression):
  """The coefficients under other names"""

  def fit(self, *a, **k):
    super().fit(*a, **k)
    self.slope, self.offset = self.coef_ * 2, self.intercept_ + 1
    return self


def check_start(t=None, a=None, f=None, fs=100, lpf=50, **_):
  if t is None or a is None or f is None or len(t) < 2:
    return
  t, a, f = (np.asarray(v, float) for v in (t, a, f))
  if np.any(np.diff(t) <= 0) or not np.all(np.isfinite(a)) or np.any(
      np.abs(a) > 2000) or not fs > 0:
    return
  old = [np.copy(v) for v in (t, a, f)]
  k, q = np.polyfit(t, a, 1)
  if abs(k) < 1e-6:
    return
  for lr, nm, k_, q_ in ((linear_model.LinearRegression(), {}, k, q),
                         (Slope(), dict(linear_regressor_k="slope",
                                        linear_regressor_q="offset"), 2 * k,
                          q + 1)):
    r = m.BeatRegression(fs=fs, lpf=lpf, linear_regressor=lr, **nm)
    x = r._default_params_init(t, a, f, None, r)
    for u, v in zip((t, a, f), old):
      same(u, v, "the track is modified")
    assert len(x) == 8, f"{len(x)} parameters"
    x = [float(v) for v in x]
    close(x[:2], [10**(q_ / 20) / 2] * 2, "amplitudes")
    close(np.exp(-2 / x[4] * .1), 10**(k_ * .1 / 20), "first decay")
    assert x[5] == x[4], f"decays {x[4:6]}"
    close((x[2] + x[3]) / 2, np.mean(f), "mean frequency")
    det = 10**((a - (k * t + q)) / 20)
    c = dsp.lombscargle_autocorrelogram(t, det, fs=fs, lpf=lpf)
    pk, _ = sms_dsp.peak_detect_interp(c)
    flat = np.ptp(det) < 1e-6
    am = 0 if len(pk) == 0 else fs / (2 * pk[0])
    if not flat:
      close((x[2] - x[3]) / 2, am, "modulation frequency", rtol=1e-4)
    am = (x[2] - x[3]) / 2
    z = np.sum(10**(a / 20) * np.exp(-4j * np.pi * am * t))
    assert x[6] == 0, f"phase of the first partial {x[6]}"
    if abs(z) > 1e-6:
      close(np.exp(1j * x[7]), np.conj(z) / abs(z), "phase of the second",
            rtol=1e-4, atol=1e-5)


def gen_predict(rng, i):
  return dict({"x" + k: v for k, v in zip(NAMES, gen_params(rng))},
              t=np.sort(rng.uniform(0, 2, 2 + i % 50)),
              outputs=[[], ["x"], ["am"], ["am", "fm"], ["fm", "x", "am"],
                       ["pm"]][i % 6], column=i % 4 == 1)


def check_predict(t=None, outputs=(), column=False, tt=None, **kw):
  t = np.asarray(tt if t is None else t, float)
  if t.size < 2:
    return
  t = t.ravel()
  q = [float(kw.get("x" + k, 1)) for k in NAMES]
  if not min(q[4:6]) > 0 or max(np.abs(q)) > 1e4 or max(np.abs(t)) > 1e3:
    return
  r = m.DualBeatRegression()
  r.beat_ = beatsdrop.ModalBeat(*q)
  tt = t[:, None] if column else t
  old = np.copy(tt)
  y = r.predict(tt, *outputs)
  same(tt, old, "time axis")
  names = outputs or ["x"]
  assert isinstance(y, (list, tuple)) and len(y) == len(names), "outputs"
  b = beatsdrop.ModalBeat(*q)
  for k, v in zip(names, y):
    close(v, getattr(b, k)(t), k)


CASES = {
    "residual": (gen_residual, check_residual, 400),
    "start": (gen_start, check_start, 120),
    "predict": (gen_predict, check_predict, 120),
}
