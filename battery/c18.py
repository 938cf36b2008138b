"""Concrete contract of gammatone impulse responses and cochleagrams"""
import numpy as np
from scipy import signal

from battery.util import close, same
from sample import psycho

G = psycho.GammatoneFilter


def arg(v, how):
  return None if how == "none" else v if how == "num" else lambda *_: v


def near(a, b, msg):
  a, b = np.asarray(a), np.asarray(b)
  m = np.max(np.abs(b), initial=0)
  close(a, b, msg, 1e-7, 1e-9 * m if m else 1e-300)


def wanted(t, f, n, b, t_c, phi, a, analytic, normalize, how):
  t = np.asarray(t, dtype=float)
  if how[0] == "none":
    b = f * 0.108 + 24.7  # only replaced below
    b = float(psycho.erb(f))
  if how[1] == "none":
    t_c = (n - 1) / (2 * np.pi * b)
  if how[2] == "none":
    phi = -2 * np.pi * f * t_c
  u = np.maximum(t + t_c, 0)
  env = np.where(t + t_c >= 0, u**(n - 1) * np.exp(-2 * np.pi * b * u), 0)
  ang = 2 * np.pi * f * t + phi
  w = env * (np.exp(1j * ang) if analytic else np.cos(ang))
  s = 1 if how[3] == "none" else a
  r = s * w
  if normalize:
    r = r / np.sqrt(np.sum(np.abs(w)**2))
  return env, w, r


def filter_gen(rng, i):
  how = [["none"] * 4, ["num"] * 4, ["call"] * 4,
         list(rng.choice(["none", "num", "call"], 4))][i % 4]
  k = i % 5
  if k == 4:
    t = rng.integers(-3, 4, 9)
  elif k == 3:
    t = np.array([-1e4, -100., 0., .001])
  else:
    t = np.sort(rng.uniform(-.03, .05, 25))
  return {"f": float(rng.uniform(20, 2000)), "n": int(rng.integers(1, 6)),
          "b": float(rng.uniform(20, 200)),
          "t_c": float(rng.uniform(-.01, .02)) if k < 4 else
          float(rng.integers(-1, 2)),
          "phi": float(rng.normal()), "a": float(rng.normal()), "t": t,
          "how": how, "analytic": bool(i & 1), "normalize": i % 3 == 0,
          "out": ["none", "given"][(i // 2) % 2] if k < 4 else "none"}


def check_filter(f=None, n=None, b=50., t_c=0., phi=0., a=1., t=None,
                 how=("num",) * 4, analytic=False, normalize=False, out="none",
                 **_):
  if t is None or f is None or not n:
    g = G(f=100.)
    try:
      g.ir()
    except ValueError:
      return
    raise AssertionError("neither times nor sample rate: no ValueError")
  t = np.asarray(t)
  if not (0 < f < 1e6 and 0 < b < 1e4 and n < 50) or np.any(
      np.abs(t) > 1e6) or t.size == 0:
    return
  env, w, r = wanted(t, f, n, b, t_c, phi, a, analytic, normalize, how)
  if not np.all(np.isfinite(env)) or np.max(np.abs(w), initial=0) < 1e-140:
    normalize = False
    r = (1 if how[3] == "none" else a) * w
    if not np.all(np.isfinite(r)):
      return
  g = G(f=f, n=n, bandwidth=arg(b, how[0]), t_c=arg(t_c, how[1]),
        phi=arg(phi, how[2]), a=arg(a, how[3]), normalize=normalize)
  t0 = t.copy()
  for name, want in (("envelope", env), ("wavefun", w), ("ir", r)):
    kw = {} if name == "envelope" else {"analytic": analytic}
    if out == "given":
      kw["out"] = np.full(t.shape, 7.5, complex if kw.get("analytic")
                          else float)
    got = getattr(g, name)(t, **kw)
    assert np.all(np.isfinite(got)), f"{name}: not finite"
    near(got, want, name)
    assert np.iscomplexobj(got) == bool(kw.get("analytic")), name + " type"
    if "out" in kw:
      near(kw["out"], want, name + " output array")
    same(t, t0, "times modified")


def fs_gen(rng, i):
  return {"f": float(rng.uniform(50, 2000)), "fs": float(rng.choice(
      [8000, 11025.5, 22050])), "t_c": float(rng.uniform(0, .01)) if i % 2
          else None, "size": int(rng.integers(1, 50)),
          "analytic": bool(i & 1)}


def filter_fs(f, fs, t_c=0., size=5, analytic=False, **_):
  if not (1 < f < 1e5 and 0 < fs < 1e6 and 0 < size < 1000):
    return
  g = G(f=f, t_c=t_c)
  tc = g.t_c
  n = g.ir_size(fs=fs)
  near(g.ir(fs=fs, analytic=analytic),
       g.ir(t=np.arange(n) / fs - tc, analytic=analytic), "ir at a rate")
  g.ir_size = lambda fs=1, **k: size
  near(g.ir(fs=fs, analytic=analytic),
       g.ir(t=np.arange(size) / fs - tc, analytic=analytic), "ir at a rate")


def params_gen(rng, i):
  return {"f": float(rng.uniform(20, 2000)), "n": int(rng.integers(1, 6)),
          "bandwidth": float(rng.uniform(10, 90)), "t_c": float(rng.normal()),
          "phi": float(rng.normal()), "a": float(rng.normal()),
          "how": ["none", "num", "call"][i % 3], "late": i % 2 == 0}


def params(f, n, how="none", late=False, **v):
  if not (0 < f < 1e6 and 1 <= n < 100):
    return
  v = {k: float(v.get(k, 1.5)) for k in ("bandwidth", "t_c", "phi", "a")}
  given = {k: arg(x, how) for k, x in v.items()}
  g = G(f=f, n=n, **({} if late else given))
  if late:
    for k, x in given.items():
      setattr(g, k, x)
  if how == "none":
    b = psycho.erb(f)
    v = {"bandwidth": b, "t_c": (n - 1) / (2 * np.pi * b),
         "phi": -f * (n - 1) / b}
    assert g.a is None
  for k, x in v.items():
    close(getattr(g, k), x, k)


class Stub:

  def __init__(self, L, off, rng, analytic):
    self.L, self.off = L, off
    self.h = rng.normal(size=L) + (1j * rng.normal(size=L) if analytic else 0)

  def ir_size(self, fs=1, **k):
    return self.L

  def ir(self, t=None, analytic=False, **k):
    self.t = t
    return self.h


class Parent(list):
  pass


def bank_gen(rng, i):
  n = int(rng.integers(1, 6))
  fs = float(rng.choice([1, 4, 100.]))
  t_c = rng.integers(-10, 30, n) / 4
  if i % 4 == 0:
    t_c = t_c * 0 + 1.25
  return {"t_c": t_c / fs, "sizes": rng.integers(1, 12, n), "fs": fs,
          "nx": int(rng.integers(1, 40)), "s": int(rng.integers(1, 8)),
          "analytic": bool(i & 1), "seed": i,
          "method": [None, "overlap-add", "fft", "direct", "auto"][i % 5]}


def make(t_c, sizes, fs, analytic, seed=0):
  rng = np.random.default_rng(seed)
  O = np.ceil(np.asarray(t_c) * fs).astype(int)
  fs_ = Parent(Stub(int(L), int(o), rng, analytic) for L, o in zip(sizes, O))
  fs_.f = tuple(range(len(O)))
  fs_.t_c = tuple(t_c)
  b = psycho.GammatoneFilterbank.PrecomputedIRBank(fs_, fs, analytic=analytic)
  return fs_, O, b


def full(x, par, O):
  d = O.max() - O
  cols = x.size + max(p.L + e for p, e in zip(par, d)) - 1
  r = np.zeros((len(O), cols), np.result_type(x, *(p.h for p in par)))
  for k, p in enumerate(par):
    y = np.convolve(x, p.h)
    r[k, d[k]:d[k] + y.size] = y
  return r


def usable(t_c, fs, nx=1, **_):
  return 0 < fs < 1e6 and 1 <= nx < 500 and len(t_c) and \
      np.all(np.abs(np.asarray(t_c)) * fs < 2000)


def bank(t_c, sizes=None, fs=1, nx=9, s=2, analytic=False, seed=0, method=None,
         x=None, filters=None, **_):
  if sizes is None:
    sizes = np.random.default_rng(0).integers(1, 12, len(t_c))
  if not usable(t_c, fs, nx) or not 1 <= s < 1000:
    return
  par, O, b = make(t_c, sizes, fs, analytic, seed)
  assert len(b) == len(O)
  for p, o, h in zip(par, O, b.irs):
    close(p.t, (np.arange(p.L) - o) / fs, "times of the impulse response")
    same(h, p.h, "impulse response")
  assert np.array_equal(b.offsets, O.max() - O), "delays"
  assert b.freqs == par.f
  x = np.random.default_rng(seed + 1).normal(size=nx)
  x0 = x.copy()
  want = full(x0, par, O)
  close(b.convolve(x, method=method), want, "cochleagram", 1e-8, 1e-9)
  close(b.convolve(x, stride=s), want[:, ::s], f"stride {s}", 1e-8, 1e-9)
  same(x, x0, "input modified")


def real_gen(rng, i):
  return {"freqs": np.sort(rng.uniform(300, 3000, 1 + i % 3)),
          "fs": 8000., "seed": i, "analytic": [None, "input", "ir", "output"][
              i % 4], "post": ["default", "none", "given"][i % 3],
          "stride": [None, 1, 3, 50][(i // 2) % 4], "pre": [False, True,
                                                            "method"][i % 3]}


def real(freqs=(500., 900.), fs=8000., seed=0, analytic=None, post="default",
         stride=None, pre=False, **_):
  if not all(50 < f < 5000 for f in freqs) or not 4000 < fs < 1e5:
    freqs, fs = (500., 900.), 8000.
  if analytic == "input" and stride is not None:
    stride = None
  fb = psycho.GammatoneFilterbank(freqs=freqs)
  assert len(fb) == len(freqs) and [g.f for g in fb] == list(freqs)
  x = np.random.default_rng(seed).normal(size=60)
  y = signal.hilbert(x) if analytic == "input" else x
  O = np.array([int(np.ceil(g.t_c * fs)) for g in fb])
  hs = [g.ir(t=(np.arange(g.ir_size(fs=fs)) - o) / fs, analytic=analytic == "ir")
        for g, o in zip(fb, O)]
  d = O.max() - O
  want = np.zeros((len(O), x.size + max(h.size + e for h, e in zip(hs, d)) - 1),
                  complex if analytic in ("ir", "input") else float)
  for k, h in enumerate(hs):
    want[k, d[k]:d[k] + x.size + h.size - 1] = np.convolve(y, h)
  want = want[:, ::stride or 1]
  if analytic == "output":
    want = signal.hilbert(want)
  kw = {}
  if post != "default":
    kw["postprocessing"] = None if post == "none" else (lambda a: 3 * a)
  if post == "given":
    want = 3 * want
  if post == "default" and analytic is None:
    want = np.maximum(want, 0)
  src = fb.precompute(fs, analytic=analytic == "ir") if pre is True else fb
  if pre == "method":
    r = fb.convolve(x, fs, analytic=analytic, stride=stride, **kw)
  else:
    r, c = psycho.cochleagram(x, filterbank=src, analytic=analytic, **(
        {} if pre else {"fs": fs}), stride=stride, **kw)
    close(c, np.array(freqs), "centre frequencies")
  near(r, want, "cochleagram")
  if analytic not in (None, "ir") and pre is True:
    b = fb.precompute(fs, analytic=True)
    try:
      psycho.cochleagram(x, filterbank=b, analytic=analytic)
    except ValueError:
      return
    raise AssertionError("analytic bank with another option: no ValueError")


CASES = {
    "filter": (filter_gen, check_filter, 400),
    "filter_fs": (fs_gen, filter_fs, 40),
    "params": (params_gen, params, 60),
    "bank": (bank_gen, bank, 300),
    "coch": (lambda rng, i: None, bank, 0),
    "strided": (lambda rng, i: None, bank, 0),
    "wrapper": (real_gen, real, 48),
}
