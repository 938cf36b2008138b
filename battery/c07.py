"""Concrete contracts of windows and padding"""
import numpy as np

from battery.util import same
from sample.sms import sm
from sample.utils import dsp


def cnt(n, w, h):
  c = 0
  while c * h + w <= n:
    c += 1
  return c


def count(n, W, H=None, **_):
  if n > 10**5:
    return
  assert dsp.n_windows(n, W, H) == cnt(n, W, H or W), "number of windows"
  assert dsp.n_windows(n, W) == cnt(n, W, W), "default hop"
  assert dsp.n_windows(n, wsize=W, hop=H) == cnt(n, W, H or W), "keywords"


def windows(a, W, H=None, wr=None, k=None, cell=None, **_):
  if cell is not None and a.ndim == 1 and 0 < abs(cell) < 100:
    b = np.full(a.size * abs(cell), 1e9)
    b[::abs(cell)] = a
    a = b[::cell] if cell > 0 else b[::-cell][::-1]
    assert a.strides[0] == 8 * cell or not a.size
  kw = {} if wr is None else {"writeable": wr}
  if H is not None:
    kw["hop"] = H
  r = dsp.overlapping_windows(a, W, **kw)
  h = W if H is None else H
  c = cnt(a.size, W, h)
  assert r.shape == (c, W), f"shape {r.shape} instead of {(c, W)}"
  lin = a.ravel()
  for i in range(c):
    same(r[i], lin[i * h:i * h + W], f"window {i}")
  assert r.flags.writeable == bool(wr), "writeable flag"
  if a.size and (a.flags.c_contiguous or a.ndim == 1):
    a.flat[0 if k is None else k] = -77
    for i in range(c):
      same(r[i], a.ravel()[i * h:i * h + W], "not a view")


def g_win(rng, i):
  sh = [(int(rng.integers(0, 30)),), tuple(int(v) for v in
                                           rng.integers(0, 6, 2)),
        (2, 3, 2)][i % 3]
  a = rng.normal(size=sh)
  if i % 7 == 1 and a.ndim == 2:
    a = np.asfortranarray(a)
  return {"a": a, "cell": (None, 2, -1, 3)[i // 3 % 4], "W": int(rng.integers(1, 9)),
          "H": None if i % 4 == 0 else int(rng.integers(1, 12)),
          "wr": [None, False, True][(i // 4) % 3]}


def g_pad(rng, i):
  return {"w": rng.normal(size=int(rng.integers(1, 9))),
          "x": rng.normal(size=int(rng.integers(0, 25))),
          "H": int(rng.integers(1, 9)), "padded": bool(i % 2)}


def pad(w, x, H, padded, **_):
  m = sm.SinusoidalModel(w=w, padded=padded, tracker__h=H)
  old = x.copy()
  y, a = m.pad_input(x)
  p = (w.size + 1) // 2 if padded else 0
  q = w.size // 2 if padded else 0
  assert a == p, f"initial padding {a} instead of {p}"
  want = np.concatenate([np.zeros(p), old, np.zeros(q)])
  same(y, want, "padded signal")
  same(x, old)


def frames(w, x, H, padded, **_):
  m = sm.SinusoidalModel(w=w, padded=padded, tracker__h=H)
  p = (w.size + 1) // 2 if padded else 0
  q = w.size // 2 if padded else 0
  y = np.concatenate([np.zeros(p), x, np.zeros(q)])
  fr = [np.array(f) for f in m.time_frames(x)]
  c = cnt(y.size, w.size, H)
  assert len(fr) == c, f"{len(fr)} frames instead of {c}"
  for i, f in enumerate(fr):
    same(f, y[i * H:i * H + w.size], f"frame {i}")


CASES = {
    "count": (lambda r, i: {"n": int(r.integers(0, 40)), "W":
                            int(r.integers(1, 12)), "H": int(r.integers(
                                1, 12))}, count, 500),
    "windows": (g_win, windows, 400),
    "pad": (g_pad, pad, 200),
    "frames": (g_pad, frames, 200),
}
