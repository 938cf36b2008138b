"""Concrete contracts of the psychoacoustic scales"""
import numpy as np

from battery.util import SHAPES, close, out_rules
from sample import psycho

SC = [("hz2bark", "bark2hz", "mode", "traunmuller", -.53, 26.28),
      ("hz2bark", "bark2hz", "mode", "wang", -30, 30),
      ("hz2mel", "mel2hz", "mode", "default", -9000, 9000),
      ("hz2mel", "mel2hz", "mode", "fant", -9000, 9000),
      ("hz2cams", "cams2hz", "degree", "linear", -40, 60),
      ("hz2cams", "cams2hz", "degree", "quadratic", -30, 43)]
INC = [(s[0], s[2], s[3]) for s in SC] + [
    ("hz2bark", "mode", "zwicker"), ("erb", "degree", "linear"),
    ("erb", "degree", "quadratic")]
NAMES = INC + [(s[1], s[2], s[3]) for s in SC]


def g_rt(rng, i):
  to, fr, key, mode, _, _ = SC[i % len(SC)]
  return {"f": 0.0 if i < len(SC) else float(10**rng.uniform(-2, 4.7)),
          "to": to, "fr": fr, "key": key, "mode": mode}


def roundtrip(f, to, fr, key, mode):
  f = float(f)
  r = getattr(psycho, fr)(getattr(psycho, to)(f, **{key: mode}),
                          **{key: mode})
  close(r, f, f"{fr}({to}(f)) {mode}", 1e-6, 1e-6)


def g_bk(rng, i):
  to, fr, key, mode, lo, hi = SC[i % len(SC)]
  m = .01 * (hi - lo)
  return {"b": float(rng.uniform(lo + m, hi - m)), "to": to, "fr": fr,
          "key": key, "mode": mode}


def back(b, to, fr, key, mode):
  b = float(b)
  s = [s for s in SC if s[0] == to and s[3] == mode][0]
  if not s[4] * .99 < b < s[5] * .99:
    return
  r = getattr(psycho, to)(getattr(psycho, fr)(b, **{key: mode}),
                          **{key: mode})
  close(r, b, f"{to}({fr}(b)) {mode}", 1e-6, 1e-6)


def g_inc(rng, i):
  to, key, mode = INC[i % len(INC)]
  f = 0.0 if i < len(INC) else float(10**rng.uniform(-1, 4.7))
  return {"f": f, "g": f + float(10**rng.uniform(-2, 4)), "to": to,
          "key": key, "mode": mode}


def increasing(f, g, to, key, mode):
  fn = getattr(psycho, to)
  f, g = float(f), float(g)
  if g - f < 1e-4 * max(1, f) or g > 1e6:
    return
  a, b = fn(f, **{key: mode}), fn(g, **{key: mode})
  assert a < b, f"{to} {mode} not increasing: {a} {b}"
  if to == "erb":
    assert a > 0, "bandwidth not positive"


def g_out(rng, i):
  name, key, mode = NAMES[i % len(NAMES)]
  sh = SHAPES[(i // len(NAMES)) % len(SHAPES)]
  k = "if"[int(rng.integers(2))]
  x = rng.uniform(0, 20, sh or (1,))
  out = ["none", "other", "self"][int(rng.integers(3))]
  if k == "i" and out != "self":
    x = x.astype(int)
  return {"x": x if sh else x[0], "name": name, "key": key, "mode": mode,
          "out": out}


def out(x, name, key, mode, out, **_):
  fn = getattr(psycho, name)
  if np.any(np.abs(np.asarray(x, float)) > 1e5):
    return
  with np.errstate(all="ignore"):
    out_rules(lambda v, **k: fn(v, **{key: mode}, **k), x, out,
              f"{name} {mode}")


def unknown(f=1.0, **_):
  for s in SC:
    for n in s[:2]:
      try:
        getattr(psycho, n)(1.0, **{s[2]: "no such definition"})
      except Exception:  # pylint: disable=W0703
        continue
      raise AssertionError(f"{n} accepts an unknown definition")
  for to, fr, d in (("hz2bark", "bark2hz", ("mode", "traunmuller")),
                    ("hz2mel", "mel2hz", ("mode", "default")),
                    ("hz2cams", "cams2hz", ("degree", "quadratic"))):
    for n in (to, fr):
      close(getattr(psycho, n)(5.0), getattr(psycho, n)(5.0, **dict([d])),
            "default definition")


CASES = {
    "roundtrip": (g_rt, roundtrip, 120),
    "back": (g_bk, back, 120),
    "increasing": (g_inc, increasing, 300),
    "out": (g_out, out, 450),
    "unknown": (lambda r, i: {"f": 1.0}, unknown, 1),
}
