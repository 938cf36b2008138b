"""Concrete contract of peak detection"""
import numpy as np

from battery.util import same
from sample.sms import dsp


def gen(rng, i):
  n = int(rng.integers(0, 9)) if i % 3 else int(rng.integers(9, 60))
  k = i % 4
  x = rng.integers(-3, 4, n).astype(float) if k < 2 else rng.normal(size=n)
  if k == 1:
    x = x.astype(int)
  t = None if rng.random() < .4 else float(rng.integers(-3, 3))
  if t is not None and rng.random() < .4 and n:
    t = float(x[int(rng.integers(n))])
  return {"x": x, "t": t}


def peaks(x, t, **_):
  old = x.copy()
  r = dsp.peak_detect(x) if t is None else dsp.peak_detect(x, t)
  want = [k for k in range(1, len(x) - 1)
          if x[k] > x[k - 1] and x[k] > x[k + 1] and (t is None or x[k] > t)]
  assert [int(v) for v in r] == want, f"{list(r)} instead of {want}"
  assert np.asarray(r).dtype.kind in "iu", "positions are not integers"
  same(x, old)
  r = dsp.peak_detect(x, t=t)
  assert [int(v) for v in r] == want, "keyword threshold"


CASES = {"peaks": (gen, peaks, 1500)}
