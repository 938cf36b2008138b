"""C15: psychoacoustic scales"""
from contracts.common import *  # noqa: F403

M = "sample.psycho"
# name, key, to, from, (lower, upper) bound of the scale's range
SCALES = [
    ("hz2bark", "bark2hz", "mode", "traunmuller",
     lambda: (z3.Q(-53, 100), z3.Q(2628, 100))),
    ("hz2bark", "bark2hz", "mode", "wang", lambda: (None, None)),
    ("hz2mel", "mel2hz", "mode", "default", lambda: (None, None)),
    ("hz2mel", "mel2hz", "mode", "fant", lambda: (None, None)),
    ("hz2cams", "cams2hz", "degree", "linear", lambda: (None, None)),
    ("hz2cams", "cams2hz", "degree", "quadratic",
     lambda: (None, z3.RealVal(43))),
]
DEFAULT = {"hz2bark": "traunmuller", "hz2mel": "default",
           "hz2cams": "quadratic"}


def _tag(p, **kw):
  for k, v in kw.items():
    p.input(k, lambda mo, v=v: v)


def _mk(to, fr, key, mode, rng):
  fn = [f"{M}:{to}[{mode}]", f"{M}:{fr}[{mode}]"]
  kw = {key: mode}

  @vc("C15", f"{fr}({to}(f)) = f, {mode}", fn, replay="roundtrip")
  def rt(p, w):
    m = w.load(M)
    f = real(p, "f", lo=0)
    _tag(p, to=to, fr=fr, key=key, mode=mode)
    b = getattr(m, to)(f, **kw)
    if mode == "quadratic":
      # the argument of the logarithm is positive and below one
      cut(p, "argument of the logarithm",
          And((f.z + 312) / (f.z + 14675) > 0, (f.z + 312) /
              (f.z + 14675) < 1))
    p.prove("from(to(f)) = f", eq(getattr(m, fr)(b, **kw), f))

  @vc("C15", f"{to}({fr}(b)) = b within range, {mode}", fn, replay="back")
  def bk(p, w):
    m = w.load(M)
    b = real(p, "b")
    _tag(p, to=to, fr=fr, key=key, mode=mode)
    lo, hi = rng()
    if lo is not None:
      p.assume(b.z > lo)
    if hi is not None:
      p.assume(b.z < hi)
    f = getattr(m, fr)(b, **kw)
    p.prove("to(from(b)) = b", eq(getattr(m, to)(f, **kw), b))

  increasing(to, key, mode)
  for name in (to, fr):
    # scalars, arrays, output argument
    elementwise("C15", f"{name} {mode}",
                lambda w, x, name=name, **k: getattr(w.load(M), name)(
                    x, **kw, **k), [f"{M}:{name}[{mode}]"], replay="out",
                tag={"name": name, "key": key, "mode": mode}, nd=(1,),
                lo=0 if name == to else None)


def increasing(to, key, mode, positive=False):

  @vc("C15", f"{to} strictly increasing, {mode}", [f"{M}:{to}[{mode}]"],
      replay="increasing")
  def inc(p, w):
    m = w.load(M)
    f, g = real(p, "f", lo=0), real(p, "g", lo=0)
    p.assume(f.z < g.z)
    _tag(p, to=to, key=key, mode=mode)
    fn = getattr(m, to)
    r = fn(f, **{key: mode})
    if mode == "quadratic" and to != "erb":
      cut(p, "argument of the logarithm increases",
          And((f.z + 312) / (f.z + 14675) > 0, (f.z + 312) / (f.z + 14675) <
              (g.z + 312) / (g.z + 14675)))
    if mode == "zwicker":
      cut(p, "square increases", f.z / 7500 * (f.z / 7500) < g.z / 7500 *
          (g.z / 7500))
    p.prove("increasing", zreal(r) < zreal(fn(g, **{key: mode})))
    if positive:
      p.prove("positive", zreal(r) > 0)


for _s in SCALES:
  _mk(*_s)
increasing("hz2bark", "mode", "zwicker")
elementwise("C15", "hz2bark zwicker",
            lambda w, x, **k: w.load(M).hz2bark(x, mode="zwicker", **k),
            [f"{M}:hz2bark[zwicker]"], replay="out", nd=(1,), lo=0,
            tag={"name": "hz2bark", "key": "mode", "mode": "zwicker"})
for _d in ("linear", "quadratic"):
  increasing("erb", "degree", _d, True)
  elementwise("C15", f"erb {_d}",
              lambda w, x, _d=_d, **k: w.load(M).erb(x, degree=_d, **k),
              [f"{M}:erb[{_d}]"], replay="out", nd=(1,), lo=0,
              tag={"name": "erb", "key": "degree", "mode": _d})


@vc("C15", "defaults and unknown definitions",
    ["sample.utils:function_with_variants"], replay="unknown")
def unknown(p, w):
  m = w.load(M)
  f = real(p, "f", lo=0)
  for to, fr, key in (("hz2bark", "bark2hz", "mode"),
                      ("hz2mel", "mel2hz", "mode"),
                      ("hz2cams", "cams2hz", "degree"),
                      ("erb", None, "degree")):
    for n in filter(None, (to, fr)):
      e = raises(lambda: getattr(m, n)(f, **{key: "no such definition"}),
                 Exception)
      if e is None:
        p.fail(f"{n} rejects unknown definitions", "accepted")
      else:
        p.prove(f"{n} rejects unknown definitions", zbool(True))
    if fr:
      b = getattr(m, to)(f)
      p.prove(f"{fr}({to}(f)) with defaults uses one definition",
              eq(b, getattr(m, to)(f, **{key: DEFAULT[to]})))
      p.prove(f"default of {fr}", eq(
          getattr(m, fr)(f), getattr(m, fr)(f, **{key: DEFAULT[to]})))
