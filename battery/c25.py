"""C25: default members and intermediate-value storages"""
import copy

import numpy as np
from sample import hinge, optimize, sample
from sample.beatsdrop import sample as bsample
from sample.sms import mm, sm
from sample.utils import learn


def gen_history(rng, i):
  ops = []
  for _ in range(int(rng.integers(1, 14))):
    r = rng.random()
    key = ["a", "b"][int(rng.integers(2))]
    if r < 0.4:
      ops.append(["append", key, None])
    elif r < 0.75:
      ops.append(["append", key, int(rng.integers(0, 7))])
    elif r < 0.83:
      ops.append(["reset"])
    elif r < 0.93:
      ops.append(["save", bool(rng.integers(3))])
    else:
      ops.append(["state", bool(rng.integers(2))])
  return {"ops": ops, "save": bool(i % 4)}


def history(ops=None, save=True, **_):
  if ops is None:
    ops = [["append", k, i] for k in "ab" for i in (
        None, 0, 3, None, 2, 7, None)]
    ops = ops[:5] + [["save", False], ops[5], ["save", True], [
        "state", True]] + ops[5:] + [["reset"], ["state", True]] + ops
  st = learn.OptionalStorage(save=save)
  ref, handed = {}, []
  for n, op in enumerate(ops):
    if op[0] == "append":
      _, key, i = op
      v = [n, np.full(2, n)] if n % 5 else None
      r = st.append(key, v, index=i) if n % 2 else st(key, v, i)
      assert r is v, "value not returned"
      if save:
        l = ref.setdefault(key, [])
        if i is None:
          l.append(v)
        else:
          l.extend([None] * (i + 1 - len(l)))
          l[i] = v
    elif op[0] == "reset":
      st.reset()
      ref = {}
      assert not st.get_state() and not st.get_state(deepcopy=False)
    elif op[0] == "save":
      save = op[1]
      st.set_params(save=save)
    else:
      handed.append((st.get_state(), copy.deepcopy(ref)))
    s = st.get_state(deepcopy=False)
    assert list(s) == list(ref) or set(s) == set(ref), f"keys {list(s)}"
    for key, l in ref.items():
      got = st[key]
      assert len(got) == len(l), f"length {len(got)} instead of {len(l)}"
      assert all(x is y for x, y in zip(got, l)), f"content after {op}"
    for key in "ab":
      if key not in ref:
        try:
          st[key]
          assert False, "missing key found"
        except KeyError:
          pass
  for l in st.get_state().values():
    for v in l:
      if v is not None:
        v[0], v[1][0] = -1, -1
  for key, l in ref.items():
    assert all(v is None or v[0] != -1 and v[1][0] != -1 for v in l), (
        "what is stored was altered through a handed-out state")
  for s, e in handed:
    assert repr(s) == repr(e), "a handed-out state was altered"


class Boom:
  pass


def gen_members(rng, i):
  return {"bits": int(rng.integers(256))}


def members(bits=None, **_):
  if bits is None:
    for b in range(256):
      members(b)
    return
  built = []

  def member(self):
    """Doc"""
    built.append((self, object()))
    return built[-1][1]

  def second(self):
    return [self]

  class Owner:

    def __init__(self, member=None, second=None):
      self.member = member
      self.second = second

  if bits & 1:
    Owner.member = learn.default_property(member)
    assert Owner.__dict__["member"].__doc__ == "Doc"
  else:
    Owner.member = learn.default_property(name="member")(
        lambda self: member(self))
  Owner.second = learn.default_property(second)
  a, b = Owner(), Owner()
  assert [x for x, _ in built] == [a, b], "defaults are built on set"
  assert a.member is built[0][1] and b.member is built[1][1], "shared default"
  assert a.second is not b.second and a.second[0] is a
  for v in (0, "", False, [], (), 0.0, object(), Boom(), {}, b.member):
    c = Owner(v, v)
    assert c.member is v and c.second is v, "explicit value not kept"
  assert len(built) == 2, "default built for an explicit value"
  a.member = None
  assert a.member is built[2][1] and built[2][0] is a and len(built) == 3
  a.member = 4
  assert a.member == 4 and b.member is built[1][1] and len(built) == 3
  d = Owner.__dict__["member"]
  cond = bool(bits & 2)
  asked = []

  def fdef(s, v):
    asked.append((s, v))
    return cond

  if bits & 4:
    d = Owner.member = learn.default_property(
        member, fdef=fdef, name="member")
  else:
    d.defaulter(fdef)
  v = None if bits & 8 else object()
  a.member = v
  assert asked[-1][0] is a and asked[-1][1] is v
  assert a.member is (built[3][1] if cond else v)
  assert len(built) == (4 if cond else 3)
  d.defaulter()
  a.member = None
  assert a.member is None
  for f in (lambda s: None, Boom.__call__ if hasattr(
      Boom, "nope") else type("NoName", (), {"__call__": lambda s, p: 0})()):
    try:
      learn.default_property(f)
      assert False, "ambiguous name accepted"
    except ValueError:
      pass


MODELS = [(sample.SAMPLE, ("sinusoidal", "regressor")),
          (sm.SinusoidalModel, ("intermediate", "tracker", "w")),
          (mm.ModalModel, ("intermediate", "tracker", "w")),
          (hinge.HingeRegression, ("linear_regressor", "coeffs_init",
                                   "bounds")),
          (bsample.SAMPLEBeatsDROP, ("sinusoidal", "regressor", "beatsdrop",
                                     "beat_decisor")),
          (optimize.SAMPLEOptimizer, ("model",))]


def models(i=None, **_):
  if i is None:
    for j in range(len(MODELS)):
      models(j)
    return
  cls, attrs = MODELS[i % len(MODELS)]
  a, b = cls(), cls()
  for at in attrs:
    x, y = getattr(a, at), getattr(b, at)
    assert x is not None and x is getattr(a, at)
    if not callable(x) and not isinstance(x, tuple):
      assert x is not y, f"{at} is shared between objects"
    o = object()
    c = cls()
    setattr(c, at, o)
    assert getattr(c, at) is o
    assert getattr(a, at) is x and getattr(b, at) is y
  if "tracker" in attrs:
    assert a.tracker.tracks_ is not b.tracker.tracks_ if hasattr(
        a.tracker, "tracks_") else True


CASES = {
    "history": (gen_history, history, 400),
    "members": (gen_members, members, 60),
    "models": (lambda rng, i: {"i": i}, models, len(MODELS)),
}
