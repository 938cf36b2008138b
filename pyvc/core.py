"""Path exploration, obligations and the solver interface."""
import itertools
import os
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

import z3


class Unsupported(BaseException):
  """The code left the subset that the generator understands."""


class Restart(BaseException):
  """The exploration starts over, having learnt something (see
  Explorer.memory): a loop writes one more object, a candidate invariant is
  not preserved"""


class PathEnd(BaseException):
  """The current path is finished (infeasible, or closed by an invariant)."""


_CUR = [None]


def cur():
  if _CUR[0] is None:
    raise Unsupported("symbolic decision outside a verification path")
  return _CUR[0]


def maybe_cur():
  return _CUR[0]


_fresh = itertools.count()


def fresh(prefix, sort="Int"):
  n = f"{prefix}!{next(_fresh)}"
  if sort == "Int":
    return z3.Int(n)
  if sort == "Real":
    return z3.Real(n)
  if sort == "Bool":
    return z3.Bool(n)
  return z3.Const(n, sort)


def fresh_fn(prefix, *sorts):
  m = {"Int": z3.IntSort(), "Real": z3.RealSort(), "Bool": z3.BoolSort()}
  return z3.Function(f"{prefix}!{next(_fresh)}", *[m.get(s, s) for s in sorts])


def is_true(e):
  return z3.is_true(e)


def is_false(e):
  return z3.is_false(e)


# ---------------------------------------------------------------------------
# term traversal
# ---------------------------------------------------------------------------
def subterms(exprs):
  seen = {}
  stack = list(exprs)
  while stack:
    e = stack.pop()
    i = e.get_id()
    if i in seen:
      continue
    seen[i] = e
    if z3.is_quantifier(e):
      continue
    stack.extend(e.children())
  return seen.values()


def uf_apps(exprs):
  """{decl name: [app, ...]} for uninterpreted functions of arity > 0"""
  out = {}
  for e in subterms(exprs):
    if z3.is_app(e) and e.num_args() > 0 and \
        e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.setdefault(e.decl().name(), []).append(e)
  return out


# ---------------------------------------------------------------------------
# universal facts, instantiated by matching
# ---------------------------------------------------------------------------
def _occurs(k, e):
  i = k.get_id()
  return any(t.get_id() == i for t in subterms([e]))


class Fact:
  """forall k in Int^arity: body(*k); instantiated at matching ground terms"""

  def __init__(self, body, arity=1, triggers=None, name="fact"):
    self.body = body
    self.arity = arity
    self.name = name
    ks = [fresh("bk") for _ in range(arity)]
    self.ks = ks
    self.template = body(*ks)
    if not isinstance(self.template, z3.ExprRef):
      self.template = z3.BoolVal(bool(self.template))
    # automatic triggers: for every bound variable, the argument positions at
    # which it occurs with coefficient +-1, and the rest of that argument
    zero = z3.IntVal(0)
    pos = [{} for _ in ks]
    rel = [{} for _ in ks]
    for e in subterms([self.template]):
      if z3.is_app(e) and e.num_args() > 0 and \
          e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        for p, c in enumerate(e.children()):
          if not z3.is_int(c):
            continue
          for n, k in enumerate(ks):
            if c.get_id() == k.get_id():
              pos[n][(e.decl().name(), p, 1, 0)] = None
              continue
            if not _occurs(k, c):
              continue
            r = z3.simplify(z3.substitute(c, (k, zero)))
            d = z3.simplify(c - r)
            sgn = 1 if z3.is_true(z3.simplify(d == k)) else (
                -1 if z3.is_true(z3.simplify(d == -k)) else 0)
            if not sgn:
              continue
            if any(_occurs(b, r) for b in ks):
              rel[n][(e.decl().name(), p, sgn, r.get_id())] = r
            else:
              pos[n][(e.decl().name(), p, sgn, r.get_id())] = r
    self.pos = pos
    self.rel = rel  # the rest names other bound variables

  def inst(self, args):
    return z3.substitute(self.template,
                         *[(k, a) for k, a in zip(self.ks, args)])


class Lemma:
  """Ground lemma produced on demand, once, when ``when`` constants occur."""

  def __init__(self, when, formula):
    self.when = when  # list of z3 constants, all must occur in the query
    self.formula = formula


STATS = {"queries": 0, "solver_s": 0.0, "by": {}}


class Opts:
  timeout_ms = 20000
  branch_timeout_ms = 1500
  max_paths = 600
  use_cvc5 = True


class Index:
  """Applications, constants and integer arguments occurring in formulas"""

  def __init__(self):
    self.seen = set()
    self.hold = []
    self.apps = {}  # function name -> {id: application}
    self.consts = {}  # constant name -> constant
    self.const_ids = set()
    self.terms = {}  # (function name, argument position) -> {id: term}

  def add(self, exprs):
    seen = self.seen
    stack = list(exprs)
    self.hold.extend(stack)
    UN = z3.Z3_OP_UNINTERPRETED
    while stack:
      e = stack.pop()
      i = e.get_id()
      if i in seen:
        continue
      seen.add(i)
      if not z3.is_app(e):
        continue
      n = e.num_args()
      if n == 0:
        d = e.decl()
        if d.kind() == UN:
          self.consts[d.name()] = e
          self.const_ids.add(i)
        continue
      ch = e.children()
      d = e.decl()
      if d.kind() == UN:
        nm = d.name()
        self.apps.setdefault(nm, {})[i] = e
        for p, c in enumerate(ch):
          if z3.is_int(c):
            self.terms.setdefault((nm, p), {})[c.get_id()] = c
      stack.extend(ch)


def _combos(f, cands, idx, path):
  """Instances: independent candidates of every variable, and candidates of one
  variable relative to those of the others"""
  yield from itertools.product(*cands)
  for n in range(f.arity):
    if not f.rel[n]:
      continue
    others = [c if j != n else [None] for j, c in enumerate(cands)]
    for combo in itertools.product(*others):
      sub = [(b, a) for b, a in zip(f.ks, combo) if a is not None]
      for (nm, p, sgn, _), r in f.rel[n].items():
        r1 = z3.substitute(r, *sub)
        for t in list(idx.terms.get((nm, p), {}).values()):
          x = z3.simplify(t - r1 if sgn > 0 else r1 - t)
          path.keep.append(x)
          yield combo[:n] + (x,) + combo[n + 1:]


def _instantiate(base, path, rounds=3, cap=3000):
  """Ground instances of the universal facts, lemmas and axioms"""
  from pyvc import axioms
  facts, lemmas = path.facts, path.lemmas
  out = []
  done = set()
  used_lem = set()
  idx = Index()
  idx.add(base)
  ext = {t.get_id(): t for t in path.terms}
  base_terms = {k: dict(v) for k, v in idx.terms.items()}
  for _ in range(rounds):
    new = []
    for fi, f in enumerate(facts):
      cands = []
      for k in range(f.arity):
        c = dict(ext)
        for (nm, p, sgn, _), r in f.pos[k].items():
          if r is None:
            c.update(idx.terms.get((nm, p), {}))
          else:
            # shifted matches only for terms of the goal and the path, so
            # that instances do not breed
            for t in base_terms.get((nm, p), {}).values():
              x = z3.simplify(t - r if sgn > 0 else r - t)
              path.keep.append(x)
              c[x.get_id()] = x
        cands.append(list(c.values()))
      for combo in _combos(f, cands, idx, path):
        key = ("fact", fi) + tuple(t.get_id() for t in combo)
        if key in done:
          continue
        done.add(key)
        i = z3.simplify(f.inst(combo))
        if not z3.is_true(i):
          new.append(i)
        if len(out) + len(new) > cap:
          break
    idx.add(new)
    for i, l in enumerate(lemmas):
      if i in used_lem:
        continue
      if all(w.get_id() in idx.const_ids for w in l.when):
        used_lem.add(i)
        new.append(l.formula() if callable(l.formula) else l.formula)
    path.in_template += 1
    desc, path.describing = path.describing, 0
    try:
      for h in path.hooks:
        new.extend(h(path, idx, done))
    finally:
      path.in_template -= 1
      path.describing = desc
    idx.add(new)
    new.extend(axioms.instances(idx, done))
    if not new:
      break
    idx.add(new)
    out.extend(new)
    if len(out) > cap:
      break
  return out


class Result:

  def __init__(self, status, model=None, backend="z3", reason="", secs=0.0):
    self.status = status  # unsat | sat | unknown
    self.model = model
    self.backend = backend
    self.reason = reason
    self.secs = secs


def _cvc5_check(solver, timeout_ms):
  smt = solver.to_smt2()
  with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
    f.write("(set-logic ALL)\n" + smt)
    name = f.name
  try:
    r = subprocess.run(["cvc5", "--tlimit", str(timeout_ms), name],
                       capture_output=True, text=True,
                       timeout=timeout_ms / 1000 + 5, check=False)
    o = r.stdout.strip().splitlines()
    return o[0] if o and o[0] in ("sat", "unsat") else "unknown"
  except Exception:  # solver missing or killed: no second opinion
    return "unknown"
  finally:
    os.unlink(name)


def solve(assertions, timeout_ms=None, cvc5=False, retry=True):
  timeout_ms = timeout_ms or Opts.timeout_ms
  t0 = time.time()
  s = z3.Solver()
  s.set("timeout", timeout_ms)
  s.add(*assertions)
  r = s.check()
  backend = "z3"
  status = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
  model = s.model() if status == "sat" else None
  reason = s.reason_unknown() if status == "unknown" else ""
  if status == "unknown" and retry:
    # second strategy: the nonlinear solver behind simplification
    try:
      t = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
      t.set("timeout", timeout_ms)
      t.add(*assertions)
      r = t.check()
      if r == z3.unsat:
        status, backend = "unsat", "z3(tactic)"
      elif r == z3.sat:
        status, backend, model = "sat", "z3(tactic)", t.model()
    except z3.Z3Exception:
      pass
  if status == "unknown" and cvc5 and Opts.use_cvc5:
    c = _cvc5_check(s, timeout_ms)
    if c == "unsat":
      status, backend = "unsat", "cvc5"
  dt = time.time() - t0
  STATS["queries"] += 1
  STATS["solver_s"] += dt
  return Result(status, model, backend, reason, dt)


class Obligation:

  def __init__(self, vc, name, status, backend="", secs=0.0, reason="",
               inputs=None, formula=""):
    self.vc = vc
    self.name = name
    self.status = status  # proved | failed | unknown
    self.backend = backend
    self.secs = secs
    self.reason = reason
    self.inputs = inputs
    self.formula = formula

  def as_dict(self):
    return {k: v for k, v in self.__dict__.items() if v not in (None, "")}


def _poly(z):
  """Polynomial normal form: {monomial: coefficient}, a monomial being a sorted
  tuple of atom ids"""
  cache = {}

  def rec(e):
    r = cache.get(e.get_id())
    if r is None:
      r = cache[e.get_id()] = go(e)
    return r

  def mul(p, q):
    r = {}
    for m1, c1 in p.items():
      for m2, c2 in q.items():
        m = tuple(sorted(m1 + m2))
        r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}

  def go(e):
    if z3.is_rational_value(e):
      v = e.as_fraction()
      return {(): v} if v else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
      r = dict(rec(e.arg(0)))
      for c in e.children()[1:]:
        for m, v in rec(c).items():
          r[m] = r.get(m, 0) + (v if k == z3.Z3_OP_ADD else -v)
      return {m: c for m, c in r.items() if c}
    if k == z3.Z3_OP_UMINUS:
      return {m: -c for m, c in rec(e.arg(0)).items()}
    if k == z3.Z3_OP_MUL:
      r = rec(e.arg(0))
      for c in e.children()[1:]:
        r = mul(r, rec(c))
      return r
    if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and \
        e.arg(1).as_fraction():
      d = e.arg(1).as_fraction()
      return {m: c / d for m, c in rec(e.arg(0)).items()}
    return {(e.get_id(),): Fraction(1)}

  return rec(z)


def _ratio(e):
  """(numerator, denominator, all denominators met) of an arithmetic term"""
  one = z3.RealVal(1)
  k = e.decl().kind() if z3.is_app(e) else None
  if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
    ps = [_ratio(c) for c in e.children()]
    ds = [d for p in ps for d in p[2]]
    if k == z3.Z3_OP_UMINUS:
      return -ps[0][0], ps[0][1], ds
    n, d, _ = ps[0]
    for n2, d2, _ in ps[1:]:
      if k == z3.Z3_OP_MUL:
        n, d = n * n2, d * d2
      else:
        if d.eq(d2):
          n = n + n2 if k == z3.Z3_OP_ADD else n - n2
          continue
        n = n * d2 + n2 * d if k == z3.Z3_OP_ADD else n * d2 - n2 * d
        d = d * d2
    return n, z3.simplify(d), ds
  if k == z3.Z3_OP_DIV:
    a, b = _ratio(e.arg(0)), _ratio(e.arg(1))
    return a[0] * b[1], a[1] * b[0], a[2] + b[2] + [e.arg(1)]
  if k == z3.Z3_OP_ITE:
    raise Unsupported("conditional term in a rational identity")
  return e, one, []


def _symbol_numbers(e):
  seen, todo = set(), [e]
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_quantifier(x):
      todo.append(x.body())
    elif z3.is_app(x):
      if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name().rpartition("!")[2]
        if n.isdigit():
          yield n
      todo.extend(x.children())


class Path:
  """One symbolic execution path"""

  def __init__(self, ex, prefix):
    self.ex = ex
    self.prefix = prefix
    self.taken = []
    self.pc = []
    self.facts = []
    self.lemmas = []
    self.terms = []  # registered index terms
    self.inputs = {}
    self.ops = {}  # decl name -> Op (see nparr)
    self.hooks = []
    self.rounds = 3
    self.loop_specs = []
    self.spec_site = {}
    self.havocked = set()
    self.in_template = 0
    self.describing = 0
    self.small = []
    self.cache = {}
    self.heap_clock = 0
    self.frozen = 0  # >0: writes to pre-existing stores are not allowed
    self.trace = []
    self.keep = []
    self.loops = []  # active loops

  # -- assumptions ----------------------------------------------------------
  def assume(self, *conds):
    for c in conds:
      c = zbool(c)
      c = z3.simplify(c)
      if z3.is_true(c):
        continue
      self.pc.append(c)
      if z3.is_false(c):
        raise PathEnd("assumption is false")

  def fact(self, body, arity=1, name="fact"):
    self.in_template += 1
    try:
      self.facts.append(Fact(lambda *a: zbool(body(*a)), arity, name=name))
    finally:
      self.in_template -= 1

  def lemma(self, when, formula):
    self.lemmas.append(Lemma(when, formula))

  def reg(self, *terms):
    self.terms.extend(terms)

  def describe(self, f, *dims, under=()):
    """f(indices) as a function of indices in the given ranges; it is
    evaluated now, so that later changes of state do not matter"""
    ks = [fresh("probe") for _ in dims]
    born = next(_fresh)
    saved = len(self.pc)
    for k, d in zip(ks, dims):
      self.pc.append(z3.And(k >= 0, k < zint(d)))
    for u in under:
      self.pc.append(zbool(u(*ks)))
    self.in_template += 1
    self.describing += 1
    try:
      e = f(*ks)
    finally:
      self.in_template -= 1
      self.describing -= 1
      del self.pc[saved:]
    self.keep.append(e)
    # what is new in it would be the same for all indices
    if any(int(n) > born for n in _symbol_numbers(e)):
      raise Unsupported("new values in the description of an element")
    return lambda *a: z3.substitute(e, *zip(ks, [zint(x) for x in a]))

  # -- decisions ------------------------------------------------------------
  def _assertions(self, extra=(), light=False):
    base = self.pc + list(extra)
    inst = _instantiate(base, self, rounds=2 if light else self.rounds)
    return base + inst

  def feasible(self, cond):
    a = self._assertions([cond], light=True)
    return solve(a, Opts.branch_timeout_ms).status != "unsat"

  def branch(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.in_template:
      if self.describing:
        if not self.feasible(z3.Not(cond)):
          return True
        if not self.feasible(cond):
          return False
      raise Unsupported("branch inside the description of an element")
    n = len(self.taken)
    if n < len(self.prefix):
      d = self.prefix[n]
    else:
      if not self.feasible(cond):
        d = False
      elif not self.feasible(z3.Not(cond)):
        d = True
      else:
        d = True
        self.ex.work.append(self.taken + [False])
    self.taken.append(d)
    self.pc.append(cond if d else z3.simplify(z3.Not(cond)))
    return d

  def valid(self, cond):
    """Is the condition provable now (quick check, no obligation)"""
    cond = z3.simplify(zbool(cond))
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    return not self.feasible(z3.Not(cond))

  def provable(self, cond):
    """Like valid(), with the effort of an obligation"""
    if self.valid(cond):
      return True
    a = self._assertions([z3.simplify(z3.Not(zbool(cond)))])
    return solve(a, Opts.timeout_ms, cvc5=True).status == "unsat"

  def choose(self, name):
    """Non-deterministic boolean choice (both sides explored)"""
    return self.branch(fresh(name, "Bool"))

  # -- obligations ----------------------------------------------------------
  def prove(self, name, cond, timeout_ms=None, extra=()):
    self.ex.count += 1
    cond = zbool(cond)
    goal = z3.simplify(z3.Not(cond))
    if z3.is_false(goal):
      self.ex.record(Obligation(self.ex.name, name, "proved", "simplifier"))
      return True
    # few instances first
    r = None
    if self.rounds > 2:
      a = self._assertions([goal, *extra], light=True)
      r = solve(a, 2500, retry=False)
    if r is None or r.status != "unsat":
      a = self._assertions([goal, *extra])
      r = solve(a, timeout_ms or Opts.timeout_ms, cvc5=True)
    if r.status == "unsat":
      self.ex.record(
          Obligation(self.ex.name, name, "proved", r.backend, r.secs))
      return True
    inputs = None
    if r.status == "sat":
      inputs = self.concretize(r.model, a)
    txt = str(cond)
    self.ex.record(
        Obligation(self.ex.name, name,
                   "failed" if r.status == "sat" else "unknown", r.backend,
                   r.secs,
                   ("countermodel: " +
                    str(r.model)[:1500]) if r.model is not None else
                   f"solver: {r.reason}", inputs, txt[:1500]))
    return False

  def prove_all(self, name, dims, body, **kw):
    """forall i in dims: body(i)"""
    idx = [fresh("sk") for _ in dims]
    saved = len(self.pc)
    st = len(self.terms)
    self.reg(*idx)
    for i, d in zip(idx, dims):
      self.pc.append(z3.And(i >= 0, i < zint(d)))
    if not solve(self._assertions([], light=True),
                 Opts.branch_timeout_ms).status == "unsat":
      r = self.prove(name, body(*idx), **kw)
    else:
      self.ex.count += 1
      self.ex.record(
          Obligation(self.ex.name, name, "proved", "z3(empty range)"))
      r = True
    del self.pc[saved:]
    del self.terms[st:]
    return r

  def _known(self, hyps):
    ids = {c.get_id() for c in self.pc}
    for h in hyps:
      g = z3.simplify(h)
      if not z3.is_true(g) and not ids & {h.get_id(), g.get_id()}:
        raise Unsupported("algebra: hypothesis not established: " + str(h))

  def combine(self, name, lhs, rhs, terms):
    """Prove, then use: lhs == rhs because lhs - rhs is, as polynomials, the sum of
    cofactor * (l - r) over the established equalities (cofactor, l == r)"""
    self._known([h for _, h in terms])
    z = lhs - rhs
    for c, h in terms:
      z = z - c * (h.arg(0) - h.arg(1))
    if not _poly(z):
      self.ex.count += 1
      self.ex.record(Obligation(self.ex.name, name, "proved",
                                "polynomial normal form"))
    else:
      self.prove(name, lhs == rhs)
    self.assume(lhs == rhs)

  def rational(self, name, lhs, rhs, hyps, subst):
    """Prove, then use: lhs == rhs as rational functions whose denominators
    are not zero by the established hyps, after rewriting with the
    established equalities subst (term == value)"""
    self._known([*hyps, *subst])
    rw = [(e.arg(0), e.arg(1)) for e in subst]
    try:
      n1, d1, ds1 = _ratio(lhs)
      n2, d2, ds2 = _ratio(rhs)
      z = z3.substitute(n1 * d2 - n2 * d1, *rw)
      ok = not _poly(z)
      for d in {d.get_id(): d for d in ds1 + ds2}.values():
        k = z3.FreshReal("den")
        hs = [z3.substitute(h, (d, k)) for h in hyps]
        ok = ok and (z3.is_rational_value(d) and d.as_fraction() != 0 or
                     solve([*hs, k == 0], 5000, retry=False).status == "unsat")
    except Unsupported:
      ok = False
    if ok:
      self.ex.count += 1
      self.ex.record(Obligation(self.ex.name, name, "proved",
                                "polynomial normal form"))
    else:
      self.prove(name, lhs == rhs)
    self.assume(lhs == rhs)

  def algebra(self, name, hyps, concl, secs=20):
    """Prove, then use: concl from the established hypotheses alone, every application of a
    function that is not arithmetic being an arbitrary number"""
    self._known(hyps)
    apps = {}

    def walk(e, seen):
      if e.get_id() in seen:
        return
      seen.add(e.get_id())
      if z3.is_app(e) and e.num_args() and \
          e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        apps[e.get_id()] = e
        return
      for c in e.children():
        walk(c, seen)

    seen = set()
    for e in (*hyps, concl):
      walk(e, seen)
    sub = [(e, z3.Const(f"alg!{j}", e.sort()))
           for j, e in enumerate(apps.values())]
    gen = lambda e: z3.substitute(e, *sub)
    s = z3.SimpleSolver()
    s.set("timeout", int(secs * 1000))
    s.add(*[gen(h) for h in hyps], z3.Not(gen(concl)))
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    if r == z3.unsat:
      self.ex.count += 1
      self.ex.record(Obligation(self.ex.name, name, "proved", "z3 (algebra)",
                                time.time() - t0))
    else:
      self.prove(name, concl)
    self.assume(concl)

  def fail(self, name, reason=""):
    """An obligation that is false whenever this path is feasible"""
    return self.prove(name, z3.BoolVal(False)) or reason is None

  def cover(self, name="cover"):
    """Reachability of this point (vacuity guard)"""
    r = solve(self._assertions([], light=True), 4000)
    self.ex.covers.append((name, r.status))

  # -- inputs -----------------------------------------------------------------
  def input(self, name, conc):
    """conc: function(model_eval) -> json-able"""
    self.inputs[name] = conc

  def concretize(self, model, assertions):
    m = model
    # prefer a small model
    try:
      small = [c for c in getattr(self, "small", [])]
      if small:
        r = solve(list(assertions) + small, 5000)
        if r.status == "sat":
          m = r.model
      out = {}
      for k, f in self.inputs.items():
        out[k] = f(m)
      return out
    except Exception as e:  # pylint: disable=W0703
      return {"_error": f"{type(e).__name__}: {e}"}


class Explorer:
  """Runs a verification condition function over all paths"""

  def __init__(self, name, max_paths=None):
    self.name = name
    self.work = []
    self.obligations = []
    self.covers = []
    self.count = 0
    self.paths = 0
    self.undecided = []
    self.max_paths = max_paths or Opts.max_paths
    self.secs = 0.0
    self.memory = {}

  def learn(self, key, value):
    self.memory.setdefault(key, set()).add(value)
    raise Restart()

  def record(self, ob):
    self.obligations.append(ob)

  def run(self, fn):
    t0 = time.time()
    self.work = [[]]
    restarts = 0
    while self.work:
      prefix = self.work.pop()
      self.paths += 1
      if self.paths > self.max_paths:
        self.undecided.append(f"more than {self.max_paths} paths")
        break
      p = Path(self, prefix)
      _CUR[0] = p
      try:
        fn(p)
        p.cover()
      except PathEnd:
        pass
      except Restart:
        self.work, self.obligations, self.covers = [[]], [], []
        self.undecided, self.count = [], 0
        restarts += 1
        if restarts > 40:
          self.undecided.append("invariant inference does not terminate")
          break
        self.paths = 0
      except Unsupported as e:
        if solve(p._assertions([], light=True), 3000).status != "unsat":
          self.undecided.append(f"unsupported: {e}" + _where(e))
      except RecursionError as e:
        self.undecided.append(f"recursion: {e}")
      except Exception as e:  # pylint: disable=W0703
        self._escaped(p, e)
      finally:
        _CUR[0] = None
    self.secs = time.time() - t0
    return self

  def _escaped(self, p, e):
    """An exception of the code under verification that no contract allows"""
    if getattr(e, "_vc_modelled", False) or _innermost_is_repo(e):
      # an error that the generator's stand-ins may have caused themselves:
      # a failure only if the real code does the same on the path's input
      suspect = isinstance(e, (NameError, AttributeError, TypeError)) and \
          not getattr(e, "_vc_modelled", False)
      if suspect and _mentions_model(e):
        self.undecided.append(f"{type(e).__name__}: {e}" + _where(e))
        return
      a = p._assertions([])
      r = solve(a, 5000)
      self.count += 1
      name = f"no {type(e).__name__} escapes"
      if r.status == "unsat":
        self.record(Obligation(self.name, name, "proved", r.backend, r.secs))
      else:
        self.record(
            Obligation(self.name, name, "suspect" if suspect else "failed",
                       r.backend, r.secs,
                       f"{type(e).__name__}: {e}{_where(e)}",
                       p.concretize(r.model, a) if r.model else None))
    else:
      if os.environ.get("VERIF_TRACE"):
        import traceback
        traceback.print_exc()
      self.undecided.append(f"engine: {type(e).__name__}: {e}" + _where(e))


def _tb_files(e):
  return [(f.filename, f.lineno, f.name)
          for f in traceback.extract_tb(e.__traceback__)]


def _where(e):
  fs = _tb_files(e)
  fs = [f for f in fs if f[0].startswith("<repo>")] or fs[-1:]
  return "" if not fs else f" at {fs[-1][0]}:{fs[-1][1]} ({fs[-1][2]})"


def _innermost_is_repo(e):
  fs = _tb_files(e)
  return bool(fs) and fs[-1][0].startswith("<repo>")


def _mentions_model(e):
  s = str(e)
  return any(t in s for t in ("SArr", "SReal", "SInt", "SBool", "SCplx",
                              "FakeNp", "Stub", "SSeq", "SList", "Fraction"))


# ---------------------------------------------------------------------------
# conversions used everywhere (late bound to avoid import cycles)
# ---------------------------------------------------------------------------
def zbool(c):
  from pyvc import values
  return values.to_zbool(c)


def zint(c):
  from pyvc import values
  return values.to_zint(c)


def zreal(c):
  from pyvc import values
  return values.to_zreal(c)
