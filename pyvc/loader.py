"""Mechanical extraction: read /repo's source, instrument the AST, execute it
under CPython with symbolic builtins and library contracts."""
import ast
import copy
import builtins
import os
import sys
import types

from pyvc import seq
from pyvc.core import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")

REAL_STD = {
    "abc", "argparse", "ast", "base64", "bisect", "collections", "contextlib",
    "copy", "dataclasses", "datetime", "enum", "functools", "inspect", "io",
    "json", "keyword", "logging", "numbers", "operator", "os", "pathlib",
    "re", "shutil", "string", "sys", "tempfile", "textwrap", "time", "token",
    "tokenize", "traceback", "types", "typing", "unittest", "warnings",
    "weakref", "__future__", "glob", "platform", "subprocess", "threading",
    "queue", "signal", "html", "urllib", "urllib.request", "fractions",
    "collections.abc", "importlib", "uuid", "hashlib", "pickle", "itertools_",
}


class AutoStub(types.ModuleType):
  """Library without contract: attributes exist, using them is unsupported"""

  def __init__(self, name):
    super().__init__(name)
    self.__path__ = []
    self._cache = {}

  def __getattr__(self, name):
    if name.startswith("__") and name.endswith("__") or name.startswith(
        "_vc"):
      raise AttributeError(name)
    if name not in self._cache:
      self._cache[name] = make_stub(self.__name__, name)
    return self._cache[name]

  def __call__(self, *a, **k):
    raise Unsupported(f"call of {self.__name__}, which has no contract")


def make_stub(mod, name):
  """Lower case names stand for modules and functions, others for classes"""
  full = f"{mod}.{name}"
  return AutoStub(full) if name[:1].islower() else stub_class(full)


def stub_class(name):
  """A class that can be inherited from, referenced and looked into, but not
  called"""

  def new(cls, *a, **k):
    if cls.__dict__.get("_vc_stub"):
      raise Unsupported(f"call of {name}, which has no contract")
    return object.__new__(cls)

  return type(name, (), {"__new__": new, "_vc_stub": True,
                         "register": classmethod(lambda c, *a, **k: None),
                         "__init_subclass__": classmethod(
                             lambda c, **k: None)})


class Instrument(ast.NodeTransformer):
  """Loops, comprehensions, float literals and true divisions"""

  def __init__(self):
    self.qual = []
    self.n = 0
    self.hs = [None]
    self.fns = []

  def uid(self):
    self.n += 1
    return self.n

  def _q(self):
    return ".".join(self.qual) or "<module>"

  def visit_FunctionDef(self, node):
    self.qual.append(node.name)
    self.fns.append(copy.deepcopy(node))
    self.generic_visit(node)
    self.fns.pop()
    self.qual.pop()
    return node

  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_ClassDef(self, node):
    self.qual.append(node.name)
    self.generic_visit(node)
    self.qual.pop()
    return node

  def visit_Constant(self, node):
    if isinstance(node.value, float) and node.value == node.value and \
        abs(node.value) != float("inf"):
      return ast.copy_location(
          ast.Call(ast.Name("__vc_num__", ast.Load()),
                   [ast.Constant(repr(node.value))], []), node)
    return node

  def visit_JoinedStr(self, node):
    parts = []
    for v in node.values:
      if isinstance(v, ast.Constant):
        parts.append(ast.Tuple([v], ast.Load()))
        continue
      if v.format_spec is not None and not all(
          isinstance(q, ast.Constant) for q in v.format_spec.values):
        return node
      spec = v.format_spec or ast.Constant("")
      parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion),
                              spec], ast.Load()))
    return ast.copy_location(
        ast.Call(ast.Name("__vc_fstring__", ast.Load()), parts, []), node)

  def visit_Call(self, node):
    self.generic_visit(node)
    for a in node.args:
      if isinstance(a, ast.Starred):
        a.value = ast.copy_location(
            ast.Call(ast.Name("__vc_star__", ast.Load()), [a.value], []), a)
    f = node.func
    if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(
        f.value, ast.Constant) and isinstance(f.value.value, str) and len(
            node.args) == 1 and not node.keywords:
      return ast.copy_location(
          ast.Call(ast.Name("__vc_join__", ast.Load()),
                   [f.value, node.args[0]], []), node)
    return node

  def visit_List(self, node):
    self.generic_visit(node)
    if isinstance(node.ctx, ast.Load) and not node.elts:
      return ast.copy_location(
          ast.Call(ast.Name("__vc_emptylist__", ast.Load()), [], []), node)
    return self._display(node)

  def visit_Tuple(self, node):
    self.generic_visit(node)
    return self._display(node)

  def _display(self, node):
    if not isinstance(node.ctx, ast.Load) or not any(
        isinstance(e, ast.Starred) for e in node.elts):
      return node
    parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)),
                        e.value if isinstance(e, ast.Starred) else e],
                       ast.Load()) for e in node.elts]
    return ast.copy_location(
        ast.Call(ast.Name("__vc_display__", ast.Load()),
                 [ast.Constant(isinstance(node, ast.List)), *parts], []),
        node)

  def visit_UnaryOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Not):
      return ast.copy_location(ast.Call(
          ast.Name("__vc_not__", ast.Load()), [node.operand], []), node)
    return node

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Div):
      return ast.copy_location(
          ast.Call(ast.Name("__vc_div__", ast.Load()),
                   [node.left, node.right], []), node)
    return node

  def _names(self, node):
    """Names bound by the statement, in order"""
    out = []

    class V(ast.NodeVisitor):

      def visit_FunctionDef(s, n):
        out.append(n.name)

      visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

      def visit_Lambda(s, n):
        pass

      def _comp(s, n):
        pass

      visit_ListComp = visit_SetComp = visit_DictComp = _comp
      visit_GeneratorExp = _comp

      def visit_Name(s, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
          out.append(n.id)

    for b in node.body:
      V().visit(b)
    if isinstance(node, ast.For):
      V().visit(node.target)
    seen = []
    for n in out:
      if n not in seen and not n.startswith("__vc"):
        seen.append(n)
    return seen

  def _havoc(self, h, names):
    if not names:
      return ast.parse(
          f"if {h}.sym:\n  {h}.havoc(__vc_locals__(), ())").body
    t = ", ".join(names) + ","
    ns = ", ".join(repr(n) for n in names) + ","
    return ast.parse(
        f"if {h}.sym:\n  {t} = {h}.havoc(__vc_locals__(), ({ns}))").body

  def _body(self, node, h):
    orelse, node.orelse = node.orelse, []
    self.hs.append(h)
    self.generic_visit(node)
    self.hs.pop()
    node.orelse = [
        y for s in orelse for r in [self.visit(s)]
        for y in (r if isinstance(r, list) else [r])
    ]

  def visit_Break(self, node):
    h = self.hs[-1]
    if h is None:
      return node
    out = ast.parse(f"{h}.leave()").body
    for s in ast.walk(out[0]):
      ast.copy_location(s, node)
    return out + [node]

  # -- loops that build a list or a sum -------------------------------------
  def _map_loop(self, node):
    """for T in IT: a = ..; X.append(E), also X += E and with one guard, as an
    extension by a comprehension. None where the loop does more"""
    if node.orelse or not self.fns:
      return None
    pre, guard, final, before = [], None, None, None
    for k, s in enumerate(node.body):
      last = k == len(node.body) - 1
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and not last:
        pre.append(s)
      elif isinstance(s, ast.If) and not s.orelse and guard is None and len(
          s.body) == 1:
        if isinstance(s.body[0], ast.Continue) and not last:
          guard, before = ast.UnaryOp(ast.Not(), s.test), len(pre)
        elif last:
          guard, before, final = s.test, len(pre), s.body[0]
        else:
          return None
      elif last:
        final = s
      else:
        return None
    if isinstance(final, ast.Expr) and isinstance(
        final.value, ast.Call) and isinstance(
            final.value.func, ast.Attribute) and isinstance(
                final.value.func.value, ast.Name) and len(
                    final.value.args) == 1 and not final.value.keywords and \
        final.value.func.attr == "append" and not isinstance(
            final.value.args[0], ast.Starred):
      kind, acc, e = "append", final.value.func.value.id, final.value.args[0]
    elif isinstance(final, ast.AugAssign) and isinstance(
        final.op, ast.Add) and isinstance(final.target, ast.Name):
      kind, acc, e = "sum", final.target.id, final.value
    else:
      return None
    # names of the loop, of which nothing else knows
    own = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    if not all(isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.expr_context))
               for t in [node.target] + [s.targets[0] for s in pre]
               for n in ast.walk(t)):
      return None
    parts = [s.value for s in pre] + [e] + ([guard] if guard else [])
    if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
           or isinstance(n, ast.Name) and n.id in (acc, "super", "locals")
           for x in parts for n in ast.walk(x)):
      return None
    seen = set(own)
    local = own | {n.id for s in pre for n in ast.walk(s.targets[0])
                   if isinstance(n, ast.Name)}
    bound = set(own)
    for k, s in enumerate(pre + [None]):
      used = [s.value] if s else [e]
      if guard is not None and before == k:
        used.append(guard)
      if any(isinstance(n, ast.Name) and n.id in local - bound
             for x in used for n in ast.walk(x)):
        return None
      if s:
        bound |= {n.id for n in ast.walk(s.targets[0])
                  if isinstance(n, ast.Name)}
    if acc in local:
      return None
    inside = {(n.lineno, n.col_offset) for n in ast.walk(node)
              if isinstance(n, ast.Name)}

    def read(n, hidden):
      """Is a name of the loop read elsewhere?"""
      if isinstance(n, (ast.Global, ast.Nonlocal)):
        return True
      if isinstance(n, ast.Name):
        return n.id in local - hidden and isinstance(n.ctx, ast.Load) and \
            (n.lineno, n.col_offset) not in inside
      ids = lambda t: {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
      if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                        ast.GeneratorExp)):
        if read(n.generators[0].iter, hidden):
          return True
        hidden = hidden.union(*[ids(g.target) for g in n.generators])
        return any(read(c, hidden) for c in ast.iter_child_nodes(n)
                   if c is not n.generators[0]) or any(
                       read(c, hidden) for c in n.generators[0].ifs)
      if isinstance(n, ast.Lambda):
        hidden = hidden | {a.arg for a in n.args.args}
      if isinstance(n, ast.For):
        if read(n.iter, hidden):
          return True
        inner = hidden | ids(n.target)
        return any(read(c, inner) for c in n.body) or any(
            read(c, hidden) for c in n.orelse)
      return any(read(c, hidden) for c in ast.iter_child_nodes(n))

    if read(self.fns[-1], frozenset()):
      return None
    new = kind == "append" and self._fresh_list(node, acc)
    cp = copy.deepcopy
    ret = lambda v: ast.Return(cp(v))
    args = lambda a: ast.arguments(
        posonlyargs=[], args=[ast.arg(a)], kwonlyargs=[], kw_defaults=[],
        defaults=[])
    u = self.uid()

    def fn(name, stmts, v):
      t = f"__vc_e{u}"
      return ast.FunctionDef(
          name, args(t), [ast.Assign([cp(node.target)],
                                     ast.Name(t, ast.Load()))] + [
              cp(x) for x in stmts] + [ret(v)], [])

    fs = [fn(f"__vc_f{u}", pre, e)]
    c = "None"
    if guard is not None:
      c = f"__vc_c{u}"
      fs.append(fn(c, pre[:before], guard))
    act = ast.parse(f"{acc} = __vc_map_{kind}__({acc}, __vc_f{u}, "
                    f"__vc_i{u}, {c}, {new})").body[0]
    return u, fs, act

  def _fresh_list(self, node, acc):
    """The list is a new one, to which nothing else refers before the loop"""
    pos = (node.lineno, node.col_offset)
    for b in ast.walk(self.fns[-1]):
      for f in ("body", "orelse", "finalbody"):
        ss = getattr(b, f, None)
        if not isinstance(ss, list):
          continue
        for k, s in enumerate(ss):
          if not isinstance(s, ast.For) or (s.lineno, s.col_offset) != pos:
            continue
          for q in reversed(ss[:k]):
            t = q.targets if isinstance(q, ast.Assign) else [
                q.target] if isinstance(q, ast.AnnAssign) else []
            if len(t) == 1 and isinstance(t[0], ast.Name) and t[0].id == acc:
              return isinstance(q.value, ast.List) and not q.value.elts or \
                  isinstance(q.value, ast.Call) and isinstance(
                      q.value.func, ast.Name) and q.value.func.id == "list" \
                  and not q.value.args
            if any(isinstance(n, ast.Name) and n.id == acc
                   for n in ast.walk(q)):
              return False
    return False

  def visit_For(self, node):
    m = self._map_loop(node)
    if m is None:
      return self._for(node)
    u, fs, act = m
    it = ast.Assign([ast.Name(f"__vc_i{u}", ast.Store())],
                    self.visit(node.iter))
    test = ast.parse(f"__vc_is_map__(__vc_i{u}, {self._q()!r}, "
                     f"{self._q() + ':' + str(node.lineno)!r}, "
                     "__vc_locals__())").body[0].value
    hs, self.hs = self.hs, [None]
    fs = [self._plain(f) for f in fs]
    self.hs = hs
    node.iter = ast.Name(f"__vc_i{u}", ast.Load())
    rest = self._for(node)
    new = ast.If(test, fs + [act], rest if isinstance(rest, list) else [rest])
    for s in [it, test, act, *fs]:
      for x in ast.walk(s):
        if not hasattr(x, "lineno"):
          ast.copy_location(x, node)
    ast.copy_location(new, node)
    return [it, new]

  def _plain(self, f):
    """Instrument the body of a generated function"""
    self.fns.append(copy.deepcopy(f))
    self.generic_visit(f)
    self.fns.pop()
    return f

  def _for(self, node):
    names = self._names(node)
    h = f"__vc_h{self.uid()}"
    self._body(node, h)
    pre = ast.parse(f"{h} = __vc_loop__(None, {self._q()!r}, "
                    f"{self._q() + ':' + str(node.lineno)!r}, "
                    "__vc_locals__())").body[0]
    pre.value.args[0] = node.iter
    node.iter = ast.Name(h, ast.Load())
    out = [pre] + self._havoc(h, names) + [node]
    for o in out[:-1]:
      for s in ast.walk(o):
        ast.copy_location(s, node)
    return out

  def visit_While(self, node):
    if any(isinstance(n, ast.NamedExpr) for n in ast.walk(node.test)):
      self.hs.append(None)
      self.generic_visit(node)
      self.hs.pop()
      return node
    names = self._names(node)
    h = f"__vc_h{self.uid()}"
    self._body(node, h)
    pre = ast.parse(f"{h} = __vc_while__({self._q()!r}, "
                    f"{self._q() + ':' + str(node.lineno)!r}, "
                    "__vc_locals__())").body[0]
    lam = ast.Lambda(
        ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                      defaults=[]), node.test)
    node.test = ast.Call(
        ast.Attribute(ast.Name(h, ast.Load()), "cond", ast.Load()), [lam], [])
    out = [pre] + self._havoc(h, names) + [node]
    for o in out[:-1]:
      for s in ast.walk(o):
        ast.copy_location(s, node)
    for s in ast.walk(node.test):
      ast.copy_location(s, node)
    return out

  # -- comprehensions -----------------------------------------------------
  def _lam(self, target, body):
    """lambda for a possibly nested tuple target"""
    args = lambda names: ast.arguments(
        posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[],
        kw_defaults=[], defaults=[])
    if isinstance(target, ast.Name):
      return ast.Lambda(args([target.id]), body)
    names, inner = [], body
    for e in target.elts:
      if isinstance(e, ast.Name):
        names.append(e.id)
      else:
        n = f"__vc_t{self.uid()}"
        names.append(n)
        if isinstance(e, ast.Starred):
          return None
        sub = self._lam(e, inner)
        if sub is None:
          return None
        inner = ast.Call(sub, [ast.Name(n, ast.Load())], [])
    t = f"__vc_t{self.uid()}"
    return ast.Lambda(
        args([t]),
        ast.Call(ast.Lambda(args(names), inner), [
            ast.Starred(
                ast.Call(ast.Name("__vc_unpack__", ast.Load()), [
                    ast.Name(t, ast.Load()),
                    ast.Constant(len(target.elts))
                ], []), ast.Load())
        ], []))

  def _comp(self, node, fn):
    self.generic_visit(node)
    if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield))
           for n in ast.walk(node)) or any(
               g.is_async for g in node.generators):
      return node
    gens = node.generators

    def build(j, f):
      g = gens[j]
      body = node.elt if j == len(gens) - 1 else build(j + 1,
                                                        "__vc_listcomp__")
      l = self._lam(g.target, body)
      c = ast.Constant(None)
      if g.ifs:
        t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
        c = self._lam(g.target, t)
      if l is None or c is None:
        return None
      r = ast.Call(ast.Name(f, ast.Load()), [l, g.iter, c], [])
      if j < len(gens) - 1:
        r = ast.Call(ast.Name("__vc_flat__", ast.Load()), [r], [])
      return r

    r = build(0, fn)
    if r is None:
      return node
    for s in ast.walk(r):
      if not hasattr(s, "lineno"):
        ast.copy_location(s, node)
    return ast.copy_location(r, node)

  def visit_ListComp(self, node):
    return self._comp(node, "__vc_listcomp__")

  def visit_GeneratorExp(self, node):
    return self._comp(node, "__vc_genexp__")

  def _wrap(self, node):
    self.generic_visit(node)
    for g in node.generators:
      g.iter = ast.copy_location(
          ast.Call(ast.Name("__vc_conc__", ast.Load()), [g.iter], []), node)
    return node

  visit_SetComp = visit_DictComp = _wrap


class World:
  """A fresh set of lifted modules"""

  def __init__(self, repo=None):
    self.repo = repo or REPO
    self.modules = {}
    self.sources = {}
    from pyvc import fakes
    self.fakes = fakes.make(self)
    self.builtins = dict(vars(builtins))
    self.builtins.update(seq.BUILTINS)
    self.builtins["__import__"] = self.imp

  def path_of(self, name):
    base = os.path.join(self.repo, *name.split("."))
    if os.path.isdir(base):
      f = os.path.join(base, "__init__.py")
      return (f if os.path.exists(f) else None), True
    if os.path.exists(base + ".py"):
      return base + ".py", False
    return None, False

  def load(self, name, path=None):
    if name in self.modules:
      return self.modules[name]
    if path is None:
      path, pkg = self.path_of(name)
    else:
      pkg = False
    pm = None
    if "." in name:
      parent, last = name.rsplit(".", 1)
      pm = self.load(parent)
      if name in self.modules:
        return self.modules[name]
    m = types.ModuleType(name)
    self.modules[name] = m
    if pkg:
      m.__path__ = []
    if pm is not None:
      setattr(pm, last, m)
    if path is None:
      return m
    with open(path, encoding="utf-8") as f:
      src = f.read()
    self.sources[name] = src
    rel = os.path.relpath(path, self.repo)
    tree = Instrument().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    code = compile(tree, "<repo>/" + rel, "exec")
    m.__file__ = path
    m.__package__ = name if pkg else name.rpartition(".")[0]
    m.__dict__["__builtins__"] = self.builtins
    try:
      exec(code, m.__dict__)  # pylint: disable=W0122
    except BaseException:
      self.modules.pop(name, None)
      raise
    return m

  def imp(self, name, globs=None, locs=None, fromlist=(), level=0):
    if level:
      pk = (globs or {}).get("__package__", "")
      parts = pk.split(".")
      parts = parts[:len(parts) - (level - 1)]
      name = ".".join(parts + ([name] if name else []))
    root = name.split(".")[0]
    if root in ("sample", "scripts") or (root == "utils" and
                                         self.path_of(name)[0]):
      m = self.load(name)
      for f in fromlist or ():
        if f != "*" and not hasattr(m, f):
          p, pkg = self.path_of(name + "." + f)
          if p:
            self.load(name + "." + f)
      if fromlist:
        return m
      return self.load(root)
    if name in self.fakes or root in self.fakes:
      top = self.fakes[root] if root in self.fakes else AutoStub(root)
      if not fromlist:
        # make sure that the attribute path resolves
        return top
      cur = top
      for part in name.split(".")[1:]:
        cur = getattr(cur, part)
      return cur
    if root in REAL_STD or root in sys.stdlib_module_names and \
        root not in ("tkinter", "math", "itertools",
                     "random", "statistics"):
      return builtins.__import__(name, None, None, fromlist, 0)
    key = name if fromlist else root
    if key not in self.fakes:
      self.fakes[key] = AutoStub(key)
    return self.fakes[key]
