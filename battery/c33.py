"""C33: release tooling"""
import contextlib
import functools
import importlib.util
import io
import itertools
import os
import pathlib
import re
import sys
import tempfile

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


def script(name):
  spec = importlib.util.spec_from_file_location(
      "vp_" + name, REPO / "scripts" / "utils" / (name + ".py"))
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


@functools.lru_cache(None)
def cl():
  return script("make_changelog")


@functools.lru_cache(None)
def ya():
  return script("yapf_nbformat")


def sign(x):
  return (x > 0) - (x < 0)


def gen_compare(rng, i):
  def v():
    n = int(rng.integers(0, 4))
    return [int(x) for x in rng.integers(0, [3, 12, 200][i % 3], n)]
  u = v()
  return dict(u=u, v=list(u) + v() if i % 5 == 0 else
              (u if i % 7 == 0 else v()), w=v())


def check_compare(u, v=None, w=None, **_):
  f = cl()._version_compare
  vs = [tuple(int(c) for c in x) for x in (u, u if v is None else v,
                                           u if w is None else w)]
  for a in vs:
    for b in vs:
      # python orders tuples from the left, a prefix before what extends it
      e = sign((a > b) - (a < b))
      assert sign(f(a, b)) == e, f"comparison of {a} and {b}: {f(a, b)}"


ESC = re.compile(r"\s*pass  # [!%].*  # escaped-for-yapf")
PIECES = ["!", "%", " ", "  ", "\t", "ls -l", "x = 1", "pass", "pass  # ",
          "# ", "  # escaped-for-yapf", "%%time", "!pip install {x}", "\u3000",
          "'", "\\", "  #", "é", "  # escaped-for-yapf "]


def gen_line(rng, i):
  if i < 2 * len(PIECES):
    return dict(s=(" " if i % 2 else "") + PIECES[i // 2])
  return dict(s="".join(PIECES[int(j)] for j in rng.integers(
      0, len(PIECES), int(rng.integers(0, 6)))))


def check_line(s, **_):
  m = ya()
  if len(s.splitlines()) > 1 or "\n" in s:
    return
  t = m._wrap_command_line(s)
  body = s.lstrip()
  if body[:1] in ("!", "%") and body:
    lead = s[:len(s) - len(body)]
    assert t == lead + "pass  # " + body + "  # escaped-for-yapf", \
        f"escaped {s!r} is {t!r}"
  else:
    assert t == s, f"escaping changes {s!r} to {t!r}"
  if ESC.fullmatch(s):
    lead = s[:len(s) - len(body)]
    e = lead + body[8:-len("  # escaped-for-yapf")]
    assert m._unwrap_command_line(s) == e, \
        f"unescaped {s!r} is {m._unwrap_command_line(s)!r}"
  else:
    assert m._unwrap_command_line(s) == s, f"unescaping changes {s!r}"
    assert m._unwrap_command_line(t) == s, \
        f"{s!r} comes back as {m._unwrap_command_line(t)!r}"


def gen_changelog(rng, i):
  names = []
  for _ in range(int(rng.integers(0, 9))):
    v = "_".join(str(int(x)) for x in rng.integers(
        0, 14, int(rng.integers(1, 5))))
    names.append("v" + v + ".md")
  return dict(names=sorted(set(names)), extra=["README.md", "notes"][:i % 3],
              dry=i % 4 == 3)


def check_changelog(names, extra=(), dry=False, **_):
  m = cl()
  import logging
  logging.disable(logging.CRITICAL)
  with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    src, out = d / "changelog", d / "docs" / "source" / "changelog.rst"
    src.mkdir()
    out.parent.mkdir(parents=True)
    out.write_text("as it was")
    for f in list(names) + list(extra):
      (src / f).write_text(f)
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
      m.main("-I", str(src), "-O", str(out), "-l", "CRITICAL",
             *(["--dry-run"] if dry else []))
    text = out.read_text()
    if dry:
      assert text == "as it was", "a dry run writes the file"
      text = o.getvalue()
    got = re.findall(r"^\.\. mdinclude:: (.*)$", text, re.M)
    for g in got:
      assert (out.parent / g).resolve().parent == src.resolve(), \
          f"{g} is not a version file"
    got = [pathlib.Path(g).name for g in got]
    assert sorted(got) == sorted(names), f"listed files {got} of {names}"
    ver = [tuple(map(int, g[1:-3].split("_"))) for g in got]
    assert all(a >= b for a, b in zip(ver, ver[1:])), f"order {got}"
    assert text.startswith("Changelog\n=========\n"), "title"
  logging.disable(logging.NOTSET)


def cells(rng):
  out = []
  for _ in range(int(rng.integers(1, 5))):
    lines = []
    for _ in range(int(rng.integers(1, 5))):
      lines.append([
          "!ls -l  {x}", "%matplotlib   inline", "x = 1", "y  =  [1,2 ,3]",
          "for i in range(3):\n  !echo   {i}", "if x:\n  %time   f( x )",
          "# a comment", "%%capture", "print( 'x' )"][int(rng.integers(0, 9))])
    out.append("\n".join(lines))
  return out


def gen_notebook(rng, i):
  return dict(cells=cells(rng), bad=i % 5 == 4, dry=i % 3 == 2)


COMMAND = re.compile(r"\s*([!%].*)")


def check_notebook(cells, bad=False, dry=False, **_):
  import logging
  import nbformat
  m = ya()
  logging.disable(logging.CRITICAL)
  with tempfile.TemporaryDirectory() as d:
    f = pathlib.Path(d) / "n.ipynb"
    nb = nbformat.v4.new_notebook()
    src = list(cells) + (["def f(:\n!ls   -a"] if bad else [])
    nb.cells = [nbformat.v4.new_markdown_cell("!not   a command")] + [
        nbformat.v4.new_code_cell(c) for c in src] + [
            nbformat.v4.new_code_cell("# yapf: ignore\nx   =  1\n!ls")]
    nbformat.write(nb, str(f))
    before = f.read_text()
    changed = m.format_nb(str(f), dry_run=dry, style="google")
    after = f.read_text()
    if dry or not changed:
      assert after == before, "the file is written without changes"
    new = nbformat.read(str(f), as_version=nbformat.NO_CONVERT)
    assert len(new.cells) == len(nb.cells), "number of cells"
    for a, b in zip(nb.cells, new.cells):
      ca = [COMMAND.fullmatch(x).group(1) for x in a["source"].splitlines()
            if COMMAND.fullmatch(x)]
      cb = [COMMAND.fullmatch(x).group(1) for x in b["source"].splitlines()
            if COMMAND.fullmatch(x)]
      assert ca == cb, f"commands {ca} become {cb}"
      assert "escaped-for-yapf" not in b["source"], "left escaped"
      if a["cell_type"] != "code" or a["source"].startswith("# yapf: ignore"):
        assert a["source"] == b["source"], "other cells are untouched"
    assert not m.format_nb(str(f), dry_run=False, style="google") or dry, \
        "formatting again changes the notebook"
  logging.disable(logging.NOTSET)


CASES = {
    "compare": (gen_compare, check_compare, 400),
    "line": (gen_line, check_line, 2000),
    "changelog": (gen_changelog, check_changelog, 60),
    "notebook": (gen_notebook, check_notebook, 40),
}
