"""C13: mode energies, ordering, export, resynthesis"""
from contracts.common import *  # noqa: F403

M = "sample.sample"
S = f"{M}:SAMPLE"
FEATS = ("energies", "freqs", "amps", "decays")


@vc("C13", "modal energy of scalars", [f"{M}:modal_energy"],
    replay="energy")
def energy0(p, w):
  m = w.load(M)
  a, d = real(p, "a"), real(p, "d")
  r = m.modal_energy(a, d)
  p.prove("a scalar gives a scalar", zbool(scalar(r)))
  p.prove("d a^2 / 4", eq(r, SReal(d.z * a.z * a.z / 4)))


for _k in ("none", "other", "self"):

  @vc("C13", f"modal energy of arrays, out={_k}", [f"{M}:modal_energy"],
      replay="energies")
  def energy(p, w, _k=_k):
    m = w.load(M)
    n = length(p, "n", 0)
    a, d = array(p, "a", (n,)), array(p, "d", (n,))
    p.input("out", lambda mo: _k)
    oa, od = frozen_copy(a), frozen_copy(d)
    kw = {}
    if _k != "none":
      kw["out"] = a if _k == "self" else array(p, "o", (n,))
    sp = lambda i: SReal(zreal(od.at(i)) * zreal(oa.at(i)) * zreal(
        oa.at(i)) / 4)
    prove_array(p, "d a^2 / 4", m.modal_energy(a, d, **kw), (n,), sp)
    if _k != "self":
      prove_same(p, "amplitudes unmodified", a, oa)
    prove_same(p, "decays unmodified", d, od)


def model(p, w, rows=3, max_n=None, lo=0):
  m = w.load(M)
  n = length(p, "n", lo)
  P = array(p, "P", (rows, n))
  if rows == 4:
    mod = w.load("sample.beatsdrop.sample").SAMPLEBeatsDROP(max_n_modes=max_n)
  else:
    mod = m.SAMPLE(max_n_modes=max_n)
  mod.param_matrix_ = P
  return m, n, P, mod


def feature(P, nm):
  r = {"freqs": 0, "decays": 1, "amps": 2}.get(nm)
  if r is not None:
    return lambda i: zreal(P.at(r, i))
  return lambda i: zreal(P.at(1, i)) * zreal(P.at(2, i)) * zreal(
      P.at(2, i)) / 4


def as_index(r):
  return seq.getter(r) if not isinstance(r, N.SArr) else (
      lambda k: r.at(k))


for _o in FEATS:
  for _rev in (True, False):

    @vc("C13", f"ordering by {_o}, {'decreasing' if _rev else 'increasing'}",
        [f"{S}.mode_argsort_", f"{S}.energies_"], replay="argsort")
    def argsort(p, w, _o=_o, _rev=_rev):
      m, n, P, mod = model(p, w)
      p.input("order", lambda mo: _o)
      p.input("reverse", lambda mo: _rev)
      old = frozen_copy(P)
      f = feature(old, _o)
      r = mod.mode_argsort_(_o, _rev)
      p.prove("one index per mode", N.zi(seq.vlen(r)) == n.z)
      g = as_index(r)
      inr = lambda k: And(zint(g(k)) >= 0, zint(g(k)) < n.z)
      p.prove_all("indices of modes", (n,), inr)
      p.prove_all("sorted by the feature", (n, n), lambda j, k: Implies(
          j <= k, f(zint(g(j))) >= f(zint(g(k))) if _rev else
          f(zint(g(j))) <= f(zint(g(k)))))
      p.prove_all("no mode twice", (n, n), lambda j, k: Implies(
          j != k, zint(g(j)) != zint(g(k))))
      prove_same(p, "parameters unmodified", mod.param_matrix_, old)
      # defaults
      if _o == "energies" and _rev:
        d = as_index(mod.mode_argsort_())
        p.prove_all("energies, decreasing, by default", (n,), lambda k:
                    zint(d(k)) == zint(g(k)))


def gathered(p, name, got, n, row, order):
  """got is a list with got[k] == row(order[k])"""
  p.prove(name + ": length", N.zi(seq.vlen(got)) == N.zi(n))
  g = seq.getter(got)
  p.prove_all(name, (n,), lambda k: eq(g(k), SReal(row(zint(order(k))))))


for _mx in ("none", "given"):
  for _def in (True, False):

    @vc("C13", f"exported parameters, limit {_mx}, "
        f"{'default' if _def else 'given'} order", [f"{S}.sdt_params_"],
        replay="sdt")
    def sdt(p, w, _mx=_mx, _def=_def):
      lim = None
      if _mx == "given":
        lim = integer(p, "lim", lo=0)
      m, n, P, mod = model(p, w, 3, lim)
      if lim is None:
        p.input("lim", lambda mo: None)
      kw = {} if _def else {"order": "freqs", "reverse": False}
      p.input("kw", lambda mo: kw)
      old = frozen_copy(P)
      g = as_index(mod.mode_argsort_(**kw))
      r = mod.sdt_params_(**kw)
      p.prove("number of modes", eq(r["nModes"], n))
      p.prove("active modes", eq(r["activeModes"], n if lim is None else
                                 SInt(If(lim.z < n.z, lim.z, n.z))))
      row = lambda j: lambda i: zreal(old.at(j, i))
      gathered(p, "frequencies in that order", r["freqs"], n, row(0), g)
      gathered(p, "decays in that order", r["decays"], n, row(1), g)
      gains = r["gains"]
      p.prove("one list of gains per pickup", And(
          N.zi(seq.vlen(gains)) == 1, eq(r["nPickups"], 1)))
      gathered(p, "gains in that order", gains[0], n, row(2), g)
      ws = r["weights"]
      p.prove("one weight per mode", N.zi(seq.vlen(ws)) == n.z)
      gw = seq.getter(ws)
      p.prove_all("equal weights summing to one", (n,), lambda k:
                  zreal(gw(k)) * z3.ToReal(n.z) == 1)


for _rows in (3, 4):
  for _case in ("all", "argument", "limit", "both", "phases"):
    if _case == "phases" and _rows == 3:
      pass

    @vc("C13", f"resynthesis, {'beat-aware' if _rows == 4 else 'plain'} "
        f"model, {_case}", [f"{S}.predict"] + (
            ["sample.beatsdrop.sample:SAMPLEBeatsDROP.predict"]
            if _rows == 4 else []), replay="predict")
    def predict(p, w, _rows=_rows, _case=_case):
      lim = cnt = None
      if _case in ("limit", "both"):
        lim = integer(p, "lim", lo=0)
      m, n, P, mod = model(p, w, _rows, lim)
      if _case in ("argument", "both"):
        cnt = integer(p, "cnt", lo=0)
      if lim is None:
        p.input("lim", lambda mo: None)
      if cnt is None:
        p.input("cnt", lambda mo: None)
      out, t = object(), object()
      syn = Rec(out)
      w.patch(M, "additive_synth", syn)
      kw = {} if cnt is None else {"n_modes": cnt}
      ph = None
      if _case == "phases":
        ph = array(p, "ph", (n,))
        kw["phases"] = ph
      old = frozen_copy(P)
      g = as_index(mod.mode_argsort_("amps"))
      r = mod.predict(t, order="amps", analytic=True, **kw)
      p.prove("result of the synthesiser", zbool(r is out))
      if len(syn.calls) != 1:
        return p.fail("one synthesis", len(syn.calls))
      a, k = syn.calls[0]
      k = dict(zip(("x", "freqs", "decays", "amps", "phases", "analytic"), a),
               **k)
      p.prove("time axis and options are passed on", zbool(
          k["x"] is t and k.get("analytic") is True))
      c = cnt if cnt is not None else lim
      c = n if c is None else SInt(If(c.z < n.z, c.z, n.z))
      for j, nm in enumerate(("freqs", "decays", "amps")):
        prove_array(p, f"{nm} of the first modes in order", k[nm], (c,),
                    lambda i, j=j: old.at(j, zint(g(i))))
      if ph is not None:
        prove_array(p, "given phases follow their modes", k["phases"], (c,),
                    lambda i: ph.at(zint(g(i))))
      elif _rows == 4:
        prove_array(p, "learned phases follow their modes", k["phases"], (c,),
                    lambda i: old.at(3, zint(g(i))))
      else:
        p.prove("no phases", zbool(k.get("phases") is None))
