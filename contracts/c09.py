"""C09: preparation of a track for regression"""
from contracts.common import *  # noqa: F403

M = "sample.sample"
FN = [f"{M}:SAMPLE._preprocess_track"]


for _padded in (False, True):
  for _rev in (None, False, True):

      @vc("C09", f"{'padded' if _padded else 'plain'} analysis, reverse="
          f"{_rev}", FN, replay="prepare")
      def prepare(p, w, _padded=_padded, _rev=_rev):
        m = w.load(M)
        sm = w.load("sample.sms.sm")
        mm = w.load("sample.sms.mm")
        n = length(p, "n", 2)
        W, nx = length(p, "W", 1), length(p, "nx", 0)
        H, fs, s = integer(p, "H", 1), integer(p, "fs", 1), integer(p, "s", 0)
        p.input("padded", lambda mo: _padded)
        p.input("reverse", lambda mo: _rev)
        mag = array(p, "mag", (n,), nan=True)
        fr, ph = array(p, "freq", (n,)), array(p, "phase", (n,))
        win, x = array(p, "w", (W,)), array(p, "x", (nx,))
        if _rev is None:
          sin = sm.SinusoidalModel(w=win, padded=_padded, tracker__h=H,
                                   tracker__fs=fs)
        else:
          sin = mm.ModalModel(w=win, padded=_padded, tracker__h=H,
                              tracker__fs=fs, tracker__reverse=_rev)
        mod = m.SAMPLE(sinusoidal=sin)
        tr = {"start_frame": s, "freq": fr, "mag": mag, "phase": ph}
        arrs = {"freq": fr, "mag": mag, "phase": ph}
        old = {k: frozen_copy(v) for k, v in arrs.items()}
        ox = frozen_copy(x)
        tag = object()
        r = mod._preprocess_track(tag, x, tr)
        if len(r) != 3:
          return p.fail("index, time axis, track", "")
        i, t, q = r
        p.prove("index passed through", zbool(i is tag))
        ok = lambda k: Not(V.nan_of(old["mag"].at(k)))
        c, K, _ = N.enum_mask(N.SArr((n,), lambda k: SBool(ok(k)), "b"))

        def time(j):
          v = z3.ToReal(zint(K(j)) + s.z) * z3.ToReal(H.z) / z3.ToReal(fs.z)
          if not _padded:
            v = v + z3.ToReal(W.z) / 2 / z3.ToReal(fs.z)
          if _rev:
            v = z3.ToReal(nx.z) / z3.ToReal(fs.z) - v
          return SReal(v)

        prove_array(p, "time of each valid value", t, (c,), time)
        p.prove("same entries", zbool(set(q) == set(tr)))
        prove_array(p, "frequencies aligned", q["freq"], (c,),
                    lambda j: old["freq"].at(K(j)))
        prove_array(p, "phases aligned", q["phase"], (c,),
                    lambda j: old["phase"].at(K(j)))
        p.prove_all("no gap left", (c,), lambda j: V.nan_of(
            q["mag"].at(j)) == z3.BoolVal(False) if V.nan_of(
                q["mag"].at(j)) is not None else z3.BoolVal(True))
        prove_array(p, "magnitudes raised by 20 log10 2", q["mag"], (c,),
                    lambda j: SReal(old["mag"].at(K(j)).z +
                                    20 * ax.LOG10(z3.RealVal(2))))
        p.prove("start frame unchanged", And(eq(q["start_frame"], s),
                                             eq(tr["start_frame"], s)))
        p.prove("the stored track still holds its own arrays", zbool(
            all(tr[k] is v for k, v in arrs.items()) and len(tr) == 4))
        for k, v in arrs.items():
          prove_same(p, f"stored {k} unmodified", v, old[k])
        prove_same(p, "signal unmodified", x, ox)
