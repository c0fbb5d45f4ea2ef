"""Channel weights and theoretical noise of the 1D and 3D tools."""
from .lib import total
from . import P28

PRELOAD = P28.PRELOAD + ["RMtools_3D.do_RMsynth_3D"]
BOUNDS = ("1D: as P28 (2 or 3 channels, symbolic errors and Stokes I, every layout, flagged Q, U or errors, both weightings); "
          "3D: 2 or 3 channels and 2 pixels, symbolic noise per channel, any flagged, both weightings, with and without noise")
ASSUME = ["the sign of the noise is not examined for supplied models (its square is)", "errors positive; with uniform weighting all errors finite"]


def configs(tier):
    out = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for wt in ("variance", "uniform"):
            for lay in ("fit", "five", "model"):
                if n == 4:
                    continue
                for flags in ("none", "q", "u", "err"):
                    if flags == "err" and wt == "uniform" or tier == "quick" and n == 3 and lay != "five":
                        continue
                    out.append(dict(name="1D-%s-%s-%s-%d" % (lay, wt, flags, n), args=dict(dim=1, lay=lay, wt=wt, flags=flags, n=n), witnesses=4, feas_ms=2000))
            for given in (True, False):
                out.append(dict(name="3D-%s-%s-%d" % (wt, "noise" if given else "default", n), args=dict(dim=3, lay="", wt=wt, flags=given, n=n), witnesses=4, feas_ms=2000))
    return out


def harness(W, dim, lay, wt, flags, n):
    np = W.np
    if dim == 1:
        r = P28.run1d(W, lay, wt, flags, n)
        w = r.a["weightArr"]
        for i in range(n):
            W.close("weight %d" % i, w[i], r.wt[i], rtol=1e-9)
        sig = [(r.dq[i] + r.du[i]) / 2 for i in r.used]
        ws = [r.wt[i] for i in r.used]
        # squared, in the units of the spectrum
        e = total([(x * s) ** 2 for x, s in zip(ws, sig)]) / total(ws) ** 2 * r.I0 ** 2
        if lay != "model":
            W.check("noise positive", r.m["dFDFth"] > 0)
        W.close("theoretical noise", r.m["dFDFth"] ** 2, e, rtol=1e-6)
        ok = [(r.dQ[i] + r.dU[i]) / 2 for i in range(n) if not bool(W.isnan(r.dQ[i] + r.dU[i]))]
        for i in range(1, len(ok)):
            for k in range(i, 0, -1):
                if bool(ok[k] < ok[k - 1]):
                    ok[k], ok[k - 1] = ok[k - 1], ok[k]
        W.close("median channel noise", r.m["dQU"], (ok[(len(ok) - 1) // 2] + ok[len(ok) // 2]) / 2)
        return
    M = W.mod("RMtools_3D.do_RMsynth_3D")
    f = W.pack([W.num(1e9 + 2.5e8 * i) for i in range(n)])
    got = []
    for name, ret in (("do_rmsynth_planes", lambda a: (np.zeros((len(a["phiArr_radm2"]), 1, 2)) * 1j, W.num(0.0625))),
                      ("get_rmsf_planes", lambda a: (np.zeros((3, 1, 2)) * 1j, a["phiArr_radm2"], np.ones((1, 2)), np.ones((1, 2)), W.num(0.0625)))):
        got.append(P28.record(W, M, name, ret))
    rms = [W.real("rms%d" % i, lo=0.05, hi=2, nan=True) for i in range(n)] if flags else None
    M.run_rmsynth(np.ones((n, 1, 2)), np.ones((n, 1, 2)), f, rmsArr=None if rms is None else W.pack(rms), weightType=wt, phiMax_radm2=4.0, dPhi_radm2=4.0,
                  nBits=64, verbose=False)
    for tag, g in zip(("synthesis", "RMSF"), got):
        W.check(tag + " called once", len(g) == 1)
        w = g[0]["weightArr"]
        for i in range(n):
            if rms is None or wt == "uniform":
                W.close("%s weight %d" % (tag, i), w[i], 1.0)
            elif bool(W.isnan(rms[i])):
                W.check("%s flagged channel %d" % (tag, i), W.or_(W.isnan(w[i]), W.eq(w[i], W.num(0.0))))
            else:
                W.close("%s weight %d" % (tag, i), w[i] * rms[i] ** 2, 1.0, rtol=1e-6)
