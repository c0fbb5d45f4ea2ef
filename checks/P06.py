"""RM-CLEAN conserves the spectrum: dirty = residual + components * RMSF; restored = residual + components * beam."""
from .lib import clean_setup, quiet, restored, total

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("3 Faraday depths (5 thorough) on a symmetric grid of symbolic spacing, up to 2 (3 thorough) CLEAN iterations in the two "
          "passes together, 1D and 1-pixel cube layouts, symbolic dirty spectrum, RMSF, FWHM, gain, thresholds")
ASSUME = ["the RMSF peaks at zero depth with value 1 and is smaller elsewhere, depth grid symmetric about zero (P26)"]


def configs(tier):
    out = []
    th = tier != "quick"
    for n in (3, 5) if th else (3,):
        for it in (1, 2, 3) if th else (1, 2):
            if n == 5 and it == 3:
                continue
            for window in ("nan", "given"):
                for lay in ("1D", "3D") if it == 1 else ("1D",):
                    out.append(dict(name="phi%d-iter%d-window_%s-%s" % (n, it, window, lay), args=dict(n=n, it=it, window=window, lay=lay),
                                    weight=it * n, feas_ms=100, timeout_ms=8000, witnesses=4 if it < 2 else 3))
    return out


def harness(W, n, it, window, lay):
    R = W.mod("RMutils.util_RM")
    s = clean_setup(W, n, w_lo=0.2, w_hi=1.8, rmsf_real=it > 1)
    gain = W.real("gain", lo=0.05, hi=1.5)
    cut = W.real("cutoff", pos=True, lo=0.01, hi=5)
    win = W.nan if window == "nan" else W.real("window", pos=True, lo=0.005, hi=5)
    D, Rm = W.pack(s["D"]), W.pack(s["R"])
    fw = s["fwhm"]
    if lay == "3D":
        D, Rm = D.reshape(n, 1, 1), Rm.reshape(s["n2"], 1, 1)
        fw = W.pack([[fw]])
    res = R.do_rmclean_hogbom(D.copy(), s["phi"], Rm, s["phi2"], fw, cut, maxIter=it, gain=gain, nBits=64, log=quiet, window=win)
    cc, rs, cl = res.ccArr, res.residFDF, res.cleanFDF
    W.check("axes", tuple(cc.shape) == tuple(rs.shape) == tuple(cl.shape) == (n,))
    for j in range(n):
        m = rs[j] + total([cc[k] * s["R"][s["c2"] + j - k] for k in range(n)])
        W.close("dirty = residual + model * RMSF (%d)" % j, s["D"][j], m, rtol=1e-6, atol=1e-8)
    W.closes("restored = residual + components * beam", [cl[j] for j in range(n)], restored(W, s, cc, rs, range(n)), rtol=1e-6, atol=1e-8)
