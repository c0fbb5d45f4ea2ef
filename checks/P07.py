"""RM-CLEAN first-pass loop: peak choice, loop gain, stopping rule, iteration count, untouched pixels."""
from .lib import clean_reference, clean_setup, quiet

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("3 Faraday depths (5 for one iteration), iteration limit 0..2 (3 thorough), symbolic dirty spectrum (possibly all NaN), RMSF, "
          "gain and threshold; threshold may exceed every amplitude; iteration limit also with a windowed pass")
ASSUME = ["the RMSF peaks at zero depth with value 1 and is smaller elsewhere, depth grid symmetric about zero (P26)"]


def configs(tier):
    out = []
    for n, its in ((3, (0, 1, 2)), (5, (1,))) if tier == "quick" else ((3, (0, 1, 2, 3)), (5, (1, 2)), (7, (1,))):
        for it in its:
            for lay in ("1D", "2D", "3D"):
                if it + n > 4 and lay != "1D":
                    continue
                out.append(dict(name="phi%d-iter%d-%s" % (n, it, lay), args=dict(n=n, it=it, lay=lay), weight=it * n, feas_ms=100, timeout_ms=8000, witnesses=6))
    for n, it in ((3, 0), (3, 1), (3, 2)) if tier == "quick" else ((3, 0), (3, 1), (3, 2), (5, 1)):
        out.append(dict(name="phi%d-iter%d-windowed" % (n, it), args=dict(n=n, it=it, lay="win"), feas_ms=100, timeout_ms=8000, witnesses=4))
    out.append(dict(name="blank", args=dict(n=3, it=2, lay="blank")))
    return out


def harness(W, n, it, lay):
    R = W.mod("RMutils.util_RM")
    s = clean_setup(W, n, w_lo=0.2, w_hi=1.8, rmsf_real=it > 1)
    gain = W.real("gain", lo=0.05, hi=1.0)
    cut = W.real("cutoff", pos=True, lo=0.01, hi=6)
    D, Rm, fw = W.pack(s["D"]), W.pack(s["R"]), s["fwhm"]
    if lay == "blank":
        D = W.pack([W.cplx(W.nan, W.nan) for _ in range(n)])
    if lay in ("3D", "blank"):
        D, Rm = D.reshape(n, 1, 1), Rm.reshape(s["n2"], 1, 1)
        fw = W.pack([[fw]])
    elif lay == "2D":
        D, Rm = D.reshape(n, 1), Rm.reshape(s["n2"], 1)
        fw = W.pack([fw])
    if lay == "win":
        # a second, windowed pass shares the iteration limit
        win = W.real("window", lo=0.005, hi=5)
        res = R.do_rmclean_hogbom(D.copy(), s["phi"], Rm, s["phi2"], fw, cut, maxIter=it, gain=gain, nBits=64, log=quiet, window=win)
        cnt = W.np.reshape(W.np.asarray(res.iterCountArr), (1,))[0]
        W.check("at most the iteration limit", W.and_(cnt >= W.num(0), cnt <= W.num(it)))
        return
    if lay != "blank":
        r, cc, its, peaks = clean_reference(W, s, cut, gain, it)
        if not W.symbolic and it > 1:
            pass
    res = R.do_rmclean_hogbom(D.copy(), s["phi"], Rm, s["phi2"], fw, cut, maxIter=it, gain=gain, nBits=64, log=quiet, window=W.nan)
    cnt = W.np.reshape(W.np.asarray(res.iterCountArr), (1,))[0]
    if lay == "blank":
        W.check("blank pixel: no iterations", W.eq(cnt, W.num(0)))
        for j in range(n):
            W.close("blank pixel: no components (%d)" % j, res.ccArr[j], W.num(0.0))
            W.check("blank pixel stays blank (%d)" % j, W.and_(W.isnan(res.residFDF[j]), W.isnan(res.cleanFDF[j])))
        return
    W.check("iteration count", W.eq(cnt, W.num(its)))
    for j in range(n):
        W.close("components (%d)" % j, res.ccArr[j], cc[j], rtol=1e-7, atol=1e-9)
        W.close("residual (%d)" % j, res.residFDF[j], r[j], rtol=1e-7, atol=1e-9)
        if its == 0:
            W.close("restored of an untouched pixel is the dirty spectrum (%d)" % j, res.cleanFDF[j], s["D"][j], rtol=1e-9)
