"""Reference wavelength: weighted mean over usable channels, or the one supplied."""
from .lib import quiet, total

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("channels <= 3 (4 thorough), 1 Faraday depth, pixels <= 2, any subset of voxels, masks and weights flagged "
          "(Q, U or both NaN), all values symbolic reals")
ASSUME = []


def configs(tier):
    out = []
    for fn in ("synth", "rmsf"):
        for n, sky in [(2, ()), (3, ()), (2, (2,)), (2, (1, 2)), (2, (2, 1))] + ([(4, ()), (3, (1, 2))] if tier != "quick" else []):
            for w in ("given", "none"):
                for l0 in ("given", "none"):
                    if l0 == "given" and (n != 2 or len(sky) == 1):
                        continue
                    if n == 4 and w == "given":
                        continue
                    out.append(dict(name="%s-n%d-%s-w_%s-l0_%s" % (fn, n, "x".join(map(str, sky)) or "1D", w, l0),
                                    args=dict(fn=fn, n=n, sky=sky, w=w, l0=l0), weight=n * 3 + len(sky)))
    return out


def harness(W, fn, n, sky, w, l0):
    R = W.mod("RMutils.util_RM")
    npx = 1
    for s in sky:
        npx *= s
    lam = W.array("lam2", n, pos=True, lo=0.001, hi=3)
    phi = W.array("phi", 2, lo=-100, hi=100)
    wt = None
    if w == "given":
        wt = []
        for i in range(n):
            k = W.pick("wkind_%d" % i, ("positive", "zero", "nan"))
            wt.append(W.real("w_%d" % i, lo=0.05, hi=5) if k == "positive" else W.num(0.0) if k == "zero" else W.nan)
        wt = W.pack(wt)
    lam0 = W.real("lam0sq", pos=True, hi=3) if l0 == "given" else None
    if fn == "synth":
        # one flag per voxel; which of Q, U (or both) carries it is symbolic too
        one = n * npx > 3
        Q = W.array("Q", (n,) + sky, lo=-50, hi=50, nan=True)
        U = W.array("U", (n,) + sky, lo=-50, hi=50, nan=not one)
        Q2, U2 = Q.reshape(n, npx), U.reshape(n, npx)
        flag = [[bool(W.isnan(Q2[i, p])) or bool(W.isnan(U2[i, p])) for p in range(npx)] for i in range(n)]
        res = R.do_rmsynth_planes(Q, U, lam, phi, weightArr=wt, lam0Sq_m2=lam0, nBits=64, log=quiet)
    else:
        msk = W.pack([[W.bool("m_%d_%d" % (i, p)) for p in range(npx)] for i in range(n)])
        flag = [[bool(msk[i, p]) for p in range(npx)] for i in range(n)]
        res = R.get_rmsf_planes(lam, phi, weightArr=wt, mskArr=msk.reshape((n,) + sky), lam0Sq_m2=lam0, nBits=64, log=quiet)
    if lam0 is not None:
        W.close("the supplied reference is used unchanged", res.lam0Sq_m2, lam0, rtol=1e-12)
        return
    ws = []
    for i in range(n):
        x = wt[i] if wt is not None else W.num(1.0)
        if bool(W.isnan(x)) or all(flag[i]):
            x = W.num(0.0)
        ws.append(x)
    den = total(ws)
    if bool(W.eq(den, W.num(0.0))):
        if fn == "synth":
            W.check("no usable channel gives a finite zero reference", W.eq(res.lam0Sq_m2, W.num(0.0)))
        else:
            W.check("no usable channel: nothing specified", True)
        return
    if not W.symbolic and float(den) < 1e-6:
        W.skip()
    W.close("lam0Sq = sum(w lam2)/sum(w)", res.lam0Sq_m2, total([a * b for a, b in zip(ws, lam)]) / den, rtol=1e-6)
