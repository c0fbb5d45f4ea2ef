"""The RMSF is the normalised transform of the sampling weights (real get_rmsf_planes)."""
from .lib import quiet, rmsf, total, wmean

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("channels <= 3, Faraday depths 2 (padded to 4) or 3, pixels <= 2 (3 thorough) in 1D/2D/3D masks, every mask, "
          "all weights, lambda^2, lambda_0^2 and depths symbolic reals")
ASSUME = ["at least one channel carries weight somewhere in the image"]


def configs(tier):
    out = []
    shapes = [(3, ()), (2, (2,)), (2, (1, 2)), (2, (2, 1)), (3, (2,)), (3, None)]
    if tier != "quick":
        shapes += [(2, (1, 3)), (3, (1, 2))]
    for n, sky in shapes:
        for w in ("given", "none"):
            for l0 in ("given", "none"):
                for dbl in (True, False):
                    for nb in (32, 64):
                        if nb == 32 and (l0 == "none" or not dbl):
                            continue
                        if not dbl and n == 3 and sky:
                            continue
                        out.append(dict(name="n%d-%s-w_%s-l0_%s-%s-%dbit" % (n, "nomask" if sky is None else "x".join(map(str, sky)) or "1D", w, l0,
                                                                         "pad" if dbl else "nopad", nb),
                                        args=dict(n=n, sky=sky, w=w, l0=l0, dbl=dbl, nb=nb), weight=n * (len(sky or ()) + 1), witnesses=4))
    return out


def harness(W, n, sky, w, l0, dbl, nb):
    R = W.mod("RMutils.util_RM")
    npx = 1
    for s in sky or ():
        npx *= s
    lam = W.array("lam2", n, pos=True, lo=0.001, hi=3)
    W.assume(W.or_(*[W.not_(W.eq(lam[0], lam[i])) for i in range(1, n)]))
    p0 = W.real("phi0", lo=-100, hi=100)
    d = W.real("dphi", lo=0.5, hi=40)
    phi = W.pack([p0, p0 + d])
    wt = W.array("w", n, lo=0.05, hi=5) if w == "given" else None
    lam0 = W.real("lam0sq", pos=True, hi=3) if l0 == "given" else None
    if sky is None:
        msk = None
        flag = [[False]] * n
    else:
        msk = W.pack([[W.bool("m_%d_%d" % (i, p)) for p in range(npx)] for i in range(n)])
        flag = [[bool(msk[i, p]) for p in range(npx)] for i in range(n)]
        msk = msk.reshape((n,) + sky)
        if all(all(f) for f in flag):
            W.skip()
    res = R.get_rmsf_planes(lam, phi, weightArr=wt, mskArr=msk, lam0Sq_m2=lam0, double=dbl, nBits=nb, log=quiet)
    ws = [wt[i] if wt is not None else W.num(1.0) for i in range(n)]
    if lam0 is None:
        ok = [i for i in range(n) if not all(flag[i])]
        lam0 = wmean(W, [ws[i] for i in ok], [lam[i] for i in ok])
    grid = res.phi2Arr
    want = (len(grid),) + (tuple(sky) if sky is not None and len(sky) == 2 else tuple(s for s in (sky or ()) if s != 1))
    W.check("axes [phi2, y, x]", tuple(res.RMSFcube.shape) == want)
    C = W.np.reshape(res.RMSFcube, (len(grid), npx))
    for p in range(npx):
        ok = [i for i in range(n) if not flag[i][p]]
        for j in range(len(grid)):
            if not ok:
                W.close("fully masked pixel has a zero RMSF (%d,%d)" % (j, p), C[j, p], W.num(0.0))
            else:
                W.close("RMSF[%d,%d]" % (j, p), C[j, p], rmsf(W, [ws[i] for i in ok], [lam[i] for i in ok], lam0, grid[j]),
                        rtol=5e-3, atol=5e-4, scale=1.0)
