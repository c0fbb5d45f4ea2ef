"""A flagged voxel never influences the dispersion function."""
from .lib import quiet, synth, total, wmean

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("channels <= 3, Faraday depths 2, pixels <= 2 (2D and 3D layouts), every subset of Q and U samples NaN, "
          "all values, weights, lambda^2, lambda_0^2, phi symbolic reals")
ASSUME = []


def configs(tier):
    out = []
    shapes = [(1, ()), (2, ()), (3, ()), (2, (2,)), (2, (1, 2)), (1, (2, 1))]
    if tier != "quick":
        shapes += [(3, (2,)), (2, (1, 3))]
    for n, sky in shapes:
        for w in ("given", "none"):
            for nb in (32, 64):
                if nb == 32 and n * len(sky) > 2 or n == 3 and sky and w == "none":
                    continue
                out.append(dict(name="n%d-%s-w_%s-%dbit" % (n, "x".join(map(str, sky)) or "1D", w, nb),
                                args=dict(n=n, sky=sky, w=w, nb=nb), weight=n * 2 + 4 * len(sky), max_paths=6000))
    return out


def harness(W, n, sky, w, nb):
    R = W.mod("RMutils.util_RM")
    npx = 1
    for s in sky:
        npx *= s
    dt = "float%d" % nb
    Q = W.array("Q", (n,) + sky, lo=-50, hi=50, nan=True).astype(dt)
    U = W.array("U", (n,) + sky, lo=-50, hi=50, nan=True).astype(dt)
    lam = W.array("lam2", n, pos=True, lo=0.001, hi=3)
    phi = W.array("phi", 2, lo=-100, hi=100)
    wt = W.array("w", n, lo=0.05, hi=5) if w == "given" else None
    lam0 = W.real("lam0sq", pos=True, hi=3)
    Q2, U2 = Q.reshape(n, npx), U.reshape(n, npx)
    flag = [[bool(W.or_(W.isnan(Q2[i, p]), W.isnan(U2[i, p]))) for p in range(npx)] for i in range(n)]
    res = R.do_rmsynth_planes(Q, U, lam, phi, weightArr=wt, lam0Sq_m2=lam0, nBits=nb, log=quiet)
    F = W.np.reshape(res.FDFcube, (2, npx))
    for p in range(npx):
        good = [i for i in range(n) if not flag[i][p]]
        if not good:
            for j in range(2):
                W.check("a pixel without usable voxels is NaN at every depth (%d,%d)" % (j, p), W.isnan(F[j, p]))
            continue
        ws = [wt[i] if wt is not None else W.num(1.0) for i in good]
        P = [W.cplx(Q2[i, p], U2[i, p]) for i in good]
        spec = [synth(W, ws, P, [lam[i] for i in good], lam0, phi[j]) for j in range(2)]
        zero = W.and_(*[W.eq(s, W.num(0.0)) for s in spec])
        scale = total([abs(x) for x in P])
        for j in range(2):
            if W.isnan(F[j, p]):
                W.check("blank only where the spectrum is zero (%d,%d)" % (j, p), zero)
            else:
                W.close("F[%d,%d] uses the unflagged voxels only" % (j, p), F[j, p], spec[j], rtol=2e-3, atol=1e-5,
                        scale=None if W.symbolic else scale)
