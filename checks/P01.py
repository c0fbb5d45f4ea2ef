"""RM synthesis equals the defining weighted Fourier sum (real do_rmsynth_planes)."""
from .lib import quiet, synth, total, wmean

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("channels <= 3 (4 thorough), Faraday depths <= 2 (3 thorough), pixels <= 2 (4 thorough), 1/2/3 axes, "
          "all values of Q, U, weights, lambda^2, lambda_0^2, phi symbolic reals")
ASSUME = ["weights are positive in the weighted configurations (zero and NaN weights: P02, P03)"]


def configs(tier):
    out = []
    shapes = [(3, 2, 1, ()), (2, 2, 2, (2,)), (2, 2, 3, (1, 2)), (2, 1, 3, (2, 1)), (1, 2, 1, ()), (2, 1, 3, (1, 1))]
    if tier != "quick":
        shapes += [(4, 3, 1, ()), (3, 2, 2, (2,)), (2, 2, 3, (2, 2)), (3, 1, 3, (1, 3))]
    for n, nphi, nd, sky in shapes:
        for w in ("given", "none"):
            for l0 in ("given", "none"):
                for nb in (32, 64):
                    if nb == 32 and (w == "none" or nd == 2):
                        continue
                    out.append(dict(name="n%d-phi%d-%dD%s-w_%s-l0_%s-%dbit" % (n, nphi, nd, "x".join(map(str, sky)), w, l0, nb),
                                    args=dict(n=n, nphi=nphi, sky=sky, w=w, l0=l0, nb=nb)))
    return out


def harness(W, n, nphi, sky, w, l0, nb):
    R = W.mod("RMutils.util_RM")
    npx = 1
    for s in sky:
        npx *= s
    dt = "float%d" % nb
    Q = W.array("Q", (n,) + sky).astype(dt)
    U = W.array("U", (n,) + sky).astype(dt)
    lam = W.array("lam2", n, pos=True, lo=0.001, hi=3)
    phi = W.array("phi", nphi, lo=-200, hi=200)
    wt = W.array("w", n, lo=0.05, hi=5) if w == "given" else None
    lam0 = W.real("lam0sq", pos=True, hi=3) if l0 == "given" else None
    res = R.do_rmsynth_planes(Q, U, lam, phi, weightArr=None if wt is None else wt.copy(), lam0Sq_m2=lam0, nBits=nb, log=quiet)
    ws = [wt[i] if wt is not None else W.num(1.0) for i in range(n)]
    L0 = lam0 if lam0 is not None else wmean(W, ws, lam)
    F = res.FDFcube
    shape = (nphi,) + tuple(sky) if len(sky) == 2 else tuple(s for s in (nphi,) + tuple(sky) if s != 1)
    W.check("axes [phi, y, x]", tuple(getattr(F, "shape", ())) == shape)
    F = W.np.reshape(F, (nphi, npx))
    Q2, U2 = Q.reshape(n, npx), U.reshape(n, npx)
    for p in range(npx):
        P = [W.cplx(Q2[i, p], U2[i, p]) for i in range(n)]
        spec = [synth(W, ws, P, lam, L0, phi[j]) for j in range(nphi)]
        # a pixel that is exactly zero at every depth is reported as blank
        zero = W.and_(*[W.eq(s, W.num(0.0)) for s in spec])
        scale = total([abs(x) for x in P])
        for j in range(nphi):
            if W.isnan(F[j, p]):
                W.check("blank only where the spectrum is zero (%d,%d)" % (j, p), zero)
            else:
                W.close("F[%d,%d]" % (j, p), F[j, p], spec[j], rtol=2e-3, atol=1e-5, scale=None if W.symbolic else scale)
