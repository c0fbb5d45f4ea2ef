"""RMSF depth axis (padding) and width bookkeeping."""
from .lib import quiet

PRELOAD = ["RMutils.util_RM", "RMutils.mpfit"]
BOUNDS = ("Faraday depths 2..5 (..8 thorough) with symbolic start and spacing of either sign, channels 2-3 with symbolic "
          "lambda^2, pixels <= 2 with every mask; the Gaussian fit's outcome (failure, status, width) is an arbitrary symbolic value")
ASSUME = ["the nonlinear least-squares routine (mpfit) itself is replaced by an arbitrary outcome"]


def configs(tier):
    out = []
    for nphi in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8):
        for dbl in (True, False):
            out.append(dict(name="grid-phi%d-%s" % (nphi, "pad" if dbl else "nopad"), args=dict(mode="grid", nphi=nphi, dbl=dbl)))
    for sky in ((), (2,), (1, 2), (2, 1)):
        for fit in ("no", "abs", "real"):
            out.append(dict(name="width-%s-fit_%s" % ("x".join(map(str, sky)) or "1D", fit), args=dict(mode="width", sky=sky, fit=fit), weight=3))
    out.append(dict(name="gauss-model", args=dict(mode="gauss"), weight=2))
    return out


class Fit:
    def __init__(self, status, params):
        self.status, self.params = status, params


def harness(W, mode, nphi=2, dbl=True, sky=(), fit="no"):
    R = W.mod("RMutils.util_RM")
    if mode == "grid":
        lam = W.array("lam2", 2, lo=0.001, hi=3)
        W.assume(W.not_(W.eq(lam[0], lam[1])))
        p0 = W.real("phi0", lo=-100, hi=100)
        d = W.real("dphi", lo=-40, hi=40)
        W.assume(W.not_(W.eq(d, W.num(0.0))))
        phi = W.pack([p0 + k * d for k in range(nphi)])
        res = R.get_rmsf_planes(lam, phi, double=dbl, nBits=64, log=quiet)
        ext = (nphi + 1) // 2 if dbl else 0
        W.check("length is n + 2 ceil(n/2)", len(res.phi2Arr) == nphi + 2 * ext)
        W.check("RMSF lies on that axis", res.RMSFcube.shape == (nphi + 2 * ext,))
        for k in range(nphi + 2 * ext):
            W.close("phi2[%d]" % k, res.phi2Arr[k], p0 + (k - ext) * d, rtol=1e-7, atol=1e-7)
        return
    if mode == "gauss":
        # the function handed to the fitter is a Gaussian whose third parameter is the FWHM
        x0, d = W.real("x0", lo=-50, hi=50), W.real("d", lo=0.5, hi=20)
        x = W.pack([x0 + k * d for k in range(9)])
        y = W.pack([W.num(v) for v in (0.05, 0.1, 0.45, 0.8, 1.0, 0.8, 0.45, 0.1, 0.05)])
        got = {}

        def mpfit(fcn, parinfo=None, quiet=False, **k):
            got["fcn"], got["par"] = fcn, parinfo
            return Fit(1, [1, 2, 3])
        W.patch("RMutils.util_RM", "mpfit", mpfit)
        r = R.fit_rmsf(x, y)
        W.check("fit performed", r is not None)
        a, b, w = W.real("a", lo=0.1, hi=3), W.real("b", lo=-60, hi=60), W.real("w", lo=0.5, hi=60)
        st, e = got["fcn"]([a, b, w])
        W.check("status ok", st == 0)
        W.check("main lobe samples", len(e) == 5)
        for k, i in enumerate(range(2, 7)):
            W.close("gauss(%d)" % i, e[k], a * W.exp(-(x[i] - b) ** 2 * (4 * W.log(W.num(2.0))) / w ** 2) - y[i], rtol=1e-6, atol=1e-9)
        return
    npx = 1
    for s in sky:
        npx *= s
    n = 2
    lam = W.array("lam2", n, lo=0.001, hi=3)
    W.assume(W.not_(W.eq(lam[0], lam[1])))
    phi = W.pack([W.num(-2.0), W.num(0.0), W.num(2.0)])
    msk = W.pack([[W.bool("m_%d_%d" % (i, p)) for p in range(npx)] for i in range(n)])
    flag = [[bool(msk[i, p]) for p in range(npx)] for i in range(n)]
    if all(all(f) for f in flag):
        W.skip()
    calls = []

    def fit_rmsf(x, y, *a, **k):
        i = len(calls)
        none = bool(W.bool("fitnone_%d" % i))
        st = W.int("fitstat_%d" % i, -2, 3)
        wd = W.real("fitwidth_%d" % i, pos=True, lo=0.5, hi=500)
        calls.append((x, y, none, st, wd))
        return None if none else Fit(st, [W.num(1.0), W.num(0.0), wd])
    W.patch("RMutils.util_RM", "fit_rmsf", fit_rmsf)
    res = R.get_rmsf_planes(lam, phi, mskArr=msk.reshape((n,) + sky), fitRMSF=fit != "no", fitRMSFreal=fit == "real", nBits=64, log=quiet)
    hi = W.ite(lam[0] > lam[1], lam[0], lam[1])
    lo = W.ite(lam[0] > lam[1], lam[1], lam[0])
    ana = W.num(3.8) / (hi - lo)
    fw = W.np.reshape(W.np.asarray(res.fwhmRMSFArr), (npx,))
    stt = W.np.reshape(W.np.asarray(res.statArr), (npx,))
    C = W.np.reshape(res.RMSFcube, (len(res.phi2Arr), npx))
    W.check("shape of the width map", tuple(W.np.asarray(res.fwhmRMSFArr).shape) == (tuple(sky) if len(sky) == 2 else tuple(s for s in sky if s != 1)))
    if fit == "no":
        W.check("no fit made", not calls)
    else:
        W.check("fits: one per pixel or one for all", len(calls) in (1, npx))
    for p in range(npx):
        ok = False
        if fit != "no":
            x, y, none, st, wd = calls[p if len(calls) > 1 else 0]
            W.close("fit uses the padded depths (%d)" % p, x, res.phi2Arr, rtol=1e-9)
            for j in range(len(res.phi2Arr)):
                W.close("fit uses the pixel's RMSF (%d,%d)" % (p, j), y[j], C[j, p].real if fit == "real" else abs(C[j, p]), rtol=1e-6, atol=1e-6)
            ok = not none and bool(st >= 1)
        if ok:
            W.close("fitted width (%d)" % p, fw[p], wd)
            W.close("fit status (%d)" % p, stt[p], st)
        else:
            W.close("analytic width (%d)" % p, fw[p], ana, rtol=1e-5)
            W.check("status -1 (%d)" % p, W.eq(stt[p], W.num(-1)))
