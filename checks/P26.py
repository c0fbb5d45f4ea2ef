"""Faraday-depth sampling chosen by the 1D and 3D tools."""
from .lib import quiet

PRELOAD = ["RMtools_1D.do_RMsynth_1D", "RMtools_3D.do_RMsynth_3D"]
BOUNDS = ("2 or 3 channels with symbolic wavelengths in either order, symbolic spacing and maximum with up to 4 spacings to the maximum; "
          "defaults for a symbolic number of samples (up to 0.4 per width; super-resolution with three wavelength patterns of symbolic scale) and for 26 equally spaced channels where the "
          "largest gap sets the maximum; normal and super-resolution widths, both tools")
ASSUME = ["the number of spacings to the maximum is not within 1e-6 of a half integer (either neighbour is acceptable there)",
          "synthesis itself is the subject of P01-P04"]
C = 299792458.0


def configs(tier):
    out = []
    for tool in ("1D", "3D"):
        for kind in ("given", "spacing", "maximum", "default", "manychan"):
            for n in (2, 3) if kind != "manychan" else (26,):
                if tier == "quick" and n == 2 and kind != "given":
                    continue
                for sup in (False, True):
                    out.append(dict(name="%s-%s-%d%s" % (tool, kind, n, "-super" if sup else ""), args=dict(tool=tool, kind=kind, n=n, sup=sup),
                                    witnesses=4, feas_ms=2000))
    return out


class Coarse:
    """numpy whose finely sampled axes (made for plots only) are coarse."""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def linspace(self, a, b, n=50, **k):
        return self._np.linspace(a, b, 3 if n == 10000 else n, **k)


class Stop(Exception):
    pass


def grid(W, tool, f, sup, extra, **kw):
    """the depths handed to synthesis and to the RMSF"""
    np = W.np
    n = len(f)
    M = W.mod("RMtools_1D.do_RMsynth_1D" if tool == "1D" else "RMtools_3D.do_RMsynth_3D")
    got = {}

    def synth(dataQ, dataU, lambdaSqArr_m2, phiArr_radm2, **k):
        got["synth"], got["lam"] = phiArr_radm2, lambdaSqArr_m2
        return np.zeros(len(phiArr_radm2)) * 1j, k.get("lam0Sq_m2") or W.num(0.25)

    def rmsf(lambdaSqArr_m2, phiArr_radm2, **k):
        got["rmsf"] = phiArr_radm2
        raise Stop()
    W.patch(M, "do_rmsynth_planes", synth)
    W.patch(M, "get_rmsf_planes", rmsf)
    one = np.ones(n)
    try:
        if tool == "1D":
            W.patch(M, "np", Coarse(np))
            M.run_rmsynth([f, one, one, one, one, one, one], modStokesI=one, super_resolution=sup, log=quiet, nBits=64, **kw)
        else:
            M.run_rmsynth(np.ones((n, 1, 1)), np.ones((n, 1, 1)), f, super_resolution=sup, log=quiet, verbose=False, nBits=64, **kw)
    except Stop:
        pass
    W.check("synthesis and RMSF on the same depths", got["synth"] is got["rmsf"] or bool(np.all(got["synth"] == got["rmsf"])))
    return got["synth"], got["lam"]


def half_free(W, r, top):
    """keep the ratio away from half integers"""
    for k in range(top + 1):
        d = r - (k + 0.5)
        W.assume(W.or_(d > 1e-6, d < -1e-6))


def harness(W, tool, kind, n, sup):
    np = W.np
    if kind == "manychan":
        s = W.real("scale", lo=0.5, hi=2)
        r = [round((1 + i / 16) ** 0.5, 4) for i in range(n)]
        lam = [s * x for x in r]
        if bool(W.bool("ascending frequency")):
            lam = lam[::-1]
    else:
        a = W.real("lam0", lo=0.1, hi=0.5)
        if kind == "default" and sup:        # only the scale of the wavelengths is symbolic here
            lam = [a * x for x in W.pick("spread", [(1.0, 1.25, 1.5), (1.0, 1.125, 2.0), (1.0, 1.75, 2.0)])[:n]]
        else:
            lam = [a]
            for i in range(1, n):
                lam.append(lam[-1] + W.real("dlam%d" % i, lo=0.05, hi=0.3))
        order = W.pick("order", [list(range(n)), list(range(n))[::-1]])
        lam = [lam[i] for i in order]
    f = W.pack([C / l for l in lam])
    L = [l * l for l in lam]
    ls = W.pack(L)
    gap = np.nanmax(np.abs(np.diff(ls)))
    mx, mn = np.nanmax(ls), np.nanmin(ls)
    width = 2.0 / (mx + mn) if sup else 3.8 / (mx - mn)
    top = max_(3 ** 0.5 / gap, 10 * width)
    kw = {}
    if kind == "given":
        d = W.real("dphi", lo=0.5, hi=50)
        r = W.real("ratio", lo=0.3, hi=4)
        kw = dict(dPhi_radm2=d, phiMax_radm2=d * r)
    elif kind == "maximum":
        ns = W.pick("samples", [1.0, 4.0])
        r = W.real("ratio", lo=0.3, hi=4)
        d = width / ns
        kw = dict(phiMax_radm2=d * r, nSamples=ns)
    elif kind == "spacing":
        r = W.real("ratio", lo=0.3, hi=4)
        d = top / r
        kw = dict(dPhi_radm2=d)
    else:
        ns = W.real("samples", lo=0.05, hi=0.4) if kind == "default" else W.pick("samples", [0.25, 0.5])
        d = width / ns
        r = top / d
        kw = dict(nSamples=ns)
    bnd = 12
    W.assume(r < bnd + 0.25)
    half_free(W, r, bnd)
    phi, lsq = grid(W, tool, f, sup, None, **kw)
    W.closes("wavelengths squared", list(lsq), L, rtol=1e-9)
    N = len(phi)
    h = N // 2
    W.check("odd number of depths", N % 2 == 1)
    W.check("at least the number that reaches the maximum to half a spacing", W.and_(r - h < 0.5 + 1e-9, h - r < 0.5 + 1e-9))
    for k in range(N):
        W.close("depth %d" % k, phi[k], (k - h) * d, rtol=1e-6, atol=1e-7)
    if tool == "1D" and kind in ("given", "default"):
        phi3, _ = grid(W, "3D", f, sup, None, **kw)
        W.check("same number in the 3D tool", len(phi3) == N)
        W.closes("same depths in the 3D tool", list(phi3), list(phi), rtol=1e-6, atol=1e-7)


def max_(a, b):
    return a if bool(a > b) else b
