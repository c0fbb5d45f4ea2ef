"""3D synthesis tool: cube against per-pixel synthesis and the peak maps against the cube."""
from .lib import synth, total, wmean
from .P28 import C, record

PRELOAD = ["RMtools_3D.do_RMsynth_3D"]
FREQS = {2: [(1.0e9, 1.25e9), (1.5e9, 1.25e9)], 3: [(1.0e9, 1.25e9, 1.5e9), (1.75e9, 1.25e9, 1.0e9), (1.25e9, 1.0e9, 2.0e9)]}
BOUNDS = ("cubes of 2 or 3 channels at several frequency sets (rising, falling, unordered) and 1x2, 2x1 or 2x2 pixels with symbolic Q and U, any voxel of one pixel and one whole "
          "channel flagged in Q, U or I; with and without a symbolic per-pixel Stokes I model; uniform and variance weights (symbolic noise); normal and "
          "super-resolution; a symbolic depth spacing with 3 depths; peak maps: 3 or 4 depths, 2x2 pixels, depth on any axis, symbolic spectra, blank pixels")
ASSUME = ["RMSF planes (P03/P04) and depth sampling (P26) are checked elsewhere: here the call is recorded", "Stokes I models positive where not blank",
          "a pixel is blank at all depths or at none in the peak maps"]


def configs(tier):
    out = []
    q = tier == "quick"
    for n in (2, 3):
        for useI in (False, True):
            for sup in (False, True):
                for wt in ("uniform", "variance"):
                    for flags in ("none", "voxel", "channel"):
                        if q and (n == 3 and (flags == "channel" or wt == "variance" and useI) or sup and flags == "channel"):
                            continue
                        out.append(dict(name="cube-%s%s-%s-%s-%d" % ("I-" if useI else "", "super" if sup else "normal", wt, flags, n),
                                        args=dict(kind="cube", n=n, useI=useI, sup=sup, wt=wt, flags=flags), witnesses=4, feas_ms=2000))
    for k in ("only-rmsf", "only-synth", "neither"):
        out.append(dict(name=k, args=dict(kind=k, n=2, useI=True, sup=False, wt="uniform", flags="none"), witnesses=4))
    for n in (3,) if q else (3, 4):
        for ax in (0, 1, 2):
            out.append(dict(name="peaks-%d-axis%d" % (n, ax), args=dict(kind="peaks", n=n, useI=False, sup=False, wt="", flags=ax), witnesses=4))
    return out


def peaks(W, n, ax):
    np = W.np
    M = W.mod("RMtools_3D.do_RMsynth_3D")
    F = [[W.cplx(W.real("r%d_%d" % (p, k), lo=-2, hi=2), W.real("i%d_%d" % (p, k), lo=-2, hi=2)) if p < 2 else
          W.cplx(W.num(k + 1.0 if p == 2 else 3.0 - k), W.num(0.5)) for k in range(n)] for p in range(4)]
    blank = [bool(W.bool("blank%d" % p)) if p in (1, 2) else False for p in range(4)]
    phi = W.pack([W.real("phi0", lo=-99, hi=0) + k * W.real("step", lo=1, hi=9) for k in range(n)])
    cube = W.pack([[[W.cplx(W.num(float("nan")), W.num(float("nan"))) if blank[2 * y + x] else F[2 * y + x][k] for x in range(2)] for y in range(2)] for k in range(n)])
    mx, pk = M.create_peak_maps(np.moveaxis(cube, 0, ax), phi, phi_axis=ax)
    W.check("map shapes", tuple(mx.shape) == (2, 2) and tuple(pk.shape) == (2, 2))
    for p in range(4):
        y, x = divmod(p, 2)
        if blank[p]:
            W.check("blank stays blank", W.and_(W.isnan(mx[y, x]), W.isnan(pk[y, x])))
            continue
        k = 0
        for j in range(1, n):
            if bool(abs(F[p][j]) > abs(F[p][k])):
                k = j
        W.close("peak intensity", mx[y, x], abs(F[p][k]), rtol=1e-6)
        W.close("peak depth", pk[y, x], phi[k], rtol=1e-6)


def harness(W, kind, n, useI, sup, wt, flags):
    if kind == "peaks":
        return peaks(W, n, flags)
    np = W.np
    M = W.mod("RMtools_3D.do_RMsynth_3D")
    f = list(W.pick("frequencies", FREQS[n]))
    shape = W.pick("image", [(1, 2), (2, 1)])
    pix = 2
    bad = W.pick("flagged in", ["Q", "U"] + (["I"] if useI else [])) if flags != "none" else ""
    fc = n - 1 if flags == "channel" else 0

    def cube(tag, lo, hi):
        return [[W.real("%s%d_%d" % (tag, i, p), lo=lo, hi=hi, nan=bad == tag and (flags == "voxel" and p == 0 or flags == "channel" and i == fc))
                 for p in range(pix)] for i in range(n)]
    Q, U = cube("Q", 0.05, 1), cube("U", -1, 1)
    I = cube("I", 0.5, 3) if useI else [[W.num(1.0)] * pix] * n
    if flags == "channel":
        which = (Q if bad == "Q" else U if bad == "U" else I)
        for p in range(pix):
            W.assume(W.isnan(which[fc][p]))
    rms = [W.real("rms%d" % i, lo=0.1, hi=1) for i in range(n)]
    w0 = [1 / (x * x) for x in rms] if wt == "variance" else [W.num(1.0)] * n
    d = W.real("dphi", lo=1, hi=20)
    phi = [-d, W.num(0.0), d]
    L = [(C / x) ** 2 for x in f]
    ok = [[not (bool(W.isnan(Q[i][p])) or bool(W.isnan(U[i][p])) or bool(W.isnan(I[i][p]))) for p in range(pix)] for i in range(n)]
    used = [i for i in range(n) if any(ok[i])]
    lam0 = W.num(0.0) if sup else wmean(W, [w0[i] for i in used], [W.num(L[i]) for i in used])
    for p in range(pix):
        u = [i for i in range(n) if ok[i][p]]
        if u:
            W.assume(total([w0[i] * (Q[i][p] / I[i][p]) for i in u]) / total([w0[i] for i in u]) > 0)

    def arr(c):
        return np.reshape(W.pack(c), (n,) + tuple(shape))
    rm = record(W, M, "get_rmsf_planes", lambda a: ("R", "phi2", "fwhm", "stat", a["lam0Sq_m2"] if a["lam0Sq_m2"] is not None else W.num(0.0625)))
    kw = dict(not_rmsf=kind in ("only-synth", "neither"), not_rmsynth=kind in ("only-rmsf", "neither"))
    call = lambda: M.run_rmsynth(arr(Q), arr(U), W.pack([W.num(x) for x in f]), dataI=arr(I) if useI else None, rmsArr=W.pack(rms), phiMax_radm2=d, dPhi_radm2=d,
                                 weightType=wt, nBits=64, verbose=False, super_resolution=sup, log=lambda *a: None, **kw)
    if kind == "neither":
        try:
            call()
            W.check("nothing to do is refused", False)
        except SystemExit:
            W.check("nothing to do is refused", True)
        return
    out = call()
    if kind == "only-rmsf":
        W.check("contents", len(out) == 5 and list(out[:4]) == ["R", "phi2", "fwhm", "stat"])
    else:
        W.check("number of items", len(out) == (4 if kind == "only-synth" else 8))
        F = out[0]
        W.check("cube shape", tuple(F.shape) == (3,) + tuple(shape))
        W.closes("depths", list(out[1]), phi)
        if kind == "cube":
            W.check("RMSF kept", list(out[2:6]) == ["R", "phi2", "fwhm", "stat"])
        W.close("lambda_0^2", out[-2], lam0, rtol=1e-6)
        W.closes("wavelengths", list(out[-1]), L, rtol=1e-9)
        # Stokes I at the reference frequency, from the two channels around it
        if useI:
            if sup:
                f0 = W.num(sum(f) / n)
            else:
                f0 = W.real("f0", lo=0.5e9, hi=3e9) if False else C / W.sqrt(out[-2])
            o = sorted(range(n), key=lambda i: f[i])
            for a, b in zip(o, o[1:]):
                if b == o[-1] or bool(f0 <= f[b]):
                    break
            t = (f0 - f[a]) / (f[b] - f[a])
        for p in range(pix):
            y, x = divmod(p, shape[1])
            u = [i for i in range(n) if ok[i][p]]
            for k in range(3):
                g = F[k, y, x]
                I0 = I[a][p] * (1 - t) + I[b][p] * t if useI else W.num(1.0)
                if not u or useI and not (bool(W.isfinite(I[a][p])) and bool(W.isfinite(I[b][p]))):
                    W.check("blank pixel", W.isnan(g.real))
                else:
                    e = I0 * synth(W, [w0[i] for i in u], [W.cplx(Q[i][p] / I[i][p], U[i][p] / I[i][p]) for i in u], [L[i] for i in u], lam0, phi[k])
                    W.close("F[%d] pixel %d" % (k, p), g, e, rtol=1e-4, atol=1e-5)
    if kind == "only-synth":
        W.check("no RMSF", not rm)
        return
    W.check("RMSF computed once", len(rm) == 1)
    c = rm[0]
    W.closes("RMSF: wavelengths", list(c["lambdaSqArr_m2"]), L, rtol=1e-9)
    W.closes("RMSF: depths", list(c["phiArr_radm2"]), phi)
    if kind == "cube":
        W.close("RMSF: reference wavelength", c["lam0Sq_m2"], lam0, rtol=1e-6)
        W.check("RMSF: mode", (c["fitRMSF"], c["fitRMSFreal"]) == (sup, sup))
    for i in range(n):
        if i in used:
            W.close("RMSF: weight %d" % i, c["weightArr"][i], w0[i], rtol=1e-6)
        for p in range(pix):
            y, x = divmod(p, shape[1])
            W.check("RMSF: voxel %d,%d" % (i, p), bool(c["mskArr"][i, y, x]) == (not ok[i][p]))
