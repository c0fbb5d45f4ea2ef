"""Q, U models predicted from clean components invert RM synthesis."""
from .lib import rmsf, synth, total, wmean
from .P28 import C

PRELOAD = ["RMtools_1D.clean_model", "RMtools_1D.do_RMsynth_1D", "RMtools_1D.do_RMclean_1D"]
MODEL, SYN, CLN = PRELOAD
BOUNDS = ("2 or 3 channels (either frequency order), 2 to 4 Faraday depths with arbitrary complex components and depths, reference wavelength inside the band or zero, Stokes I absent, linear (two symbolic parameters) or a power law (symbolic scale, exponents -1, 0, 2); the function, and the command line tool on the files written by the synthesis and clean tools; and the tool's prediction synthesised by the synthesis code")
ASSUME = ["components are in flux units at the reference frequency, as the clean tool saves them; Stokes I positive", "files are modelled in memory"]
FREQS = {2: [(1.0e9, 1.25e9), (1.5e9, 1.25e9)], 3: [(1.0e9, 1.25e9, 1.5e9), (1.75e9, 1.25e9, 1.0e9)]}


def configs(tier):
    q = tier == "quick"
    out = []
    for fit in ("none", "linear", "log"):
        for n in (2, 3):
            for k in (2, 3) if q else (2, 3, 4):
                if q and n == 3 and k == 3:
                    continue
                out.append(dict(name="function-%s-%d-%d" % (fit, n, k), args=dict(kind="function", fit=fit, n=n, k=k), witnesses=6))
        if fit != "none":
            out.append(dict(name="tool-%s" % fit, args=dict(kind="tool", fit=fit, n=2, k=3), witnesses=8))
        for n in (2, 3):
            out.append(dict(name="inverse-%s-%d" % (fit, n), args=dict(kind="inverse", fit=fit, n=n, k=3), witnesses=6))
    return out


def intensity(W, fit, i0, s, x):
    """the model at x = f/f0"""
    if fit == "none":
        return W.num(1.0)
    if fit == "linear":
        return i0 + s * x
    return i0 * x ** s


def harness(W, kind, fit, n, k):
    M = W.mod(MODEL) if kind != "tool" else None
    f = list(W.pick("frequencies", FREQS[n]))
    lam = [(C / x) ** 2 for x in f]
    sup = bool(W.bool("super-resolution"))
    t = W.pick("reference", [0.25, 0.625, 0.875])
    f0 = min(f) + t * (max(f) - min(f))
    lam0 = 0.0 if sup else (C / f0) ** 2
    i0 = W.real("i0", lo=0.5, hi=4)
    s = W.num(0.0) if fit == "none" else W.real("slope", lo=0.0, hi=2) if fit == "linear" else W.pick("slope", [-1, 0, 2])
    phi = [W.real("phi%d" % j, lo=-20, hi=20) for j in range(k)]
    cc = [W.cplx(W.real("cr%d" % j, lo=-3, hi=3), W.real("ci%d" % j, lo=-3, hi=3)) for j in range(k)]
    p = W.pack([W.num(0.0)] * 4 + [W.num(s) if fit == "log" else s, i0])
    pr = None if fit == "none" else [p[j] for j in range(6)]
    I0 = intensity(W, fit, i0, s, 1.0)

    def expected(Q, I, fr, l0, phi, cc):
        for j in range(n):
            e = intensity(W, fit, i0, s, f[j] / fr)
            W.close("Stokes I at channel %d" % j, I[j], e, rtol=1e-6)
            z = total([cc[m] * W.cis(2 * phi[m] * (lam[j] - l0)) for m in range(k)])
            W.close("Q, U at channel %d" % j, Q[j], e / I0 * z, rtol=1e-6, atol=1e-6)

    fa = W.pack([W.num(x) for x in f])
    if kind == "function":
        kw = {} if fit == "none" or bool(W.bool("log by default")) and fit == "log" else dict(fit_function=fit)
        other = bool(W.bool("own reference frequency")) if fit != "none" else False
        fr = f0
        if other:
            fr = kw["freq0_Hz"] = 1.125e9
        if sup and not other:
            if fit != "none":
                W.skip()      # no reference frequency given at all
            fr = 1.25e9
        Q, I = M.calculate_QU_model(fa, W.pack(phi), W.pack(cc), lam0, pr, **kw)
        expected(Q, I, fr, lam0, phi, cc)
        return
    if kind == "inverse":
        # a unit of polarisation at one depth is predicted, then synthesised (divided by I, times I at the reference)
        R = W.mod("RMutils.util_RM")
        d = W.real("d", lo=1, hi=20)
        grid = [(j - 1) * d for j in range(3)]
        at = W.pick("depth", [0, 1, 2])
        W.assume(cc[0].real > 0.1)      # all-zero spectra count as blank
        comp = [cc[0] if j == at else W.cplx(W.num(0.0), W.num(0.0)) for j in range(3)]
        w = [W.real("w%d" % j, lo=0.5, hi=2) for j in range(n)]
        l0 = W.num(0.0) if sup else wmean(W, w, [W.num(x) for x in lam])
        fr = 1.25e9
        kw = dict(fit_function=fit, freq0_Hz=fr) if fit != "none" else {}
        if W.symbolic and fit == "none":
            kw["freq0_Hz"] = fr     # I = 1 whatever the reference
        Q, I = M.calculate_QU_model(fa, W.pack(grid), W.pack(comp), l0, pr, **kw)
        q = [Q[j] / I[j] for j in range(n)]
        F, used = R.do_rmsynth_planes(W.pack([x.real for x in q]), W.pack([x.imag for x in q]), W.pack([W.num(x) for x in lam]), W.pack(grid), weightArr=W.pack(w), lam0Sq_m2=0 if sup else None, nBits=64)
        W.close("reference wavelength", used, l0, rtol=1e-9)
        for j in range(3):
            W.close("synthesised at depth %d" % j, F[j] * I0, cc[0] * rmsf(W, w, [W.num(x) for x in lam], l0, grid[j] - grid[at]), rtol=1e-4, atol=1e-4)
        return
    d = W.files()
    M, S, CL = W.mod(MODEL), W.mod(SYN), W.mod(CLN)
    np = W.np
    cols = W.pick("columns", [5, 7])
    np.savetxt(d + "/in.dat", W.pack([[W.num(f[j])] + [W.num(0.5)] * (cols - 1) for j in range(n)]))
    m = dict(polyCoeffs=",".join(str(x) for x in pr), fit_function=fit, lam0Sq_m2=W.num(lam0), freq0_Hz=W.num(f0), units="mJy", polyOrd=1)
    z = W.pack([W.num(1.0)] * 2)
    S.saveOutput(m, dict(phiArr_radm2=z, dirtyFDF=z * 1j, phi2Arr_radm2=z, RMSFArr=z * 1j, freqArr_Hz=fa, weightArr=fa), d + "/in", False)
    CL.saveOutput(dict(x=W.num(1.0)), dict(phiArr_radm2=W.pack(phi), cleanFDF=W.pack(cc) * 2, ccArr=W.pack(cc)), d + "/in")
    W.argv(MODEL, d + "/in.dat", d + "/in_RMsynth.json", d + "/in_FDFmodel.dat", d + "/out.dat")
    t = np.loadtxt(d + "/out.dat", unpack=True)
    W.check("columns f, I, Q, U", len(t) == 4)
    W.closes("frequencies", [x / 1e9 for x in t[0]], [x / 1e9 for x in f])
    expected([W.cplx(a, b) for a, b in zip(t[2], t[3])], t[1], f0, lam0, phi, cc)
