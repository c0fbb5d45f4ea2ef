"""Synthetic spectra generators against the depolarisation laws."""
from .lib import total

PRELOAD = ["RMutils.util_misc"]
BOUNDS = ("3 frequencies, 1, 2 and 3 components with every fraction, angle, depth and dispersion symbolic, parameters given as lists or arrays; "
          "symbolic flux, spectral index and flux frequency (given or the first channel)")
ASSUME = ["frequencies positive; differential rotation of a component not exactly zero"]
C = 299792458.0


def configs(tier):
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for kind in ("burn", "diff"):
            out.append(dict(name="%s-%d" % (kind, n), args=dict(kind=kind, n=n), witnesses=6, feas_ms=2000))
    out.append(dict(name="thin", args=dict(kind="thin", n=1), witnesses=6, feas_ms=2000))
    out.append(dict(name="residual", args=dict(kind="resid", n=1), witnesses=6, feas_ms=2000))
    out.append(dict(name="flux", args=dict(kind="flux", n=1), witnesses=6, feas_ms=2000))
    return out


def harness(W, kind, n):
    M = W.mod("RMutils.util_misc")
    np = W.np
    # wavelengths chosen so that lambda^2 stays simple: f = c / lam
    lam = [W.real("lam%d" % i, lo=0.1, hi=0.8) for i in range(3)]
    f = W.pack([C / l for l in lam])
    L = [l * l for l in lam]
    p = [W.real("p%d" % i, lo=0.01, hi=1) for i in range(n)]
    psi = [W.real("psi%d" % i, lo=-90, hi=180) for i in range(n)]
    RM = [W.real("RM%d" % i, lo=0.1, hi=50) * (-1 if i == 1 else 1) for i in range(n)]
    sig = [W.real("sig%d" % i, lo=0, hi=3) for i in range(n)]
    rad = [v * W.pi / 180 for v in psi]
    lists = bool(W.bool("as lists"))
    g = (lambda v: list(v)) if lists else (lambda v: W.pack(list(v)))
    flux, SI = W.real("flux", lo=0.1, hi=5), W.pick("index", [-1.0, 0.0, 2.0, -0.7])
    f0 = None
    if bool(W.bool("flux frequency given")):
        f0 = C / W.real("lam_ref", lo=0.1, hi=0.8)
    ref = f0 if f0 is not None else f[0]

    def cmp(tag, q, u, e, s=1.0):
        for i in range(3):
            W.close("%s q[%d]" % (tag, i), q[i], s * e[i].real, rtol=1e-7, atol=1e-8)
            W.close("%s u[%d]" % (tag, i), u[i], s * e[i].imag, rtol=1e-7, atol=1e-8)

    def stokesI(I):
        for i in range(3):
            e = flux * ((f[i] / ref) ** SI if SI in (-1.0, 0.0, 2.0) else W.exp(SI * W.log(f[i] / ref)))
            W.close("I[%d]" % i, I[i], e, rtol=1e-7, atol=1e-8)

    def IQU(got, e):
        I, Q, U = got
        stokesI(I)
        for i in range(3):
            W.close("Q[%d]" % i, Q[i], I[i] * e[i].real, rtol=1e-7, atol=1e-8)
            W.close("U[%d]" % i, U[i], I[i] * e[i].imag, rtol=1e-7, atol=1e-8)

    thin = [[p[k] * W.cis(2 * (rad[k] + RM[k] * L[i])) for k in range(n)] for i in range(3)]
    if kind == "burn":
        nosig = bool(W.bool("no dispersion"))
        e = [total([thin[i][k] * (1.0 if nosig else W.exp(-2 * sig[k] * sig[k] * L[i] * L[i])) for k in range(n)]) for i in range(3)]
        a = [g(p), g(psi), g(RM)] + ([] if nosig else [g(sig)])
        pp, q, u = M.create_pqu_spectra_burn(f, *a)
        cmp("fraction", q, u, e)
        for i in range(3):
            W.close("p[%d]" % i, pp[i] * pp[i], e[i].real ** 2 + e[i].imag ** 2, rtol=1e-7, atol=1e-8)
        IQU(M.create_IQU_spectra_burn(f, flux, SI, g(p), g(psi), g(RM), None if nosig else g(sig), freq0_Hz=f0), e)
    elif kind == "diff":
        e = []
        for i in range(3):
            c = []
            for k in range(n):
                x = RM[k] * L[i]
                beh = total([RM[j] * L[i] for j in range(k + 1, n)]) if k + 1 < n else W.num(0.0)
                c.append(p[k] * (W.sin(x) / x) * W.cis(2 * (rad[k] + x / 2 + beh)))
            e.append(total(c))
        pp, q, u = M.create_pqu_spectra_diff(f, g(p), g(psi), g(RM))
        cmp("fraction", q, u, e)
        for i in range(3):
            W.close("p[%d]" % i, pp[i] * pp[i], e[i].real ** 2 + e[i].imag ** 2, rtol=1e-7, atol=1e-8)
        IQU(M.create_IQU_spectra_diff(f, flux, SI, g(p), g(psi), g(RM), freq0_Hz=f0), e)
    elif kind == "thin":
        e = [t[0] for t in thin]
        pp, q, u = M.create_pqu_spectra_RMthin(f, p[0], psi[0], RM[0])
        cmp("fraction", q, u, e)
        W.closes("p", [pp[i] for i in range(3)], [p[0]] * 3)
        IQU(M.create_IQU_spectra_RMthin(f, flux, SI, p[0], psi[0], RM[0], freq0_Hz=f0), e)
    elif kind == "resid":
        e = [t[0] for t in thin]
        q, u = [W.real("q%d" % i, lo=-1, hi=1) for i in range(3)], [W.real("u%d" % i, lo=-1, hi=1) for i in range(3)]
        pr, qr, ur = M.create_pqu_resid_RMthin(W.pack(q), W.pack(u), f, p[0], psi[0], RM[0])
        for i in range(3):
            W.close("q residual[%d]" % i, qr[i], q[i] - e[i].real, rtol=1e-7, atol=1e-8)
            W.close("u residual[%d]" % i, ur[i], u[i] - e[i].imag, rtol=1e-7, atol=1e-8)
            W.close("p residual[%d]" % i, pr[i] * pr[i], qr[i] * qr[i] + ur[i] * ur[i], rtol=1e-7, atol=1e-8)
        a = M.create_pqu_spectra_RMthin(f, p[0], psi[0], RM[0])
        z = M.create_pqu_resid_RMthin(a[1], a[2], f, p[0], psi[0], RM[0])
        for w in z:
            W.closes("own spectrum subtracted", [w[i] for i in range(3)], [0.0] * 3, atol=1e-9)
    else:
        one = M.create_pqu_spectra_RMthin(f, p[0], psi[0], RM[0])
        b = M.create_pqu_spectra_burn(f, g(p), g(psi), g(RM), g([W.num(0.0)]))
        for k in range(3):
            W.closes("single component without dispersion is Faraday thin", [b[k][i] for i in range(3)], [one[k][i] for i in range(3)], rtol=1e-7, atol=1e-8)
        I, Q, U = M.create_IQU_spectra_RMthin(f, flux, SI, p[0], psi[0], RM[0], freq0_Hz=f[1])
        W.close("flux at its frequency", I[1], flux, rtol=1e-7)
