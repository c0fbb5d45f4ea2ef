"""1D synthesis tool: what is reported against the data, for every column layout and Stokes I model."""
import inspect

from .lib import quiet, synth, total, wmean
from .P26 import Coarse

PRELOAD = ["RMtools_1D.do_RMsynth_1D", "RMutils.util_misc"]
BOUNDS = ("2 or 3 channels at several frequency sets (either order) with symbolic I, Q (positive, so the spectrum is not zero), U and errors (ratio of U to Q errors fixed), any of Q, U and the errors flagged; 7-column, "
          "5-column and no-Stokes-I input; Stokes I fitted (symbolic linear model), supplied per channel or failing to fit; variance and uniform weights; "
          "normal and super-resolution; a symbolic depth spacing")
ASSUME = ["the Stokes I fit itself, peak measurement, RMSF and complexity measures are the subjects of P12-P15, P10/P11, P03/P04 and P25: here they are "
          "replaced by arbitrary results and their inputs are checked", "errors positive; supplied or fitted Stokes I positive", "plots are not examined"]
C = 299792458.0
FREQS = {2: [(1.0e9, 1.25e9), (1.5e9, 1.25e9)], 3: [(1.0e9, 1.25e9, 1.5e9), (1.75e9, 1.25e9, 1.0e9)]}


def configs(tier):
    out = []
    for n in (2,) if tier == "quick" else (2, 3):
        for lay in ("fit", "fail", "model", "noI", "five"):
            for wt in ("variance", "uniform"):
                for flags in ("none", "q", "u", "err"):
                    if flags == "err" and wt == "uniform":
                        continue
                    if tier == "quick" and (lay in ("fail", "noI") and flags in ("q", "err") or lay == "fit" and flags == "q"):
                        continue
                    out.append(dict(name="%s-%s-%s-%d" % (lay, wt, flags, n), args=dict(lay=lay, wt=wt, flags=flags, n=n), witnesses=4, feas_ms=2000))
        for lay in ("fit", "model"):
            out.append(dict(name="%s-super-%d" % (lay, n), args=dict(lay=lay, wt="variance", flags="none", n=n, sup=True), witnesses=4, feas_ms=2000))
    if tier == "quick":
        out.append(dict(name="fit-variance-none-3", args=dict(lay="fit", wt="variance", flags="none", n=3), witnesses=4, feas_ms=2000))
        out.append(dict(name="model-uniform-u-3", args=dict(lay="model", wt="uniform", flags="u", n=3), witnesses=4, feas_ms=2000))
    return out


def record(W, M, name, ret):
    """replace a function by one that notes its arguments (however they were passed)"""
    sig = inspect.signature(getattr(M, name))
    calls = []

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return ret(calls[-1]) if callable(ret) else ret
    W.patch(M, name, f)
    return calls


class Run:
    """one run of the 1D tool"""


def run1d(W, lay, wt, flags, n, sup=False):
    W.files()
    np = W.np
    M = W.mod("RMtools_1D.do_RMsynth_1D")
    U = W.mod("RMutils.util_misc")
    r = Run()
    r.n = n
    f = r.f = list(W.pick("frequencies", FREQS[n]))
    fa = W.pack([W.num(x) for x in f])
    I = [W.real("I%d" % i, lo=0.5, hi=4) for i in range(n)]
    Q = [W.real("Q%d" % i, lo=0.05, hi=1, nan=flags == "q" and i == n - 1) for i in range(n)]
    Us = [W.real("U%d" % i, lo=-1, hi=1, nan=flags == "u" and i == 0) for i in range(n)]
    dI = [W.num(0.125)] * n
    # different errors for Q and U with a simple mean
    e = [W.real("e%d" % i, lo=0.1, hi=1, nan=flags == "err" and i == 0) for i in range(n)]
    dQ = [x * 0.75 for x in e]
    dU = [x * 1.25 for x in e]
    if bool(W.bool("only one error flagged")):
        dU[0] = W.num(0.25) if flags == "err" else dU[0]
    if lay == "five":
        data = [fa, W.pack(Q), W.pack(Us), W.pack(dQ), W.pack(dU)]
    else:
        data = [fa] + [W.pack(x) for x in (I, Q, Us, dI, dQ, dU)]
    kw = {}
    # Stokes I model
    s, i0, ref = W.pick("slope", [0.0, 0.5]), W.real("model_I", lo=0.5, hi=3), 1.25e9
    s = s * i0
    fits = record(W, U, "fit_StokesI_model", lambda a: U.FitResult(
        params=W.pack([W.num(0.0)] * 4 + [s, i0]), fitStatus=1, chiSq=W.num(2.5), chiSqRed=W.num(1.25), AIC=W.num(1.0), polyOrd=1, nIter=3,
        reference_frequency_Hz=W.num(ref), dof=2, pcov=W.pack([[W.num(0.0)] * 6] * 6), perror=W.pack([W.num(0.0)] * 6), fit_function="linear")
        if lay == "fit" else 1 / 0)
    if lay == "fit":
        r.model = lambda x: i0 + s * (x / ref)
    elif lay == "model":
        mod = [W.real("M%d" % i, lo=0.5, hi=3) for i in range(n)]
        kw["modStokesI"] = W.pack(mod)

        def model(x):
            o = sorted(range(n), key=lambda i: f[i])
            for a, b in zip(o, o[1:]):
                if bool(x <= f[b]) or b == o[-1]:
                    return mod[a] + (mod[b] - mod[a]) * ((x - f[a]) / (f[b] - f[a]))
        r.model = model
    else:
        r.model = lambda x: W.num(1.0)
    Im = r.Im = [r.model(x) for x in f] if lay != "model" else mod
    d = W.real("dphi", lo=1, hi=20)
    r.peak = dict(ampPeakPIfitEff=W.real("amp", lo=0.1, hi=5), polAngle0Fit_deg=W.real("angle0", lo=0, hi=180), phiPeakPIfit_rm2=W.real("peak", lo=-9, hi=9),
                  snrPIfit=W.num(7.0), other=W.num(3.0))
    r.measured = record(W, M, "measure_FDF_parms", lambda a: dict(r.peak))
    r.complexity = record(W, M, "measure_qu_complexity", lambda a: ({"sigmaAddC": W.num(0.75)}, {}))
    UR = W.mod("RMutils.util_RM")
    r.fwhm = W.real("fwhm", lo=1, hi=50)
    r.R = W.array("R", (3, 2), lo=-1, hi=1)
    Rc = W.pack([W.cplx(r.R[k, 0], r.R[k, 1]) for k in range(3)])
    r.Rc, r.phi2 = Rc, W.pack([W.num(-8.0), W.num(0.0), W.num(8.0)])
    r.rmsf = record(W, M, "get_rmsf_planes", lambda a: UR.RMSFResults(RMSFcube=Rc, phi2Arr=r.phi2, fwhmRMSFArr=r.fwhm, statArr=1, lam0Sq_m2=a["lam0Sq_m2"]))
    W.patch(M, "np", Coarse(np))
    # what the report should be (the flags are decided here)
    r.lay, r.sup, r.phi = lay, sup, [-d, W.num(0.0), d]
    r.L = [(C / x) ** 2 for x in f]
    r.q = [Q[i] / Im[i] for i in range(n)]
    r.u = [Us[i] / Im[i] for i in range(n)]
    r.dq = [dQ[i] / Im[i] for i in range(n)]
    r.du = [dU[i] / Im[i] for i in range(n)]
    r.dQ, r.dU = dQ, dU
    r.used = []
    r.wt = []
    for i in range(n):
        flagged = bool(W.isnan(Q[i])) or bool(W.isnan(Us[i])) or (wt == "variance" and (bool(W.isnan(dQ[i])) or bool(W.isnan(dU[i]))))
        r.wt.append(W.num(0.0) if flagged else W.num(1.0) if wt == "uniform" else 1 / ((r.dq[i] + r.du[i]) / 2) ** 2)
        if not flagged:
            r.used.append(i)
    r.lam0 = W.num(0.0) if sup else wmean(W, [r.wt[i] for i in r.used], [W.num(r.L[i]) for i in r.used])
    # F(0) = sum(w q)/sum(w) is not zero because Q is positive
    W.assume(total([r.wt[i] * r.q[i] for i in r.used]) / total([r.wt[i] for i in r.used]) > 0)
    r.m, r.a = M.run_rmsynth(data, polyOrd=2, phiMax_radm2=d, dPhi_radm2=d, weightType=wt, noStokesI=lay == "noI", nBits=64, log=quiet,
                             units="mJy", fit_function="linear", super_resolution=sup, **kw)
    if lay != "model":
        W.check("one fit of Stokes I", len(fits) == 1)
        a = fits[0]
        W.closes("fit: frequencies", [x / 1e9 for x in a["freqArr"]], [x / 1e9 for x in f])
        W.closes("fit: intensities", list(a["IArr"]), I if lay not in ("noI", "five") else [1.0] * n)
        W.closes("fit: errors", list(a["dIArr"]), dI if lay not in ("noI", "five") else [0.0] * n)
        W.check("fit: order and function", a["polyOrd"] == 2 and a["fit_function"] == "linear")
    # reference frequency: of lambda_0^2, or (super-resolution) that of the Stokes I model
    f0 = r.m["freq0_Hz"]
    if sup:
        W.close("reference frequency", f0 / 1e9, W.num(ref / 1e9 if lay == "fit" else sum(f) / n / 1e9))
    else:
        W.close("reference frequency", (f0 / 1e9) ** 2 * r.lam0, (C / 1e9) ** 2, rtol=1e-7)
        W.check("reference frequency positive", f0 > 0)
    r.f0 = f0
    r.I0 = r.model(f0)
    return r


def harness(W, lay, wt, flags, n, sup=False):
    r = run1d(W, lay, wt, flags, n, sup)
    m, a, used = r.m, r.a, r.used
    W.closes("depths", list(a["phiArr_radm2"]), r.phi)
    P = [W.cplx(r.q[i], r.u[i]) for i in used]
    w = [r.wt[i] for i in used]
    L = [r.L[i] for i in used]
    F = a["dirtyFDF"]
    for j in range(3):
        e = r.I0 * synth(W, w, P, L, r.lam0, r.phi[j])
        W.close("F[%d]" % j, F[j], e, rtol=1e-4, atol=1e-5)
    W.close("lambda_0^2", m["lam0Sq_m2"], r.lam0, rtol=1e-9)
    W.close("Stokes I there", m["Ifreq0"], r.I0, rtol=1e-6)
    W.close("fractional polarisation", m["fracPol"], r.peak["ampPeakPIfitEff"] / r.I0, rtol=1e-6)
    for k, v in r.peak.items():
        W.close("measured: " + k, m[k], v)
    W.close("complexity reported", m["sigmaAddC"], 0.75)
    W.close("RMSF width", m["fwhmRMSF"], r.fwhm)
    c = r.measured[0]
    W.check("measured once, on the reported spectrum", len(r.measured) == 1 and all(bool(W.or_(W.isnan(x.real), W.eq(x, y))) for x, y in zip(c["FDF"], F)))
    W.closes("measured on the depths", list(c["phiArr"]), r.phi)
    W.closes("measured with", [c["fwhmRMSF"], c["lam0Sq"]], [r.fwhm, r.lam0], rtol=1e-9)
    W.close("measured with the noise", c["dFDF"], m["dFDFth"])
    W.closes("measured with wavelengths", list(c["lamSqArr_m2"]), r.L, rtol=1e-9)
    c = r.complexity[0]
    W.closes("complexity: model", [c["fracPol"], c["psi0_deg"], c["RM_radm2"]], [m["fracPol"], r.peak["polAngle0Fit_deg"], r.peak["phiPeakPIfit_rm2"]])
    for k, e in (("qArr", r.q), ("uArr", r.u), ("dqArr", r.dq), ("duArr", r.du)):
        for i in range(n):
            if bool(W.isnan(e[i])):
                W.check("complexity: flagged " + k, W.isnan(c[k][i]))
            else:
                W.close("complexity: %s[%d]" % (k, i), c[k][i], e[i], rtol=1e-9)
    c = r.rmsf[0]
    W.closes("RMSF: wavelengths", list(c["lambdaSqArr_m2"]), r.L, rtol=1e-9)
    W.closes("RMSF: depths", list(c["phiArr_radm2"]), r.phi)
    W.close("RMSF: reference wavelength", c["lam0Sq_m2"], r.lam0, rtol=1e-9)
    for i in range(n):
        x = c["weightArr"][i]
        if i in used:
            W.check("RMSF: channel %d used" % i, W.not_(c["mskArr"][i]))
            W.close("RMSF: weight %d" % i, x, r.wt[i], rtol=1e-9)
        else:
            W.check("RMSF: channel %d left out" % i, W.or_(c["mskArr"][i], W.isnan(x), W.eq(x, W.num(0.0))))
    W.check("RMSF saved", all(bool(W.eq(x, y)) for x, y in zip(a["RMSFArr"], r.Rc)) and all(bool(W.eq(x, y)) for x, y in zip(a["phi2Arr_radm2"], r.phi2)))
    W.closes("frequencies saved", [x / 1e9 for x in a["freqArr_Hz"]], [x / 1e9 for x in r.f])
    W.check("channel count", m["N_channels"] == len(used))
    W.closes("frequency range", [m["min_freq"] / 1e9, m["max_freq"] / 1e9], [min(r.f[i] for i in used) / 1e9, max(r.f[i] for i in used) / 1e9])
    dif = sorted(r.f[i + 1] - r.f[i] for i in range(n - 1))
    W.close("median channel spacing", m["median_channel_width"] / 1e9, (dif[(n - 2) // 2] + dif[(n - 1) // 2]) / 2e9)
    W.check("settings", m["units"] == "mJy" and m["fit_function"] == "linear" and m["polyOrd"] == (1 if lay == "fit" else 2))
    W.check("fit status", m["IfitStat"] % 64 == {"fit": 1, "model": 0}.get(lay, 9))
    W.close("fit quality", m["IfitChiSqRed"], 1.25 if lay == "fit" else 0.0)
    if lay == "fit":
        c = [W.parse(x) for x in m["polyCoeffs"].split(",")]
        for x in (0.8e9, 2.0e9):
            W.close("reported model at %g" % x, total([c[k] * (x / m["freq0_Hz"]) ** (5 - k) for k in range(6)]), r.model(x), rtol=1e-5)
