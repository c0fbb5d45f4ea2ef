"""Uncertainties, signal-to-noise and bias correction of the fitted peak; noise estimate away from the peak."""
from .P10 import vertex
from .lib import total

PRELOAD = ["RMutils.util_RM", "RMutils.util_misc"]
BOUNDS = ("5 depths around one peak (3 symbolic amplitudes), noise, FWHM, lambda_0^2 and 3..4 channel wavelengths (5 thorough) symbolic; noise estimate: 12..14 depths, "
          "one spectrum value symbolic, beam 0.5..3 channels")
ASSUME = ["at least three channels with different wavelengths", "noise > 0 and peak amplitude > 0, vertex inside the depth range"]


def configs(tier):
    out = []
    for nl in (3, 4) if tier == "quick" else (3, 4, 5):
        out.append(dict(name="errors-%dchan" % nl, args=dict(kind="err", nl=nl), feas_ms=300, timeout_ms=15000))
    out.append(dict(name="bias", args=dict(kind="bias", nl=3), feas_ms=300, timeout_ms=10000))
    for n, pk in ((12, 6), (13, 2), (14, 12), (9, 4)):
        for sym in ("far", "near"):
            out.append(dict(name="mad-n%d-peak%d-%s" % (n, pk, sym), args=dict(kind="mad", nl=3, n=n, pk=pk, sym=sym), feas_ms=200, timeout_ms=8000))
    return out


def harness(W, kind, nl, n=5, pk=2, sym=None):
    R = W.mod("RMutils.util_RM")
    if kind == "mad":
        return noise(W, R, n, pk, sym)
    d = W.num(4.0)
    phi = W.pack([(j - 2) * d for j in range(5)])
    sig = W.real("noise", lo=0.01, hi=20)
    fw = W.real("fwhm", lo=1, hi=40)
    lam0 = W.real("lam0sq", lo=0, hi=2)
    if kind == "err":
        a = [W.num(1.0), W.real("a1", lo=2, hi=50), W.num(1.5)]
        lam = W.array("lam2", nl, lo=0.01, hi=2)
        m1 = total(list(lam)) / nl
        W.assume(total([(x - m1) ** 2 for x in lam]) >= W.num(0.001))
    else:
        a = [W.real("a%d" % i, lo=0.5, hi=50) for i in range(3)]
        W.assume(W.and_(a[1] >= a[0] + W.num(0.01), a[1] >= a[2] + W.num(0.01)))
        lam = W.pack([0.25, 0.5, 1.0])
    F = W.pack([W.cplx(W.num(0.1), W.num(0.0)), W.cplx(a[0], W.num(0.0)), W.cplx(a[1] * 0.6, a[1] * 0.8), W.cplx(W.num(0.0), a[2]), W.cplx(W.num(0.1), W.num(0.0))])
    m = R.measure_FDF_parms(F, phi, fw, dFDF=sig, lamSqArr_m2=lam, lam0Sq=lam0)
    off, amp = vertex(a[0], a[1], a[2])
    snr = amp / sig
    if not W.symbolic and abs(float(snr) - 5) < 1e-6:
        W.skip()
    W.close("signal-to-noise is amplitude over noise", m["snrPIfit"], snr)
    W.close("noise is the supplied one", m["dAmpPeakPIfit"], sig)
    W.close("depth error is FWHM / (2 SNR)", m["dPhiPeakPIfit_rm2"], fw / (2 * snr))
    W.close("angle error is 1/(2 SNR)", m["dPolAngleFit_deg"], 180 / W.pi / (2 * snr))
    if kind == "bias":
        if bool(snr >= W.num(5.0)):
            e = m["ampPeakPIfitEff"]
            W.close("bias correction from 5 sigma", e * e, amp * amp - W.num(2.3) * sig * sig, rtol=1e-6)
            W.check("corrected amplitude is not negative", e >= W.num(0.0))
        else:
            W.close("no bias correction below 5 sigma", m["ampPeakPIfitEff"], amp)
        return
    N = W.num(float(nl))
    mean = total(list(lam)) / N
    var = total([(x - mean) ** 2 for x in lam]) / (N - 1)
    if nl == 2:
        return
    # Brentjens & de Bruyn (2005) A.20
    e2 = (N / (N - 2)) * (sig * sig) / (4 * amp * amp) * ((N - 1) / N + lam0 * lam0 / var)
    got = m["dPolAngle0Fit_deg"] * W.pi / 180
    W.close("intrinsic angle variance (A.20)", got * got, e2, rtol=1e-5)
    W.check("intrinsic angle error is not negative", got >= W.num(0.0))


def med(W, xs):
    return W.np.median(W.pack(xs))


def noise(W, R, n, pk, sym):
    d = W.num(2.0)
    phi = W.pack([(j - n // 2) * d for j in range(n)])
    wc = W.real("beam_channels", lo=0.5, hi=3)
    wi = bool(wc <= W.num(1.0))
    c = 1 if wi else (2 if bool(wc <= W.num(2.0)) else 3)
    re = [[0.5, -0.75, 0.25, 1.0, -0.5, 0.875, -0.125][j % 7] for j in range(n)]
    im = [[-0.25, 0.375, 0.9375, -0.625, 0.0625][j % 5] for j in range(n)]
    re, im = [W.num(x) for x in re], [W.num(x) for x in im]
    far = 0 if pk > n // 2 else n - 1
    re[pk], im[pk] = W.num(9.0), W.num(12.0)
    if sym == "far":
        re[far] = W.real("far", lo=-2, hi=2)
    nb = pk - 1 if pk > 1 else pk + 1
    if sym == "near":
        im[nb] = W.real("near", lo=-2, hi=2)
    m = R.measure_FDF_parms(W.pack([W.cplx(a, b) for a, b in zip(re, im)]), phi, wc * d, dFDF=None, lamSqArr_m2=W.pack([0.25, 0.5, 1.0]), lam0Sq=W.num(0.5))
    # channels away from the peak: further than two beams (window end exclusive)
    keep = [j for j in range(n) if not pk - 2 * c <= j < pk + 2 * c]
    if len(keep) < 0.3 * n:
        keep = list(range(n))
    xs = [re[j] for j in keep] + [im[j] for j in keep]
    if not W.symbolic:
        mm = med(W, xs)
        want = med(W, [abs(x - mm) for x in xs]) / 0.6745
        W.close("noise is the robust deviation away from the peak", m["dFDFcorMAD"], want)
        W.close("noise estimate used when none is given", m["dAmpPeakPIfit"], want)
        return
    mm = med(W, xs)
    want = med(W, [abs(x - mm) for x in xs]) / W.num(0.6745)
    W.close("noise is the robust deviation away from the peak", m["dFDFcorMAD"], want)
    W.close("noise estimate used when none is given", m["dAmpPeakPIfit"], want)
