"""Polarisation angle at the peak and its derotation."""
from .P10 import vertex

PRELOAD = ["RMutils.util_RM", "RMutils.util_misc"]
BOUNDS = ("5 depths (spacing concrete), the three complex values around the peak fully symbolic (any phase), lambda_0^2 symbolic in 0..2 or depth spacing "
          "symbolic in 1..5000 rad/m^2")
ASSUME = ["the peak channel is interior and its parabola vertex lies inside the depth range; no NaN"]


def configs(tier):
    out = []
    for n, k in ((5, 1), (5, 2), (5, 3)) + (((6, 4), (7, 3)) if tier != "quick" else ()):
        for what in ("amp", "phase"):
            for neg in (False, True):
                out.append(dict(name="n%d-peak%d-%s%s" % (n, k, what, "-neg" if neg else ""), args=dict(n=n, k=k, what=what, neg=neg), feas_ms=200, timeout_ms=8000))
    out.append(dict(name="derotate", args=dict(n=5, k=2, what="derot", neg=False), feas_ms=200, timeout_ms=8000))
    return out


def mod180(W, x):
    return x - 180 * W.floor(x / 180)


def harness(W, n, k, what, neg):
    R = W.mod("RMutils.util_RM")
    d = W.real("dphi", lo=1, hi=5000) if what == "derot" else W.num(4.0)
    phi = W.pack([(j - n // 2) * d for j in range(n)])
    lam0 = W.real("lam0sq", lo=0, hi=2)
    base = W.num(0.01)
    if what == "amp":
        # amplitudes symbolic, phases fixed and different per channel
        ph = [(0.6, 0.8), (-0.28, 0.96), (0.0, -1.0)]
        if neg:
            ph = [(-x, -y) for x, y in ph]
        a = [W.real("a%d" % i, lo=0.5, hi=9) for i in range(3)]
        v = [W.cplx(a[i] * ph[i][0], a[i] * ph[i][1]) for i in range(3)]
    else:
        # peak with any phase, neighbours with equal fixed amplitude (vertex at the channel)
        x, y = W.real("re", lo=-9, hi=9), W.real("im", lo=-9, hi=9)
        if neg:
            x, y = -x, -y
        W.assume(x * x + y * y >= W.num(2.25))
        a = [W.num(1.0), W.sqrt(x * x + y * y), W.num(1.0)]
        v = [W.cplx(W.num(0.6), W.num(0.8)), W.cplx(x, y), W.cplx(W.num(0.0), W.num(-1.0))]
    W.assume(W.and_(a[1] >= a[0] + W.num(0.01), a[1] >= a[2] + W.num(0.01)))
    F = [W.cplx(base, W.num(0.0)) for _ in range(n)]
    for i in range(3):
        F[k - 1 + i] = v[i]
    m = R.measure_FDF_parms(W.pack(F), phi, d, dFDF=W.num(0.5), lamSqArr_m2=W.pack([0.25, 0.5, 0.75, 1.0]), lam0Sq=lam0)
    off, amp = vertex(a[0], a[1], a[2])
    pv = phi[k] + off * d
    A, A0 = m["polAngleFit_deg"], m["polAngle0Fit_deg"]
    # linear interpolation between the bracketing channels
    up = bool(off >= W.num(0.0))
    lo, hi, t = (v[1], v[2], off) if up else (v[0], v[1], 1 + off)
    re, im = lo.real + t * (hi.real - lo.real), lo.imag + t * (hi.imag - lo.imag)
    if not W.symbolic and re * re + im * im < 1e-6:
        W.skip()
    W.close("spectrum at the peak, real part", m["peakFDFrealFit"], re)
    W.close("spectrum at the peak, imaginary part", m["peakFDFimagFit"], im)
    half = W.atan2(m["peakFDFimagFit"], m["peakFDFrealFit"]) * 90 / W.pi
    ref = mod180(W, half)
    ref0 = mod180(W, A - pv * lam0 * 180 / W.pi)
    if W.symbolic:
        W.close("angle is half the phase", A, ref)
        W.close("intrinsic angle is the angle derotated to zero wavelength", A0, ref0)
        W.check("angle in [0,180)", W.and_(A >= W.num(0.0), A < W.num(180.0)))
        W.check("intrinsic angle in [0,180)", W.and_(A0 >= W.num(0.0), A0 < W.num(180.0)))
    else:
        W.close("angle is half the phase", abs((A - ref + 90) % 180 - 90), 0.0, atol=1e-5)
        W.close("intrinsic angle is the angle derotated to zero wavelength", abs((A0 - ref0 + 90) % 180 - 90), 0.0, atol=1e-4)
        W.check("angle in [0,180)", 0 <= A <= 180)
        W.check("intrinsic angle in [0,180)", 0 <= A0 <= 180)
