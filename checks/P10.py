"""Peak of a Faraday dispersion function: channel choice and parabola vertex."""
from .lib import quiet

PRELOAD = ["RMutils.util_RM", "RMutils.util_misc"]
BOUNDS = ("depth grids of 5 and 6 (7 thorough) channels with symbolic start and spacing, every amplitude symbolic (fixed distinct phases), NaN allowed "
          "in any one channel (edge or interior); parabola vertex for any three distinct abscissae and any ordinates")
ASSUME = ["amplitudes at the peak and its neighbours are not collinear (no vertex exists otherwise)", "peak amplitude > 0"]

PH = [(0.6, 0.8), (1.0, 0.0), (-0.8, 0.6), (0.0, -1.0), (-0.6, -0.8), (0.28, 0.96), (-1.0, 0.0)]


def configs(tier):
    out = [dict(name="vertex", args=dict(kind="vertex", n=3, nanat=None)), dict(name="vertex-exact", args=dict(kind="exact", n=3, nanat=None)),
           dict(name="invariance", args=dict(kind="invariance", n=5, nanat=None), feas_ms=200)]
    for n in (5, 6, 7) if tier == "quick" else (5, 6, 7, 8, 11):
        out.append(dict(name="grid-n%d" % n, args=dict(kind="grid", n=n, nanat=None), feas_ms=200))
    for n in (5, 6) if tier == "quick" else (5, 6, 7):
        for nanat in [None] + ([0, 2, 3, n - 1] if n == 5 else [0, n - 2] if n == 6 else []):
            out.append(dict(name="peak-n%d-%s" % (n, "nan%d" % nanat if nanat is not None else "full"), args=dict(kind="peak", n=n, nanat=nanat), weight=n, feas_ms=200))
    return out


def vertex(ym, y0, yp):
    """offset (in channels) and height of the parabola through (-1,ym) (0,y0) (1,yp)"""
    c = ym - 2 * y0 + yp
    return (ym - yp) / (2 * c), y0 - (ym - yp) ** 2 / (8 * c)


def lagrange(x, xs, ys):
    r = None
    for i in range(3):
        t = ys[i]
        for j in range(3):
            if j != i:
                t = t * (x - xs[j]) / (xs[i] - xs[j])
        r = t if r is None else r + t
    return r


def measure(W, R, a, phi, n):
    F = W.pack([W.cplx(a[j] * W.num(PH[j][0]), a[j] * W.num(PH[j][1])) for j in range(n)])
    return R.measure_FDF_parms(F, phi, W.num(1.0) * (phi[1] - phi[0]), dFDF=W.num(0.125), lamSqArr_m2=W.pack([0.25, 0.5, 0.75, 1.0]), lam0Sq=W.num(0.5))


def harness(W, kind, n, nanat):
    R = W.mod("RMutils.util_RM")
    if kind in ("vertex", "exact"):
        V = W.mod("RMutils.util_misc").calc_parabola_vertex
        xs = [W.real("x%d" % i, lo=-50, hi=50) for i in range(3)]
        for i in range(3):
            for j in range(i):
                W.assume(abs(xs[i] - xs[j]) >= W.num(0.05))
        if kind == "exact":
            A, B, C = (W.real(s, lo=-20, hi=20) for s in "ABC")
            W.assume(abs(A) >= W.num(0.05))
            ys = [A * x * x + B * x + C for x in xs]
            W.assume(abs(ys[1]) >= W.num(0.05))
            xv, yv = V(xs[0], ys[0], xs[1], ys[1], xs[2], ys[2])
            if not W.symbolic:
                W.close("vertex position of an exact parabola", xv, -B / (2 * A), rtol=1e-4, atol=1e-3)
                W.close("vertex height of an exact parabola", yv, C - B * B / (4 * A), rtol=1e-4, atol=1e-2, scale=max(abs(float(y)) for y in ys))
                return
            W.close("vertex position of an exact parabola", xv, -B / (2 * A))
            W.close("vertex height of an exact parabola", yv, C - B * B / (4 * A))
            return
        ys = [W.real("y%d" % i, lo=-20, hi=20) for i in range(3)]
        W.assume(abs(ys[1]) >= W.num(0.05))
        # second difference bounded away from zero
        s = (ys[0] - ys[1]) * (xs[1] - xs[2]) - (ys[1] - ys[2]) * (xs[0] - xs[1])
        W.assume(abs(s) >= W.num(0.05))
        xv, yv = V(xs[0], ys[0], xs[1], ys[1], xs[2], ys[2])
        # slope and value of the interpolating parabola at the reported vertex
        d01, d12 = (ys[0] - ys[1]) / (xs[0] - xs[1]), (ys[1] - ys[2]) / (xs[1] - xs[2])
        d = (d01 - d12) / (xs[0] - xs[2])
        W.close("parabola is stationary at the vertex", xv, (xs[0] + xs[1]) / 2 - d01 / (2 * d), rtol=1e-6, atol=1e-6)
        W.close("height is the parabola's value at the vertex", yv, ys[0] + d01 * (xv - xs[0]) + d * (xv - xs[0]) * (xv - xs[1]), rtol=1e-4, atol=1e-4,
                scale=None if W.symbolic else max(1, abs(float(d01 * (xv - xs[0])))))
        return
    if kind == "grid":
        p0 = W.real("phi0", lo=-400, hi=0)
        d = W.real("dphi", lo=0.5, hi=100)
    else:
        p0, d = W.num(-3.0 * (n // 2)), W.num(3.0)
    phi = W.pack([p0 + j * d for j in range(n)])
    a = [W.real("a%d" % j, lo=0.01, hi=50) for j in range(n)]
    if kind == "grid":
        a = [a[j] if j == n // 2 else W.num([1.0, 2.0, 1.5][j % 3]) for j in range(n)]
        W.assume(a[n // 2] > W.num(2.5))
    if nanat is not None:
        a[nanat] = W.nan
    inner = [j for j in range(1, n - 1) if j != nanat]
    k = inner[0]
    for j in inner[1:]:
        if bool(a[j] > a[k]):
            k = j
    flat = False
    if nanat is None or abs(nanat - k) > 1:
        c = a[k - 1] - 2 * a[k] + a[k + 1]
        W.assume(abs(c) > W.num(0.001))
    if kind == "invariance":
        s = W.real("scale", lo=0.1, hi=10)
        sh = W.real("shift", lo=-100, hi=100)
        m1 = measure(W, R, a, phi, n)
        W.assume(W.not_(W.isnan(m1["phiPeakPIfit_rm2"])))
        m2 = measure(W, R, a, phi + sh, n)
        if not bool(W.isnan(m2["phiPeakPIfit_rm2"])):
            W.close("shifting the depth axis shifts the peak", m2["phiPeakPIfit_rm2"], m1["phiPeakPIfit_rm2"] + sh, atol=1e-5)
            W.close("shifting the depth axis keeps the amplitude", m2["ampPeakPIfit"], m1["ampPeakPIfit"])
        m3 = measure(W, R, [x * s for x in a], phi, n)
        if not bool(W.isnan(m3["phiPeakPIfit_rm2"])):
            W.close("rescaling keeps the depth", m3["phiPeakPIfit_rm2"], m1["phiPeakPIfit_rm2"], atol=1e-5)
            W.close("rescaling scales the amplitude", m3["ampPeakPIfit"], m1["ampPeakPIfit"] * s)
        return
    m = measure(W, R, a, phi, n)
    if nanat is not None and abs(nanat - k) <= 1:
        W.check("no fit through a flagged channel", W.isnan(m["ampPeakPIfit"]))
        return
    off, amp = vertex(a[k - 1], a[k], a[k + 1])
    pv = phi[k] + d * off
    out = W.or_(abs(pv) > abs(phi[0]), False) if False else None
    far = W.and_(abs(pv) > abs(phi[0]), abs(pv) > abs(phi[n - 1]))
    if not W.symbolic and min(abs(abs(pv) - abs(phi[0])), abs(abs(pv) - abs(phi[n - 1]))) < 1e-6 * abs(pv):
        W.skip()
    if bool(far):
        W.check("vertex outside the depth range is reported as NaN", W.and_(W.isnan(m["phiPeakPIfit_rm2"]), W.isnan(m["ampPeakPIfit"])))
        return
    W.close("fitted depth is the parabola vertex at the highest interior channel", m["phiPeakPIfit_rm2"], pv, rtol=1e-7, atol=1e-6)
    W.close("fitted amplitude is the vertex height", m["ampPeakPIfit"], amp, rtol=1e-6)
    inside = W.and_(pv >= phi[0], pv <= phi[n - 1])
    if bool(inside):
        W.close("reported peak index is the vertex position in channels", m["indxPeakPIfit"], k + off, rtol=1e-6, atol=1e-5)
