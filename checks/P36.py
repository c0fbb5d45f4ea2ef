"""Bandwidth-depolarisation synthesis: the channel operator, its adjoint, the noise and sensitivity that follow, and what the tools report."""
import types

from .P10 import vertex
from .P11 import mod180
from .P28 import C, record
from .lib import quiet, total, wmean

PRELOAD = ["RMtools_1D.rmtools_bwdepol", "RMtools_1D.rmtools_bwpredict", "RMutils.util_misc", "RMutils.util_RM"]
B, PR, U = PRELOAD[:3]
BOUNDS = ("channel operator: every channel edge pair, Faraday depth of either sign and zero, initial angle and intensity symbolic; synthesis: 2 or 3 channels at fixed frequencies (rising or falling), 1D, 2D or 3D data with "
          "one or two pixels, any operator values, any voxels flagged, symbolic weights (or flagged, or none), widths symbolic, uniform or absent, 2 or 3 depths; RMSF on padded axes; peak of 5 depths; tools: 5 to 8 column tables")
ASSUME = ["erf is arbitrary but follows its definition (derivative 2/sqrt(pi) exp(-z^2)); beyond the operator check the operator itself is an arbitrary function of width, frequency and depth",
          "the Stokes I fit, the complexity measurement, the RMSF fit and the table files are subjects of P12-P15, P25, P05 and P31: here arbitrary results whose inputs are checked", "plots are not examined"]
FREQS = {2: [(1.0e9, 1.25e9), (1.5e9, 1.25e9)], 3: [(1.0e9, 1.25e9, 1.5e9), (1.75e9, 1.25e9, 1.0e9)]}


def configs(tier):
    q = tier == "quick"
    out = []
    for fn in ("rotation_operator", "analytical_chan_pol"):
        for sg in ("+", "-", "0"):
            out.append(dict(name="operator-%s%s" % (fn, sg), args=dict(kind="operator", fn=fn, sg=sg), witnesses=4, feas_ms=500))
    for dims in ("1", "2", "22", "212"):
        for wt in ("given", "none", "nan"):
            for wd in ("array", "one", "none"):
                if q and (dims != "1" and (wt != "given" or wd != "array")):
                    continue
                out.append(dict(name="adjoint-%s-%s-%s" % (dims, wt, wd), args=dict(kind="adjoint", dims=dims, wt=wt, wd=wd), witnesses=4, feas_ms=500))
    for m in (2, 3) if q else (2, 3, 4):
        for fit in (True, False):
            out.append(dict(name="rmsf-%d-%s" % (m, "fit" if fit else "nofit"), args=dict(kind="rmsf", m=m, fit=fit), witnesses=4, feas_ms=500))
    for k in ("amp", "sens", "noise", "phase"):
        out.append(dict(name="peak-" + k, args=dict(kind="peak", what=k), witnesses=6, feas_ms=200, timeout_ms=8000))
    for lay in (5, 6, 7, 8):
        for wt in ("variance", "uniform"):
            out.append(dict(name="run-%d-%s" % (lay, wt), args=dict(kind="run", lay=lay, wt=wt), witnesses=6, feas_ms=500))
    for wd in (False, True):
        for form in ("default", "given", "tool"):
            out.append(dict(name="predict-%s-%s" % ("widths" if wd else "nowidths", form), args=dict(kind="predict", wd=wd, form=form), witnesses=4, feas_ms=500))
    out.append(dict(name="tool", args=dict(kind="tool"), witnesses=10))
    return out


# ---- channel operator ---------------------------------------------------------
class Dual:
    """value and derivative with respect to one channel edge"""
    __array_ufunc__ = None

    def __init__(self, v, d):
        self.v, self.d = v, d

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x, 0.0)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.v + o.v, self.d + o.d)

    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __sub__(self, o):
        return self + (-Dual.of(o))

    def __rsub__(self, o):
        return Dual.of(o) + (-self)

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        r = self.v / o.v
        return Dual(r, (self.d - r * o.d) / o.v)

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __pow__(self, k):
        k = int(k)
        r = self
        for _ in range(abs(k) - 1):
            r = r * self
        return r if k > 0 else 1.0 / r


class Calc:
    """numpy for numbers and duals"""

    def __init__(self, W):
        self._w, self._np = W, W.np

    def __getattr__(self, k):
        f = getattr(self._np, k)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            if any(isinstance(x, Dual) for x in a):
                raise NotImplementedError("np." + k + " of a dual number")
            return f(*a, **kw)
        return g

    def exp(self, x):
        if not isinstance(x, Dual):
            return self._np.exp(x)
        e = self._np.exp(x.v)
        return Dual(e, e * x.d)

    def sqrt(self, x):
        if not isinstance(x, Dual):
            return self._np.sqrt(x)
        r = self._np.sqrt(x.v)
        return Dual(r, x.d / (2 * r))

    def power(self, x, k):
        return x ** k if isinstance(x, Dual) else self._np.power(x, k)

    def square(self, x):
        return x * x

    def multiply(self, x, y):
        return x * y

    def divide(self, x, y):
        return x / y

    true_divide = divide

    def subtract(self, x, y):
        return x - y

    def add(self, x, y):
        return x + y


def operator(W, fn, sg):
    M = W.mod(B)
    np = Calc(W)
    known = []

    def erf(z):
        if isinstance(z, Dual):
            return Dual(erf(z.v), 2 / W.np.sqrt(W.pi) * W.np.exp(-(z.v * z.v)) * z.d)
        if not W.symbolic:
            import scipy.special
            return scipy.special.erf(z)
        for k, r in known:
            if k == repr(z):
                return r
        known.append((repr(z), W.cplx(W.real("erf_re%d" % len(known), lo=-9, hi=9), W.real("erf_im%d" % len(known), lo=-9, hi=9))))
        return known[-1][1]

    W.patch(M, "np", np)
    W.patch(M, "sp", types.SimpleNamespace(special=types.SimpleNamespace(erf=erf)))
    W.patch(M, "erf", erf)
    W.patch(M, "special", types.SimpleNamespace(erf=erf))
    lo = W.real("low_edge", lo=1e8, hi=9e9)
    hi = lo + W.real("width", lo=1e4, hi=1e9)
    phi = W.num(0.0) if sg == "0" else W.real("phi", lo=0.01, hi=1000)
    if sg == "-":
        phi = -phi
    p, xi = W.num(1.0), W.num(0.0)
    if fn == "analytical_chan_pol" and bool(W.bool("own source")):
        p, xi = W.real("p", lo=0.1, hi=5), W.real("xi", lo=-3, hi=3)

    def R(width, centre):
        if fn == "rotation_operator":
            return M.rotation_operator(width, centre, phi)
        return M.analytical_chan_pol(centre, width, phi, xi_knot=xi, p=p)
    w, c = hi - lo, (lo + hi) / 2
    src = p * W.cis(2 * xi)
    if sg == "0":
        r = R(w, c)
        W.closes("no rotation at zero depth", [r.real, r.imag], [src.real, src.imag], rtol=1e-6, atol=1e-6)
        return
    # width * R is the integral of exp(2 i phi c^2/f^2) over the channel: by its derivatives with the channel edges and by vanishing for no channel (odd in the width)
    for nm, dw, dc, e, s in (("upper", 1.0, 0.5, hi, 1), ("lower", -1.0, 0.5, lo, -1)):
        W_ = Dual(w, W.num(dw))
        r = W_ * R(W_, Dual(c, W.num(dc)))
        want = s * src * W.cis(2 * phi * (W.num(C) / e) ** 2)
        W.closes("derivative with the %s edge" % nm, [r.d.real, r.d.imag], [want.real, want.imag], rtol=1e-6, atol=1e-6)
    a, b = R(w, c), R(-w, c)
    W.closes("integral vanishes with the channel", [a.real, a.imag], [b.real, b.imag], rtol=1e-6, atol=1e-6)


# ---- synthesis ----------------------------------------------------------------
class Operator:
    """an arbitrary function of channel width, frequency and depth"""

    def __init__(self, W, shares=None):
        self.w, self.known, self.shares = W, [], shares

    def one(self, *key):
        W = self.w
        if self.shares and len(key) == 3:      # share of a channel times an arbitrary positive function of depth
            s = [z for f, z in self.shares if abs(float(key[1]) / f - 1) < 1e-9][0]
            return s * self.one(key[2]).real
        for k, r in self.known:
            if repr(k) == repr(key) if W.symbolic else all(abs(float(a) - float(b)) <= 1e-9 * abs(float(b)) + 1e-12 for a, b in zip(k, key)):
                return r
        n = len(self.known)
        if self.shares:
            v = W.cplx(W.real("rot%d" % n, lo=0.01, hi=1), W.num(0.0))
        else:
            v = W.cplx(W.real("rot_re%d" % n, lo=-1, hi=1), W.real("rot_im%d" % n, lo=-1, hi=1))
        self.known.append((key, v))
        return self.known[-1][1]

    def __call__(self, width, freq, phi):
        np = self.w.np
        a = [np.asarray(x) for x in (width, freq, phi)]
        nd = max(x.ndim for x in a)
        sh = [tuple([1] * (nd - x.ndim)) + tuple(x.shape) for x in a]
        out = tuple(max(s[i] for s in sh) for i in range(nd))
        fl = [np.reshape(x, (-1,)) for x in a]

        def at(k, ix):
            f = 0
            for i, s in zip(ix, sh[k]):
                f = f * s + (i if s > 1 else 0)
            return fl[k][f]
        ixs = [()]
        for n in out:
            ixs = [ix + (i,) for ix in ixs for i in range(n)]
        v = [self.one(*[at(k, ix) for k in range(3)]) for ix in ixs]
        return v[0] if nd == 0 else np.reshape(self.w.pack(v), out)


def axis(W, m):
    d = W.real("step", lo=1, hi=20)
    return [d * (j - (m - 1) / 2) for j in range(m)]


def conj(z):
    return z.real - 1j * z.imag


def adjoint(W, dims, wt, wd):
    M = W.mod(B)
    np = W.np
    R = Operator(W)
    W.patch(M, "rotation_operator", R)
    n = 3 if dims == "1" else 2
    f = W.pick("frequencies", FREQS[n])
    fa = W.pack([W.num(x) for x in f])
    sh = {"1": (), "2": (2,), "22": (2, 1), "212": (1, 2)}[dims]
    px = 1 if not sh else 2
    Q = [[W.real("Q%d_%d" % (i, p), lo=-2, hi=2, nan=(i, p) in ((0, 0), (1, 1))) for p in range(px)] for i in range(n)]
    Us = [[W.real("U%d_%d" % (i, p), lo=-2, hi=2, nan=(i, p) in ((1, 0), (0, 1))) for p in range(px)] for i in range(n)]
    w = [W.real("w%d" % i, lo=0.1, hi=5, nan=wt == "nan" and i == n - 1) for i in range(n)] if wt != "none" else [W.num(1.0)] * n
    wid = [W.real("width%d" % i, lo=1e5, hi=1e8) for i in range(n)]
    width = dict(array=W.pack(wid), one=wid[0], none=None)[wd]
    if wd != "array":
        wid = [wid[0] if wd == "one" else W.num(f[1] - f[0])] * n
    phi = axis(W, 2 if px > 1 else 3)
    lam0 = W.real("lam0", lo=0.01, hi=0.2) if dims != "212" and bool(W.bool("reference given")) else None
    arr = lambda v: np.reshape(W.pack(v), (n,) + sh)
    bad = [[bool(W.isnan(Q[i][p])) or bool(W.isnan(Us[i][p])) or bool(W.isnan(w[i])) for p in range(px)] for i in range(n)]
    ww = [W.num(0.0) if all(b) else w[i] for i, b in enumerate(bad)]
    if all(all(b) for b in bad):
        W.skip()
    keep = [list(w), [list(r) for r in Q]]
    wa = None if wt == "none" else W.pack(w)
    F, l0, info = M.do_adjoint_rmsynth_planes(fa, arr(Q), arr(Us), W.pack(phi), widths_Hz=width, weightArr=wa, lam0Sq_m2=lam0, log=quiet)
    L = [W.num((C / x) ** 2) for x in f]
    use = [i for i in range(n) if not all(bad[i])]
    if lam0 is None:
        lam0 = wmean(W, [ww[i] for i in use], [L[i] for i in use])
    W.close("reference wavelength", l0, lam0, rtol=1e-9)
    Fr = np.reshape(F, (len(phi), px))
    W.check("axes", tuple(F.shape) == (len(phi),) + tuple(k for k in sh if k > 1))
    for p in range(px):
        ok = [i for i in range(n) if not bad[i][p]]
        for j, ph in enumerate(phi):
            if not ok:
                W.closes("blank pixel", [Fr[j, p].real, Fr[j, p].imag], [W.num(0.0)] * 2)
                continue
            s = total([w[i] * W.cplx(Q[i][p], Us[i][p]) * conj(R.one(wid[i], fa[i], ph)) for i in ok]) * W.cis(2 * ph * lam0) / total([w[i] for i in ok])
            W.closes("F[%d] of pixel %d" % (j, p), [Fr[j, p].real, Fr[j, p].imag], [s.real, s.imag], rtol=1e-6, atol=1e-8)
    if wa is not None:
        W.check("weights of the caller unchanged", all(bool(W.or_(W.isnan(a), W.eq(a, b))) for a, b in zip(list(wa), keep[0])))
    # what follows for noise and sensitivity
    e = [W.real("e%d" % i, lo=0.1, hi=3, nan=i in (0, n - 1) and all(bad[i])) for i in range(n)]
    out = M.adjoint_theory(info, W.pack(e))
    W.closes("depths of the curves", list(out[0]), phi)
    tw = total([w[i] for i in use])
    for j, ph in enumerate(phi):
        r2 = {i: R.one(wid[i], fa[i], ph).real ** 2 + R.one(wid[i], fa[i], ph).imag ** 2 for i in use}
        W.close("sensitivity[%d]" % j, out[1][j], total([w[i] * r2[i] for i in use]) / tw, rtol=1e-6, atol=1e-8)
        W.close("squared noise[%d]" % j, out[2][j] * out[2][j], total([w[i] * w[i] * e[i] * e[i] * r2[i] for i in use]) / tw ** 2, rtol=1e-6, atol=1e-8)


def rmsf(W, m, fit):
    M = W.mod(B)
    np = W.np
    R = Operator(W)
    W.patch(M, "rotation_operator", R)
    W.patch(M, "analytical_chan_pol", lambda f, ban, phi, xi_knot=0, p=1: R(ban, f, phi))
    n = 2
    f = W.pick("frequencies", FREQS[n])
    fa = W.pack([W.num(x) for x in f])
    wid = [W.real("width%d" % i, lo=1e5, hi=1e8) for i in range(n)]
    phi = axis(W, m)
    peak = W.real("peak", lo=-9, hi=9)
    w = [W.real("w%d" % i, lo=0.1, hi=5, nan=i == 0) for i in range(n)]
    gone = [bool(W.bool("flagged1")) and i == 1 for i in range(n)]
    lam0 = W.real("lam0", lo=0.01, hi=0.2)
    ok = [i for i in range(n) if not gone[i] and not bool(W.isnan(w[i]))]
    if not ok:
        W.skip()
    W.assume(W.num(1.0) > 0)
    got = record(W, M, "fit_rmsf", lambda a: types.SimpleNamespace(status=3, params=[W.num(1.0), W.num(0.0), W.num(7.5)]))
    cube, phi2, fw, st = M.bwdepol_get_rmsf_planes(fa, W.pack(wid), W.pack(phi), peak, weightArr=W.pack(w), mskArr=W.pack(gone, "bool"), lam0Sq_m2=lam0, fitRMSF=fit, log=quiet)
    ext = (m + 1) // 2
    d = phi[1] - phi[0]
    want = [phi[0] + d * (k - ext) for k in range(m + 2 * ext)]
    W.check("axes", tuple(phi2.shape) == (len(want),) and tuple(cube.shape) == (len(want),))
    W.closes("depth axis extends by half on each side", list(phi2), want, rtol=1e-9, atol=1e-9)
    tw = total([w[i] for i in ok])
    for k, ph in enumerate(list(phi2)):
        s = total([w[i] * R.one(wid[i], fa[i], peak) * conj(R.one(wid[i], fa[i], ph)) for i in ok]) * W.cis(2 * ph * lam0) / tw
        W.closes("RMSF[%d]" % k, [cube[k].real, cube[k].imag], [s.real, s.imag], rtol=1e-6, atol=1e-8)
    if fit:
        W.check("fitted once on its own axis", len(got) == 1 and tuple(got[0]["xData"].shape) == tuple(got[0]["yData"].shape) == (len(want),))
        W.close("fitted width", np.reshape(fw, (-1,))[0], 7.5)
    else:
        W.close("width", np.reshape(fw, (-1,))[0], 2 * 3 ** 0.5 / abs((C / f[0]) ** 2 - (C / f[1]) ** 2), rtol=1e-6)
        W.check("not fitted", not got)


def peak(W, what):
    M = W.mod(B)
    n, k = 5, 2
    d = W.num(4.0)
    phi = W.pack([(j - 2) * d for j in range(n)])
    lam0, fw = W.real("lam0", lo=0.1, hi=2), W.real("fwhm", lo=1, hi=40)
    s = [W.num(x) for x in (1.0, 0.5, 0.75, 1.0, 1.0)]
    e = [W.num(x) for x in (1.0, 0.5, 0.25, 0.5, 1.0)]
    if what == "sens":
        s[2] = W.real("sens", lo=0.1, hi=1)
    if what == "noise":
        e[2] = W.real("noise", lo=0.01, hi=1)
    ph = [(0.6, 0.8), (-0.28, 0.96), (0.0, -1.0)]
    if what != "phase":
        a = [W.num(0.75), W.real("a", lo=0.5, hi=50) if what == "amp" else W.num(3.0), W.num(0.5)]
        v = [W.cplx(a[i] * ph[i][0], a[i] * ph[i][1]) for i in range(3)]
    else:
        x, y = W.real("re", lo=-9, hi=9), W.real("im", lo=-9, hi=9)
        W.assume(x * x + y * y >= W.num(2.25))
        a = [W.num(1.0), W.sqrt(x * x + y * y), W.num(2.0)]        # equal amplitudes after sensitivity
        s[1], s[3] = W.num(0.5), W.num(1.0)
        v = [W.cplx(W.num(0.6), W.num(0.8)), W.cplx(x, y), W.cplx(W.num(0.0), W.num(-2.0))]
    F = [W.cplx(W.num(0.01), W.num(0.0))] + v + [W.cplx(W.num(0.01), W.num(0.0))]
    am = [a[i] / s[i + 1] for i in range(3)]
    sn = [a[i] / e[i + 1] for i in range(3)]
    W.assume(W.and_(sn[1] >= sn[0] + W.num(0.01), sn[1] >= sn[2] + W.num(0.01), am[1] >= am[0] + W.num(0.01), am[1] >= am[2] + W.num(0.01)))
    lam = [0.25, 0.5, 0.75, 1.0]
    m = M.bwdepol_measure_FDF_parms(W.pack(F), phi, fw, W.pack(s), W.pack(e), dFDF=W.num(77.0), lamSqArr_m2=W.pack(lam), lam0Sq=lam0)
    off, top = vertex(*am)
    W.close("depth of the peak", m["phiPeakPIfit_rm2"], phi[k] + off * d)
    W.close("amplitude corrected for sensitivity", m["ampPeakPIfit"], top)
    da = e[2] / s[2]
    W.close("amplitude error", m["dAmpPeakPIfit"], da)
    snr = top / da
    if not W.symbolic and abs(float(snr) - 5) < 1e-6:
        W.skip()
    W.close("signal-to-noise", m["snrPIfit"], snr)
    W.close("depth error", m["dPhiPeakPIfit_rm2"], fw / (2 * snr))
    W.close("angle error", m["dPolAngleFit_deg"], 180 / W.pi / (2 * snr))
    N = 4.0
    var = total([(x - 0.625) ** 2 for x in lam]) / (N - 1)
    z = m["dPolAngle0Fit_deg"] * W.pi / 180
    W.close("square of the derotated angle error", z * z, N / (4 * (N - 2)) / snr ** 2 * ((N - 1) / N + lam0 * lam0 / W.num(var)), rtol=1e-6)
    eff = m["ampPeakPIfitEff"]
    if bool(snr >= W.num(5.0)):
        W.close("bias correction", eff * eff, top * top - W.num(2.3) * da * da, rtol=1e-6)
    else:
        W.close("no bias correction", eff, top)
    if what == "phase":
        # vertex on the channel: the spectrum there
        W.closes("spectrum at the peak", [m["peakFDFrealFit"], m["peakFDFimagFit"]], [v[1].real, v[1].imag], rtol=1e-6, atol=1e-6)
        A, A0 = m["polAngleFit_deg"], m["polAngle0Fit_deg"]
        ref = mod180(W, W.atan2(v[1].imag, v[1].real) * 90 / W.pi)
        ref0 = mod180(W, A - m["phiPeakPIfit_rm2"] * lam0 * 180 / W.pi)
        if W.symbolic:
            W.close("angle", A, mod180(W, W.atan2(m["peakFDFimagFit"], m["peakFDFrealFit"]) * 90 / W.pi))
            W.close("intrinsic angle", A0, ref0)
        else:
            W.close("angle", abs((A - ref + 90) % 180 - 90), 0.0, atol=1e-4)
            W.close("intrinsic angle", abs((A0 - ref0 + 90) % 180 - 90), 0.0, atol=1e-4)


# ---- tools --------------------------------------------------------------------
def run(W, lay, wt):
    M = W.mod(B)
    Um = W.mod(U)
    np = W.np
    n = 2
    f = list(W.pick("frequencies", FREQS[n]))
    fa = W.pack([W.num(x) for x in f])
    I = [W.real("I%d" % i, lo=0.5, hi=4) for i in range(n)]
    Q = [W.real("Q%d" % i, lo=-1, hi=1) for i in range(n)]
    Us = [W.real("U%d" % i, lo=-1, hi=1) for i in range(n)]
    wid = [W.real("width%d" % i, lo=1e5, hi=1e8) for i in range(n)]
    dI = [W.num(0.125), W.num(0.25)]
    e = [W.real("e%d" % i, lo=0.1, hi=1) for i in range(n)]
    dQ, dU = [x * 0.75 for x in e], [x * 1.25 for x in e]
    cols = [fa] + ([W.pack(wid)] if lay in (6, 8) else []) + ([W.pack(I)] if lay > 6 else []) + [W.pack(Q), W.pack(Us)] + ([W.pack(dI)] if lay > 6 else []) + [W.pack(dQ), W.pack(dU)]
    data = np.array(cols)
    noI = lay < 7 or bool(W.bool("ignore Stokes I"))
    flag = W.pick("flagged", ["none", "q", "u"])
    q = [Q[0] if flag != "q" else W.num(float("nan")), Q[1]]
    u = [Us[0], Us[1] if flag != "u" else W.num(float("nan"))]
    ok = [i for i in range(n) if not (flag == "q" and i == 0 or flag == "u" and i == 1)]
    ref = W.num(1.25e9)
    i0 = W.real("model_I", lo=0.5, hi=3)
    fit = Um.FitResult(params=W.pack([W.num(0.0)] * 3 + [W.num(0.0), i0 * 0.5, i0]), fitStatus=1, chiSq=W.num(2.5), chiSqRed=W.num(1.25), AIC=W.num(1.0), polyOrd=1, nIter=3,
                       reference_frequency_Hz=ref, dof=2, pcov=W.pack([[W.num(0.0)] * 6] * 6), perror=W.pack([W.num(0.0)] * 6), fit_function="linear")
    fits = record(W, M, "create_frac_spectra", lambda a: (W.pack([i0] * n), W.pack(q), W.pack(u), W.pack(dQ), W.pack(dU), fit))
    d = W.real("dphi", lo=1, hi=20)
    phi = [-d, W.num(0.0), d]
    F = [W.cplx(W.num(0.25), W.num(0.0)), W.cplx(W.real("Fr", lo=0.5, hi=2), W.real("Fi", lo=-2, hi=2)), W.cplx(W.num(0.0), W.num(0.25))]
    lam0 = W.real("lam0", lo=0.03, hi=0.09)
    synth = record(W, M, "do_adjoint_rmsynth_planes", lambda a: (W.pack(F), lam0, "vars"))
    sens, noise = W.pack([W.num(0.5), W.num(0.75), W.num(1.0)]), W.pack([W.num(0.25), W.num(0.25), W.num(0.125)])
    theory = record(W, M, "adjoint_theory", lambda a: [W.pack(phi), sens, noise])
    RM = W.pack([W.cplx(W.num(0.5), W.num(0.1)), W.cplx(W.num(1.0), W.num(0.2)), W.cplx(W.num(0.5), W.num(0.3)), W.cplx(W.num(0.25), W.num(0.4)), W.cplx(W.num(0.25), W.num(0.5))])
    phi2 = W.pack([W.num(2.0 * x) for x in range(-2, 3)])
    planes = record(W, M, "bwdepol_get_rmsf_planes", lambda a: (RM, phi2, W.num(6.5), 1))
    pk = dict(ampPeakPIfit=W.real("amp", lo=0.1, hi=5), polAngle0Fit_deg=W.num(30.0), phiPeakPIfit_rm2=W.real("peak", lo=-9, hi=9), dAmpPeakPIfit=W.num(0.5), ampPeakPIfitEff=W.num(1.5),
              polAngleFit_deg=W.num(1.0), dPolAngleFit_deg=W.num(2.0), dPolAngle0Fit_deg=W.num(3.0), dPhiPeakPIfit_rm2=W.num(4.0), snrPIfit=W.num(5.0), dFDFcorMAD=W.num(6.0))
    meas = record(W, M, "bwdepol_measure_FDF_parms", lambda a: dict(pk))
    comp = record(W, M, "measure_qu_complexity", lambda a: ({"sigmaAddC": W.num(0.75), "dSigmaAddPlusC": W.num(0.1), "dSigmaAddMinusC": W.num(0.2)}, {}))
    lines = []
    m, a = M.run_adjoint_rmsynth(data, polyOrd=2, phiMax_radm2=d, dPhi_radm2=d, weightType=wt, noStokesI=noI and lay > 6, fitRMSF=bool(W.bool("fit")), nBits=64,
                                 verbose=bool(W.bool("verbose")), log=lambda *x, **k: lines.append(x), units="mJy")
    W.check("each step once", [len(x) for x in (fits, synth, theory, planes, meas, comp)] == [1] * 6)
    c = fits[0]
    unit = W.num(1e9) if bool(c["freqArr"][0] > W.num(1e6)) else W.num(1.0)
    W.closes("fit: frequencies", [x / unit for x in c["freqArr"]], [x / 1e9 for x in f], rtol=1e-9)
    for k, v in (("QArr", Q), ("UArr", Us), ("dQArr", dQ), ("dUArr", dU), ("IArr", [W.num(1.0)] * n if noI else I), ("dIArr", [W.num(0.0)] * n if noI else dI)):
        W.closes("fit: " + k, list(c[k]), v)
    W.check("fit: order", c["polyOrd"] == 2)
    wts = [W.num(1.0)] * n if wt == "uniform" else [1 / ((dQ[i] + dU[i]) / 2) ** 2 for i in range(n)]
    c = synth[0]
    W.closes("synthesis: frequencies", [x / 1e9 for x in c["freqArr_Hz"]], [x / 1e9 for x in f])
    W.closes("synthesis: depths", list(c["phiArr_radm2"]), phi, rtol=1e-9, atol=1e-9)
    W.closes("synthesis: weights", list(c["weightArr"]), wts, rtol=1e-9)
    for k, v in (("dataQ", q), ("dataU", u)):
        W.check("synthesis: " + k, all(bool(W.or_(W.eq(x, y), W.and_(W.isnan(x), W.isnan(y)))) for x, y in zip(c[k], v)))
    for c in (synth[0], planes[0]):
        if lay in (6, 8):
            W.closes("channel widths", list(np.reshape(c["widths_Hz"], (-1,))), wid)
        else:
            W.check("widths from the spacing", c["widths_Hz"] is None or all(bool(W.eq(abs(x), W.num(abs(f[1] - f[0])))) for x in list(np.reshape(np.asarray(c["widths_Hz"]), (-1,)))))
    W.check("theory of that synthesis", theory[0]["adjoint_vars"] == "vars")
    W.closes("theory: errors", list(theory[0]["dQUArr"]), [(dQ[i] + dU[i]) / 2 for i in range(n)])
    c = planes[0]
    W.closes("RMSF: depths", list(c["phiArr_radm2"]), phi)
    W.close("RMSF: source depth", c["peak_rm"], phi[1])
    W.close("RMSF: reference wavelength", c["lam0Sq_m2"], lam0)
    for i in range(n):
        x = c["weightArr"][i]
        out = bool(c["mskArr"][i]) or bool(W.isnan(x)) or bool(W.eq(x, W.num(0.0)))
        W.check("RMSF: channel %d" % i, out == (i not in ok))
        if i in ok:
            W.close("RMSF: weight %d" % i, x, wts[i], rtol=1e-9)
    f0 = m["freq0_Hz"]
    W.close("reference frequency", (f0 / 1e9) ** 2 * lam0, (C / 1e9) ** 2, rtol=1e-6)
    I0 = i0 + i0 * 0.5 * (f0 / ref)
    W.close("Stokes I there", m["Ifreq0"], I0, rtol=1e-6)
    for j in range(3):
        z, g, h = F[j] * I0, meas[0]["FDF"][j], a["dirtyFDF"][j]
        W.closes("measured spectrum", [g.real, g.imag], [z.real, z.imag], rtol=1e-6, atol=1e-9)
        W.closes("saved spectrum", [h.real, h.imag], [z.real / sens[j], z.imag / sens[j]], rtol=1e-6, atol=1e-9)
    c = meas[0]
    W.check("measured with the curves", all(bool(W.eq(x, y)) for k, v in (("adjoint_sens", sens), ("adjoint_noise", noise), ("phiArr", W.pack(phi))) for x, y in zip(c[k], v)))
    W.closes("measured with", [c["fwhmRMSF"], c["lam0Sq"]], [6.5, lam0])
    W.closes("measured with wavelengths", list(c["lamSqArr_m2"]), [(C / x) ** 2 for x in f], rtol=1e-9)
    for k, v in pk.items():
        W.close("reported " + k, m[k], v)
    W.close("fractional polarisation", m["fracPol"], pk["ampPeakPIfit"] / I0, rtol=1e-6)
    c = comp[0]
    W.closes("complexity: model", [c["fracPol"], c["psi0_deg"], c["RM_radm2"]], [m["fracPol"], pk["polAngle0Fit_deg"], pk["phiPeakPIfit_rm2"]])
    W.check("channels", m["N_channels"] == len(ok) and m["units"] == "mJy")
    W.closes("frequency range", [m["min_freq"] / 1e9, m["max_freq"] / 1e9], [min(f[i] for i in ok) / 1e9, max(f[i] for i in ok) / 1e9])
    W.close("median channel width", abs(m["median_channel_width"]), (wid[0] + wid[1]) / 2 if lay in (6, 8) else W.num(abs(f[1] - f[0])), rtol=1e-9)
    W.closes("reported: widths, reference", [m["fwhmRMSF"], m["lam0Sq_m2"], m["sigmaAddC"]], [6.5, lam0, 0.75])
    W.close("median error", m["dQU"], (dQ[0] + dU[0] + dQ[1] + dU[1]) / 4)
    W.check("arrays", all(bool(W.eq(x, y)) for x, y in zip(list(a["phi2Arr_radm2"]) + list(a["RMSFArr"]), list(phi2) + list(RM))))
    W.closes("depths", list(a["phiArr_radm2"]), phi)
    W.closes("saved weights", list(a["weightArr"]), wts, rtol=1e-9)
    W.closes("saved frequencies", [x / 1e9 for x in a["freqArr_Hz"]], [x / 1e9 for x in f])


def predict(W, wd, form):
    if form == "tool":
        d_ = W.files()
    P = W.mod(PR)
    M = W.mod(B)
    n = 2
    f = W.pick("frequencies", FREQS[n])
    R = Operator(W, [(f[0], W.cplx(W.num(0.6), W.num(0.0))), (f[1], W.cplx(W.num(0.0), W.num(0.8)))])
    W.patch(M, "rotation_operator", R)
    L = [(C / x) ** 2 for x in f]
    gap = abs(L[0] - L[1])
    wid = [W.num(2.0e6), W.num(5.0e6)] if wd else None
    step, mx = 2 * 3 ** 0.5 / gap, 2 * 3 ** 0.5 / gap
    kw = {}
    ns = 1.0
    if form == "given":
        step = W.real("step", lo=10, hi=20)
        mx = step * 2.5
        kw = dict(phiMax_radm2=mx, dPhi_radm2=step)
    else:
        ns = W.pick("samples", [1.0, 2.0, 4.0])
    if form == "tool":
        W.put_text(d_ + "/f.dat", "".join((repr(x) + (" " + repr(float(y)) if wd else "") + "\n") for x, y in zip(f, (2.0e6, 5.0e6))))
        shown = []
        W.patch(P, "plot_adjoint_info", lambda info, units="": shown.append(info))
        W.patch(P, "plt", types.SimpleNamespace(savefig=lambda *a, **k: None, show=lambda *a, **k: None))
        args = [d_ + "/f.dat", "-s", str(ns)] + (["-f", "x.png"] if bool(W.bool("to file")) else [])
        lim = bool(W.bool("own limit"))
        if lim:
            args += ["-l", "60.0"]
            mx = 60.0
        W.argv(PR, *args)
        W.check("shown once", len(shown) == 1)
        info = shown[0]
    else:
        if form == "default":
            kw = dict(nSamples=ns)
        info = P.bwdepol_compute_predictions(W.pack([W.num(x) for x in f]), widths_Hz=W.pack(wid) if wd else None, **kw)
    phi, sens, noise = info
    step = step / ns
    k = 1 if form != "given" else 2
    m = 3 if form == "given" else int((mx + 1e-6) / step + 1e-9) + 1
    W.check("number of depths", tuple(phi.shape) == (m,))
    W.closes("depths", list(phi), [step * j for j in range(m)], rtol=1e-6, atol=1e-9)
    ww = wid or [W.num(f[1] - f[0])] * n
    r2 = [[R.one(ww[i], W.num(f[i]), p).real ** 2 + R.one(ww[i], W.num(f[i]), p).imag ** 2 for i in range(n)] for p in list(phi)]
    for j in range(m):
        W.close("sensitivity[%d]" % j, sens[j], total(r2[j]) / n, rtol=1e-6, atol=1e-9)
    top = None
    for j in range(m):
        # relative noise: squares in the ratio of the summed operator powers
        W.close("noise ratio[%d]" % j, noise[j] * noise[j] * total(r2[0]), noise[0] * noise[0] * total(r2[j]), rtol=1e-6, atol=1e-9)
        W.check("noise at most one", noise[j] <= W.num(1.0 + 1e-9))
    W.check("largest noise is one", W.or_(*[noise[j] >= W.num(1.0 - 1e-9) for j in range(m)]))


def tool(W):
    d = W.files()
    M = W.mod(B)
    lay = W.pick("columns", [5, 8])
    t = [[W.real("t%d_%d" % (i, j), lo=-2, hi=2) for j in range(lay)] for i in range(2)]
    W.np.savetxt(d + "/a.b.dat", W.pack(t))
    m = {"ampPeakPIfit": W.real("amp", lo=0, hi=3), "units": "K"}
    a = {"phiArr_radm2": W.pack([W.num(-1.0), W.num(0.0), W.num(1.0)]), "phi2Arr_radm2": W.pack([W.num(x) for x in (-2.0, -1.0, 0.0, 1.0, 2.0)]),
         "freqArr_Hz": W.pack([W.num(1e9), W.num(2e9)]), "weightArr": W.pack([W.num(1.0), W.num(0.5)]),
         "dirtyFDF": W.pack([W.cplx(W.real("Fr%d" % i, lo=-1, hi=1), W.num(0.5 * i)) for i in range(3)]), "RMSFArr": W.pack([W.cplx(W.real("Rr%d" % i, lo=-1, hi=1), W.num(0.5 * i)) for i in range(5)])}
    runs = record(W, M, "run_adjoint_rmsynth", lambda x: (dict(m), dict(a)))
    v = W.pick("options", ["none", "all", "save"])
    args = {"none": [], "all": ["-t", "-l", "50.0", "-d", "2.5", "-s", "4", "-w", "uniform", "-o", "3", "-i", "-U", "K", "-S"], "save": ["-S"]}[v]
    W.argv(B, d + "/a.b.dat", *args)
    W.check("one run", len(runs) == 1)
    c = runs[0]
    W.check("columns", tuple(c["data"].shape) == (lay, 2))
    for i in range(2):
        W.closes("table", list(c["data"][:, i]), t[i], rtol=1e-9, atol=1e-12)
    exp = dict(polyOrd=2, phiMax_radm2=None, dPhi_radm2=None, nSamples=10, weightType="variance", fitRMSF=True, noStokesI=False, showPlots=False, verbose=False, units="Jy/beam", nBits=64)
    if v == "all":
        exp.update(polyOrd=3, phiMax_radm2=50.0, dPhi_radm2=2.5, nSamples=4, weightType="uniform", fitRMSF=False, noStokesI=True, units="K")
    for k, e in exp.items():
        W.check("option " + k, c[k] is e if e is None else c[k] == e)
    if v == "none":
        W.check("nothing saved", W.listdir() == ["a.b.dat"])
        return
    for fn, x, y in (("FDFdirty", "phiArr_radm2", "dirtyFDF"), ("RMSF", "phi2Arr_radm2", "RMSFArr")):
        rows = [r.split() for r in W.get_text(d + "/a.b_" + fn + ".dat").strip().split("\n")]
        W.check(fn + " rows", len(rows) == len(list(a[x])))
        for r, p, z in zip(rows, a[x], a[y]):
            W.closes("saved " + fn, [W.parse(s) for s in r], [p, z.real, z.imag], rtol=1e-9, atol=1e-12)
    W.close("saved summary", W.get_json(d + "/a.b_RMsynth.json")["ampPeakPIfit"], m["ampPeakPIfit"], rtol=1e-9)


def harness(W, kind, **k):
    return dict(operator=operator, adjoint=adjoint, rmsf=rmsf, peak=peak, run=run, predict=predict, tool=tool)[kind](W, **k)
