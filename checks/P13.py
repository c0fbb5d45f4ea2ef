"""Stokes I models: evaluation, and change of reference frequency (values, parameters, errors)."""
from .lib import total

PRELOAD = ["RMutils.util_misc"]
BOUNDS = ("linear and log models with 1..6 coefficients, 3 frequencies; every coefficient, frequency and reference frequency symbolic; symbolic covariance "
          "(any symmetric 6x6 giving non-negative variances) with concrete coefficients for the error propagation")
ASSUME = ["frequencies and reference frequencies positive", "log model flux coefficient non-zero for the error propagation"]


def configs(tier):
    out = []
    for fn in ("linear", "log"):
        for n in (6, 3, 1) if tier == "quick" else (6, 5, 4, 3, 2, 1):
            out.append(dict(name="eval-%s-%d" % (fn, n), args=dict(kind="eval", fn=fn, n=n), timeout_ms=8000))
        out.append(dict(name="rescale-%s" % fn, args=dict(kind="rescale", fn=fn, n=6), timeout_ms=8000))
        out.append(dict(name="errors-%s" % fn, args=dict(kind="err", fn=fn, n=6), timeout_ms=8000))
    return out


def model(W, fn, p, x):
    """coefficients highest power first"""
    p = [W.num(0.0)] * (6 - len(p)) + list(p)
    if fn == "linear":
        return total([p[i] * x ** (5 - i) for i in range(6)])
    l = W.log10(x)
    e = total([p[i] * l ** (4 - i) for i in range(5)])
    return p[5] * W.exp(e * W.log(x))


def fit(W, M, fn, p, ref, cov=None):
    return M.FitResult(params=p, fitStatus=1, chiSq=1.0, chiSqRed=1.0, AIC=1.0, polyOrd=2, nIter=3, reference_frequency_Hz=ref, dof=2,
                       pcov=W.np.zeros((6, 6)) if cov is None else cov, perror=W.np.zeros(6), fit_function=fn)


def harness(W, kind, fn, n):
    M = W.mod("RMutils.util_misc")
    lim = 3 if fn == "linear" else 1.5
    p = [W.real("p%d" % i, lo=-lim, hi=lim) for i in range(n)]
    ref = W.real("ref", lo=0.6, hi=2)
    f = [W.real("f%d" % i, lo=0.5, hi=3) for i in range(3)]
    if kind == "eval":
        got = M.calculate_StokesI_model(fit(W, M, fn, W.pack(p), ref), W.pack(f))
        for i in range(3):
            W.close("model value [%d]" % i, got[i], model(W, fn, p, f[i] / ref), rtol=1e-9, atol=1e-10)
        return
    new = W.real("newref", lo=0.6, hi=2)
    if kind == "rescale":
        old = fit(W, M, fn, W.pack(p), ref)
        r = M.renormalize_StokesI_model(old, new)
        W.close("new reference frequency", r.reference_frequency_Hz, new)
        W.check("same kind of model", r.fit_function == fn)
        got = M.calculate_StokesI_model(r, W.pack(f))
        for i in range(3):
            W.close("value unchanged [%d]" % i, got[i], model(W, fn, p, f[i] / ref), rtol=1e-7, atol=1e-8)
        for k in ("fitStatus", "chiSq", "chiSqRed", "AIC", "polyOrd", "nIter", "dof"):
            W.check("%s kept" % k, getattr(r, k) == getattr(old, k))
        return
    # error propagation: perror_i^2 = (J C J^T)_ii
    p = [W.num(v) for v in (0.5, -0.25, 1.0, 0.75, -1.5)] + [W.num(0.0)]
    p[5] = W.real("flux", lo=0.2, hi=4)
    C = [[None] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i, 6):
            C[i][j] = C[j][i] = W.real("c%d%d" % (i, j), lo=0 if i == j else -2, hi=2)
    x = new / ref
    l = W.log10(x)
    one, zero = W.num(1.0), W.num(0.0)
    if fn == "linear":
        J = [[x ** (5 - i) if i == j else zero for j in range(6)] for i in range(6)]
    else:
        from math import comb
        # slope coefficients: coefficient of log(f/ref)^(4-i) after the shift log(f/ref) = log(f/new) + l
        J = [[zero] * 6 for _ in range(6)]
        for i in range(5):
            for j in range(i + 1):
                # old power of L in the exponent (5-j including the outer log), new power 5-i
                J[i][j] = comb(5 - j, 5 - i) * l ** (i - j)
        ten = W.log(W.num(10.0))
        g2 = p[5] * W.exp(ten * total([p[j] * l ** (5 - j) for j in range(5)]))
        for j in range(5):
            J[5][j] = g2 * ten * l ** (5 - j)
        J[5][5] = g2 / p[5]
    var = [total([J[i][a] * J[i][b] * C[a][b] for a in range(6) for b in range(6)]) for i in range(6)]
    scale = g2 * g2 if fn == "log" else one
    r = M.renormalize_StokesI_model(fit(W, M, fn, W.pack(p), ref, W.pack(C)), new)
    for i in range(6):
        if not W.symbolic and float(var[i]) < 1e-9:
            continue
        if W.symbolic:
            W.assume(var[i] >= W.num(0.0))
        e = r.perror[i]
        W.close("first-order error of coefficient %d" % (5 - i), e * e, var[i], rtol=1e-6, atol=1e-9)
        W.check("error %d is not negative" % (5 - i), e >= W.num(0.0))
