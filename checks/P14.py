"""Fractional spectra and the fit-status flags."""
from .lib import total

PRELOAD = ["RMutils.util_misc"]
BOUNDS = ("3 channels with Q, U and their errors symbolic (every NaN pattern of Q, U, dQ, dU), supplied Stokes I models any value including zero and NaN; "
          "fitted models linear in frequency with symbolic slope and constant (as the optimiser might return), symbolic Stokes I errors; optimiser failure at every order")
ASSUME = ["the optimiser (mpfit) is replaced by one that may return any parameters or raise; frequencies fixed; fitted models not within 1e-6 of zero at a channel"]

F = [0.9, 1.0, 1.25]


def configs(tier):
    out = []
    for n in (2, 3):
        out.append(dict(name="given-%d" % n, args=dict(kind="given", n=n, fn="log", order=2), max_paths=8000, witnesses=10))
    out.append(dict(name="fit-linear", args=dict(kind="fit", n=3, fn="linear", order=1), max_paths=8000, witnesses=10))
    out.append(dict(name="fit-log", args=dict(kind="fit", n=3, fn="log", order=0), max_paths=8000, witnesses=10))
    out.append(dict(name="fit-auto", args=dict(kind="fit", n=3, fn="linear", order=-1), max_paths=8000, witnesses=10))
    for order in (0, 2, -2):
        out.append(dict(name="failure-order%d" % order, args=dict(kind="fail", n=3, fn="log", order=order), max_paths=8000))
    return out


class MP:
    pass


def frac(W, label, got, x, m):
    """x/m where that is finite, else NaN"""
    bad = W.or_(W.isnan(x), W.isnan(m), W.eq(m, W.num(0.0)))
    if bool(bad):
        W.check(label + " is NaN where undefined", W.isnan(got))
    else:
        W.close(label, got, x / m)


def harness(W, kind, n, fn, order):
    M = W.mod("RMutils.util_misc")
    np = W.np
    nan_all = kind == "given"
    f = W.pack([W.num(x * 1e9) for x in F[:n]])
    Q = [W.real("Q%d" % i, lo=-3, hi=3, nan=nan_all) for i in range(n)]
    U = [W.real("U%d" % i, lo=-3, hi=3, nan=(i == 0)) for i in range(n)]
    dQ = [W.real("dQ%d" % i, lo=0.1, hi=1, nan=(i == 0)) for i in range(n)]
    dU = [W.real("dU%d" % i, lo=0.1, hi=1, nan=nan_all and i == 1) for i in range(n)]
    dI = [W.real("dI%d" % i, lo=0.1, hi=1) for i in range(n)]
    I = [W.real("I%d" % i, lo=-3, hi=3) for i in range(n)]
    given = None
    if kind == "given":
        m = [W.real("m%d" % i, lo=-2, hi=2, nan=(i == 0)) for i in range(n)]
        given = W.pack(m)
        status = W.num(0)
    elif kind == "fail":
        at = W.pick("fails at call", [1, 2]) if order < 0 else 1
        calls = []

        def mpfit(fcn, parinfo=None, **k):
            calls.append(1)
            if len(calls) >= at:
                raise ValueError("no fit")
            r = MP()
            r.params, r.status, r.niter, r.covar, r.perror, r.fnorm = np.ones(6), 1, 3, None, None, W.num(1.0)
            return r
        W.patch("RMutils.util_misc", "mpfit", mpfit)
        m = [W.num(1.0)] * n
    else:
        c = W.real("const", lo=-2, hi=2)
        s = W.real("slope", lo=-2, hi=2) if fn == "linear" else W.num(0.0)
        st = W.pick("status", [1, 5, -16])

        def mpfit(fcn, parinfo=None, **k):
            r = MP()
            free = [not p["fixed"] for p in parinfo]
            r.params = W.pack([W.num(0.0)] * 4 + [s if free[4] else W.num(0.0), c])
            # automatic order selection: the higher order is better
            r.fnorm = W.num(1.0) if free[4] else W.num(100.0)
            r.status, r.niter, r.covar, r.perror = st, 3, np.zeros((6, 6)), None
            return r
        W.patch("RMutils.util_misc", "mpfit", mpfit)
        ref = W.num(1.0) / W.sqrt(total([W.num(1.0) / (x * x) for x in F[:n]]) / n)
        m = [s * x / ref + c for x in F[:n]]
        for v in m:
            W.assume(abs(v) > W.num(1e-6))
        status = None
    r = M.create_frac_spectra(freqArr=f, IArr=W.pack(I), QArr=W.pack(Q), UArr=W.pack(U), dIArr=W.pack(dI), dQArr=W.pack(dQ), dUArr=W.pack(dU),
                              polyOrd=order, fit_function=fn, modStokesI=given)
    mod, q, u, dq, du, fit = r
    W.closes("model", [mod[i] for i in range(n)], m)
    for i in range(n):
        frac(W, "q[%d]" % i, q[i], Q[i], m[i])
        frac(W, "u[%d]" % i, u[i], U[i], m[i])
        frac(W, "dq[%d]" % i, dq[i], dQ[i], m[i])
        frac(W, "du[%d]" % i, du[i], dU[i], m[i])
    if kind == "given":
        W.check("no fit status for a supplied model", fit.fitStatus == 0)
    elif kind == "fail":
        W.check("failure status", fit.fitStatus == 9)
        W.closes("flat model", list(fit.params), [0, 0, 0, 0, 0, 1])
        mm = M.calculate_StokesI_model(fit, f)
        W.closes("reported parameters give the model used", [mm[i] for i in range(n)], m)
    else:
        neg = bool(W.or_(*[x < W.num(0.0) for x in m]))
        low = bool(W.or_(*[x < e for x, e in zip(m, dI)]))
        W.check("status flags", fit.fitStatus == abs(st) + (128 if neg else 0) + (64 if low else 0))
        mm = M.calculate_StokesI_model(fit, f)
        W.closes("reported parameters give the model used", [mm[i] for i in range(n)], m)
