"""Bookkeeping around the Stokes I fit: channels, residuals, free parameters, order choice, statistics."""
from .lib import total

PRELOAD = ["RMutils.util_misc"]
BOUNDS = ("4 channels (5 in thorough) with symbolic Stokes I and errors and every NaN pattern leaving at least two channels, fixed orders 0..5 and automatic selection up to order 3 (5 thorough), "
          "arbitrary goodness of fit (symbolic chi^2 per order) and arbitrary trial parameters in the residual function")
ASSUME = ["the optimiser (mpfit) is replaced by one that records its problem and returns arbitrary chi^2; frequencies fixed"]

F = [0.875, 1.0, 1.25, 1.375, 1.75]


def configs(tier):
    out = []
    n = 4 if tier == "quick" else 5
    for fn in ("linear", "log"):
        for o in (0, 1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5):
            out.append(dict(name="%s-order%d" % (fn, o), args=dict(n=n, fn=fn, order=o), max_paths=4000, witnesses=4))
        for o in (-1, -3) if tier == "quick" else (-1, -2, -3, -4, -5):
            out.append(dict(name="%s-auto%d" % (fn, -o), args=dict(n=n, fn=fn, order=o), max_paths=20000, witnesses=4))
    return out


class MP:
    pass


def harness(W, n, fn, order):
    M = W.mod("RMutils.util_misc")
    np = W.np
    f = W.pack([W.num(x * 1e9) for x in F[:n]])
    I = [W.real("I%d" % i, lo=-3, hi=3, nan=i in (0, n - 1)) for i in range(n)]
    dI = [W.real("dI%d" % i, lo=0.1, hi=1, nan=i in (0, 1)) for i in range(n)]
    good = [i for i in range(n) if not (bool(W.isnan(I[i])) or bool(W.isnan(dI[i])))]
    top = abs(order)
    orders = [order] if order >= 0 else list(range(top + 1))
    chi = {o: W.real("chisq%d" % o, lo=0, hi=50) for o in orders}
    ref = W.num(1.0) / W.sqrt(total([W.num(1.0) / (F[i] * F[i]) for i in good]) / len(good))
    tried = []
    p = [W.num(v) for v in (0.25, -0.5, 0.125, 0.5, -0.75)] + [W.real("trial", lo=0.5, hi=2)]

    def mpfit(fcn, xall=None, parinfo=None, **k):
        free = [not q["fixed"] for q in parinfo]
        o = sum(free) - 1
        W.check("highest powers fixed for order %d" % o, free == [5 - j <= o for j in range(6)])
        W.closes("fixed coefficients start at zero (%d)" % o, [q["value"] for q, fr in zip(parinfo, free) if not fr], [0.0] * (5 - o))
        if not tried:
            st, res = fcn(W.pack(p), fjac=None)
            W.check("residual status", st == 0)
            W.check("one residual per unflagged channel", len(res) == len(good))
            if len(res) == len(good):
                for j, i in enumerate(good):
                    x = F[i] / ref
                    if fn == "linear":
                        mod = total([p[t] * x ** (5 - t) for t in range(6)])
                    else:
                        l = W.log10(x)
                        mod = p[5] * W.exp(W.log(x) * total([p[t] * l ** (4 - t) for t in range(5)]))
                    W.close("residual of channel %d" % i, res[j] * dI[i], mod - I[i], rtol=1e-9, atol=1e-9)
        tried.append(o)
        if len(tried) > 2 * top + 4:
            W.check("the search for the order ends", False)
            raise RuntimeError("order search does not end")
        r = MP()
        r.fnorm = chi[o]
        r.params = np.zeros(6) + 0.5 * o
        r.status, r.niter = (-(o + 1), 10 + o)
        r.covar = np.zeros((6, 6)) + o
        r.perror = None if o == 1 else np.zeros(6) + o
        return r

    W.patch("RMutils.util_misc", "mpfit", mpfit)
    r = M.fit_StokesI_model(f, W.pack(I), W.pack(dI), order, fn)
    if order >= 0:
        best = order
        W.check("one fit", tried == [order])
    else:
        best = 0
        aic = chi[0] + 2
        last = 0
        for o in range(1, top + 1):
            last = o
            a = chi[o] + 2 * (o + 1)
            if bool(a < aic):
                aic, best = a, o
            else:
                break
        W.check("orders tried upward until no improvement", tried == list(range(last + 1)))
    W.check("order reported", W.eq(r.polyOrd, W.num(best)))
    W.close("AIC", r.AIC, chi[best] + 2 * (best + 1))
    W.close("chi^2", r.chiSq, chi[best])
    W.closes("parameters of the chosen order", list(r.params), [0.5 * best] * 6)
    W.close("errors of the chosen order", list(r.perror), [0.0 if best == 1 else float(best)] * 6)
    W.close("covariance of the chosen order", r.pcov[0][5], float(best))
    W.check("status of the chosen order", r.fitStatus == best + 1)
    W.check("iterations of the chosen order", r.nIter == 10 + best)
    W.check("model kind", r.fit_function == fn)
    W.close("reference frequency", r.reference_frequency_Hz, ref * 1e9, rtol=1e-9)
    dof = len(good) - best - 1
    W.check("degrees of freedom count unflagged channels", W.eq(r.dof, W.num(dof)))
    if dof != 0:
        W.close("reduced chi^2", r.chiSqRed * dof, chi[best])
