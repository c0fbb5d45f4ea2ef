"""Complexity metrics: residual q, u, likelihood of extra scatter, percentiles of its distribution."""
from .lib import total

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("residual spectra of 2 or 3 channels with symbolic q, u, errors (any flagged), wavelengths, fraction, angle and depth; the scatter "
          "likelihood sampled at 2 or 3 values; cumulative distributions of 3 to 5 symbolic steps with any percentile")
ASSUME = ["errors positive", "the debugging plots are not examined"]
C = 299792458.0


def configs(tier):
    out = [dict(name="residual", args=dict(kind="resid", n=2), witnesses=6)]
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
        out.append(dict(name="percentile-%d" % n, args=dict(kind="pct", n=n), witnesses=6))
    out.append(dict(name="percentile-nan", args=dict(kind="pctnan", n=3), witnesses=6))
    for n, s in ((2, 2), (2, 3), (3, 2)) if tier == "quick" else ((2, 2), (2, 3), (3, 2), (3, 3), (4, 3)):
        out.append(dict(name="scatter-%d-%d" % (n, s), args=dict(kind="add", n=n, s=s), witnesses=6, feas_ms=1000, max_paths=20000))
    return out


def percentile(W, x, p, q):
    """The value at which the distribution, linear between the samples, first exceeds the percentile."""
    for i in range(len(x)):
        if bool(p[i] * 100 > q):
            if i == 0:
                return x[0]
            return x[i - 1] + (q / 100 - p[i - 1]) * (x[i] - x[i - 1]) / (p[i] - p[i - 1])
    return None


def harness(W, kind, n, s=2):
    M = W.mod("RMutils.util_RM")
    np = W.np
    if kind in ("pct", "pctnan"):
        x = [W.real("x0", lo=-5, hi=5)]
        p = [W.real("p0", lo=0, hi=1)]
        for i in range(1, n):
            x.append(x[-1] + W.real("dx%d" % i, lo=0.01, hi=2))
            p.append(p[-1] + W.real("dp%d" % i, lo=0, hi=1))
        W.assume(p[-1] <= 1)
        if kind == "pctnan":
            v = M.cdf_percentile(W.pack(x), W.pack([W.nan] * n), W.real("q", lo=0, hi=100))
            W.check("NaN distribution gives NaN", W.isnan(v))
            return
        q1 = W.real("q1", lo=0, hi=100)
        q2 = W.real("q2", lo=0, hi=100)
        W.assume(q1 <= q2)
        for a in p:
            for q in (q1, q2):
                d = a * 100 - q
                W.assume(W.or_(d > 1e-6, d < -1e-6))
        v1, v2 = M.cdf_percentile(W.pack(x), W.pack(p), q1), M.cdf_percentile(W.pack(x), W.pack(p), q2)
        e1, e2 = percentile(W, x, p, q1), percentile(W, x, p, q2)
        for t, v, e in (("lower", v1, e1), ("upper", v2, e2)):
            if e is None:
                W.check("beyond the distribution: NaN", W.isnan(v))
            else:
                W.close(t + " percentile", v, e, rtol=1e-6, atol=1e-6)
        if e1 is not None and e2 is not None:
            W.check("monotonic", v1 <= v2 + 1e-6)
        return
    if kind == "add":
        # written so that the range of the data with errors is one symbol
        R, low = W.real("range", lo=0.5, hi=8), W.real("low", lo=-3, hi=3)
        dy = [W.real("dy%d" % i, lo=0.1, hi=2) for i in range(n)]
        W.assume(W.and_(R > 2 * dy[0], R > 2 * dy[1]))
        y = [low + R - dy[0], low + dy[1]]
        for i in range(2, n):
            t = W.real("t%d" % i, lo=0, hi=1, nan=i == 2)
            y.append(low + dy[i] + t)
            W.assume(W.or_(W.isnan(t), t + 2 * dy[i] < R))
        med = W.real("centre", lo=-1, hi=1)
        suffix = W.pick("suffix", ["Q", ""])
        seen = []

        def pct(x, p, q=50.0):
            seen.append((x, p, q))
            return W.num(float(q))
        W.patch(M, "cdf_percentile", pct)
        m, pl = M.calc_sigma_add(xArr=W.pack([W.num(1.0 + i) for i in range(n)]), yArr=W.pack(y), dyArr=W.pack(dy), yMed=med, noise=W.num(1.0), nSamp=s, suffix=suffix)
        ok = [i for i in range(n) if not bool(W.isnan(y[i]))]
        lo, hi = low, low + R
        g = [(hi - lo) * (k + 1) / s for k in range(s)]
        W.check("three percentiles asked for", [c[2] for c in seen] == [50.0, 15.72, 84.27])
        W.closes("scatter values tried", list(seen[0][0]), g)
        W.closes("same in the plot dictionary", list(pl["sigmaAddArr" + suffix]), g)
        # likelihood (with 1/sigma prior), relative to the first value
        like = []
        for v in g:
            pr = 1 / v
            chi = W.num(0.0)
            for i in range(n):
                tot = dy[i] * dy[i] + v * v
                pr = pr / W.sqrt(tot)
                if i in ok:
                    chi = chi + (y[i] - med) ** 2 / tot
            like.append((pr, chi))
        cp = seen[0][1]
        W.close("cumulative distribution ends at one", cp[s - 1], 1.0)
        step = [cp[0]] + [cp[k] - cp[k - 1] for k in range(1, s)]
        for k in range(1, s):
            r = like[k][0] / like[0][0]
            W.close("probability %d relative to the first" % k, step[k], step[0] * r * W.exp((like[0][1] - like[k][1]) / 2), rtol=1e-6, atol=1e-9)
        W.close("area under the density", total(list(pl["probArr" + suffix])) * (hi - lo) / s, 1.0)
        W.check("keys", sorted(m) == sorted(["sigmaAdd" + suffix, "dSigmaAddMinus" + suffix, "dSigmaAddPlus" + suffix]))
        W.close("value", m["sigmaAdd" + suffix], 50.0)
        W.close("lower error", m["dSigmaAddMinus" + suffix], 50.0 - 15.72)
        W.close("upper error", m["dSigmaAddPlus" + suffix], 84.27 - 50.0)
        return
    lam = [W.real("lam%d" % i, lo=0.1, hi=0.8) for i in range(n)]
    f = W.pack([C / l for l in lam])
    q = [W.real("q%d" % i, lo=-1, hi=1, nan=True) for i in range(n)]
    u = [W.real("u%d" % i, lo=-1, hi=1) for i in range(n)]
    dq = [W.real("dq%d" % i, lo=0.1, hi=2) for i in range(n)]
    du = [W.real("du%d" % i, lo=0.1, hi=2) for i in range(n)]
    frac, psi, RM = W.real("frac", lo=0, hi=1), W.real("psi", lo=0, hi=180), W.real("RM", lo=-50, hi=50)
    calls = []

    def add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=""):
        calls.append((xArr, yArr, dyArr, yMed, noise, suffix))
        return {"v" + suffix: len(calls)}, {"p" + suffix: len(calls)}
    W.patch(M, "calc_sigma_add", add)
    m, pl = M.measure_qu_complexity(f, W.pack(q), W.pack(u), W.pack(dq), W.pack(du), frac, psi, RM)
    c = [frac * W.cis(2 * (psi * W.pi / 180 + RM * l * l)) for l in lam]
    rq = [(q[i] - c[i].real) / dq[i] for i in range(n)]
    ru = [(u[i] - c[i].imag) / du[i] for i in range(n)]
    exp = {"Q": rq, "U": ru, "C": rq + ru}
    W.check("q, u and combined", sorted(k[5] for k in calls) == ["C", "Q", "U"])
    for x, y, dy, med, noise, suf in calls:
        e = exp[suf]
        W.check(suf + ": number of values", len(y) == len(e) and len(x) == len(e) and len(dy) == len(e))
        W.closes(suf + ": wavelengths", list(x), [l * l for l in lam] * (len(e) // n), rtol=1e-7, atol=1e-8)
        for i in range(len(e)):
            if bool(W.isnan(e[i])):
                W.check("%s: flagged residual" % suf, W.isnan(y[i]))
            else:
                W.close("%s: normalised residual %d" % (suf, i), y[i], e[i], rtol=1e-7, atol=1e-7)
        W.closes(suf + ": unit errors", list(dy), [1.0] * len(e))
        W.check(suf + ": centred on the model", med == 0.0 and noise == 1.0)
    W.check("all results returned", sorted(m) == ["vC", "vQ", "vU"] and sorted(pl) == ["pC", "pQ", "pU"])
