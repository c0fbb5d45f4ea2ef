"""Reference definitions shared by the checks (written from the literature, generic over worlds)."""


def quiet(*a, **k):
    pass


def total(xs, start=None):
    r = start
    for x in xs:
        r = x if r is None else r + x
    return r


def wmean(W, ws, xs):
    return total([w * x for w, x in zip(ws, xs)]) / total(ws)


def synth(W, ws, ps, lam, lam0, phi):
    """K * sum w P exp(-2i phi (lam-lam0)) (Brentjens & de Bruyn 2005)"""
    k = total(ws)
    return total([w * p * W.cis(-2 * phi * (l - lam0)) for w, p, l in zip(ws, ps, lam)]) / k


def rmsf(W, ws, lam, lam0, phi):
    return total([w * W.cis(-2 * phi * (l - lam0)) for w, l in zip(ws, lam)]) / total(ws)


def flag_state(W, x, y):
    """decide (fork) whether a voxel is flagged"""
    return bool(W.isnan(x)) or bool(W.isnan(y))


# ---- RM-CLEAN -------------------------------------------------------------
def clean_setup(W, n, d=None, tag="", w_lo=1.0, w_hi=4.0, rmsf_real=False):
    """symbolic dirty spectrum, RMSF (unit peak at zero depth), symmetric depth grids"""
    pad = (n + 1) // 2
    n2 = n + 2 * pad
    c2 = n2 // 2
    if d is None:
        d = W.real("d" + tag, lo=0.5, hi=20)
    phi = W.pack([(k - n // 2) * d for k in range(n)])
    phi2 = W.pack([(k - c2) * d for k in range(n2)])
    D = [W.cplx(W.real("Dr%s_%d" % (tag, j), lo=-5, hi=5), W.real("Di%s_%d" % (tag, j), lo=-5, hi=5)) for j in range(n)]
    Rm = []
    for j in range(n2):
        if j == c2:
            Rm.append(W.cplx(W.num(1.0), W.num(0.0)))
        else:
            Rm.append(W.cplx(W.real("Rr%s_%d" % (tag, j), lo=-0.75, hi=0.75), W.num(0.0) if rmsf_real else W.real("Ri%s_%d" % (tag, j), lo=-0.5, hi=0.5)))
    width = W.real("w" + tag, lo=w_lo, hi=w_hi)
    return dict(n=n, n2=n2, c2=c2, d=d, phi=phi, phi2=phi2, D=D, R=Rm, width=width, fwhm=width * d)


def argpeak(W, r, idx=None):
    """first index of the largest amplitude (forks)"""
    idx = list(range(len(r))) if idx is None else idx
    k = idx[0]
    for j in idx[1:]:
        if bool(abs(r[j]) > abs(r[k])):
            k = j
    return k


def clean_reference(W, s, cutoff, gain, maxit, r=None):
    """the documented first-pass loop: returns residual, components, iterations"""
    r = list(s["D"]) if r is None else list(r)
    n = s["n"]
    cc = [W.cplx(W.num(0.0), W.num(0.0)) for _ in range(n)]
    it = 0
    peaks = []
    while it < maxit:
        k = argpeak(W, r)
        if not bool(abs(r[k]) >= cutoff):
            break
        a = gain * r[k]
        cc[k] = cc[k] + a
        r = [r[j] - a * s["R"][s["c2"] + j - k] for j in range(n)]
        peaks.append(k)
        it += 1
    return r, cc, it, peaks


def restored(W, s, cc, resid, comps):
    """residual plus each component times a unit-peak Gaussian of the beam FWHM"""
    out = []
    k4 = 4 * W.log(W.num(2.0))
    for j in range(s["n"]):
        v = resid[j]
        for k in comps:
            x = W.num(1.0) if j == k else W.exp(-(s["phi"][j] - s["phi"][k]) ** 2 * k4 / s["fwhm"] ** 2)
            v = v + cc[k] * x
        out.append(v)
    return out
