"""QU-fitting models against the published depolarisation laws."""
from .lib import total

MODELS = ["m1", "m2", "m3", "m4", "m5", "m6", "m7", "m11", "m12", "m111"]
PRELOAD = ["RMtools_1D.models_ns." + m for m in MODELS]
BOUNDS = "2 wavelengths; every parameter and lambda^2 symbolic (lambda^2 in [0.002, 1], depths in [-1100, 1100], slab depths in [-100, 100], dispersions in [0.01, 100])"
ASSUME = ["dispersions of the slab models not exactly zero (the laws have removable singularities there)"]

# components: list of (suffix, kind); kind of depolarisation and the parameter names it uses
COMP = dict(m1=[("", "thin")], m2=[("", "ext")], m3=[("1", "common"), ("2", "common")], m4=[("1", "ext"), ("2", "ext")],
            m5=[("", "slab")], m6=[("1", "slab"), ("2", "slab")], m7=[("", "int")], m11=[("1", "thin"), ("2", "thin")],
            m12=[("", "intext")], m111=[("1", "thin"), ("2", "thin"), ("3", "thin")])


def configs(tier):
    return [dict(name=m, args=dict(m=m), witnesses=8) for m in MODELS] + [dict(name="limits-" + m, args=dict(m=m, limit=True), witnesses=4) for m in ("m2", "m3", "m4", "m7", "m12")]


def names(m):
    out = {}
    for s, kind in COMP[m]:
        out["p" + s] = "fracPol" + s
        out["psi" + s] = "psi0%s_deg" % s
        out["RM" + s] = "RM%s_radm2" % s if kind != "intext" else "RM_screen"
        if kind == "common":
            out["sig"] = "sigmaRM_radm2"
        if kind in ("ext", "int", "intext"):
            out["sig" + s] = "sigmaRM%s_radm2" % s
        if kind in ("slab", "int", "intext"):
            out["del" + s] = "deltaRM%s_radm2" % s
        if kind == "intext":
            out["fg"] = "sigmaRM_radm2_FG"
    return out


def law(W, kind, v, s, L):
    one = W.num(1.0)
    thin = v["p" + s] * W.cis(2 * (v["psi" + s] * W.pi / 180 + v["RM" + s] * L))
    if kind == "thin":
        return thin
    if kind == "common":
        return thin * W.exp(-2 * v["sig"] * v["sig"] * L * L)
    if kind == "ext":
        return thin * W.exp(-2 * v["sig" + s] * v["sig" + s] * L * L)
    if kind == "slab":
        # a uniform slab of depth deltaRM in front of depth RM: the mean of exp(2i phi L) over [RM, RM + deltaRM]
        x = v["del" + s] * L
        return thin * W.cis(x) * (W.sin(x) / x)
    # internal dispersion
    a, b = 2 * v["sig"] * v["sig"] * L * L, -2 * v["del"] * L
    S = W.cplx(a, b)
    r = thin * (W.cplx(one, W.num(0.0)) - W.exp(-a) * W.cis(-b)) / S
    if kind == "intext":
        r = r * W.exp(-2 * v["fg"] * v["fg"] * L * L)
    return r


class Spy(dict):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)


def harness(W, m, limit=False):
    M = W.mod("RMtools_1D.models_ns." + m)
    nm = names(m)
    L = [W.real("L%d" % i, lo=0.002, hi=1) for i in range(2)]
    v = {}
    for k in nm:
        if k.startswith("p") and not k.startswith("psi"):
            v[k] = W.real(k, lo=0.01, hi=1)
        elif k.startswith("psi"):
            v[k] = W.real(k, lo=0, hi=180)
        elif k.startswith("RM"):
            v[k] = W.real(k, lo=-1100, hi=1100)
        elif k.startswith("del"):
            v[k] = W.real(k, lo=-100, hi=100)
            W.assume(abs(v[k]) >= 0.01)
        else:
            v[k] = W.real(k, lo=0.01, hi=100)
    if limit:
        for k in v:
            if k.startswith("sig"):
                v[k] = W.num(0.0)
    P = Spy({nm[k]: v[k] for k in nm})
    got = M.model(P, W.pack(L))
    W.check("one value per wavelength", tuple(got.shape) == (2,))
    for i in range(2):
        if limit:
            if m in ("m2", "m3", "m4"):
                e = total([law(W, "thin", v, s, L[i]) for s, _ in COMP[m]])
            else:
                e = law(W, "slab", dict(v, RM=v["RM"], **{"del": v["del"]}), "", L[i])
                if m == "m12":
                    e = e * W.exp(-2 * v["fg"] * v["fg"] * L[i] * L[i])
            W.close("zero dispersion limit [%d]" % i, got[i], e, rtol=1e-7, atol=1e-9)
        else:
            W.close("law [%d]" % i, got[i], total([law(W, kind, v, s, L[i]) for s, kind in COMP[m]]), rtol=1e-7, atol=1e-9)
    if limit:
        return
    cons = []
    n = len(COMP[m])
    if n > 1:
        cons = ["delta_RM%d_RM%d_radm2" % (i, i + 1) for i in range(1, n)] + ["sum_" + "_".join("p%d" % (i + 1) for i in range(n))]
        q = {nm[k]: v[k] for k in nm}
        before = dict(q)
        r = M.converter(q)
        W.check("converter leaves its argument alone", q == before if not W.symbolic else list(q) == list(before))
        W.check("converter keeps the parameters", all(k in r for k in q))
        for i in range(1, n):
            W.close("ordering constraint %d" % i, r[cons[i - 1]], v["RM%d" % i] - v["RM%d" % (i + 1)])
        W.close("total fraction", r[cons[-1]], total([v["p%d" % (i + 1)] for i in range(n)]))
    W.check("every parameter has a prior and every prior a parameter", set(M.priors.keys()) == set(nm.values()) | set(cons))
    for k in nm.values():
        if k.startswith(("fracPol", "sigmaRM", "deltaRM")):
            W.check("prior of %s starts at zero" % k, M.priors[k].minimum == 0)
        if k.startswith("psi"):
            W.check("prior of %s covers half a turn" % k, M.priors[k].minimum == 0 and M.priors[k].maximum == 180)
    for k in cons:
        W.check("constraint %s is one-sided" % k, M.priors[k].minimum == 0)
    if n > 1:
        W.check("total fraction at most one", M.priors[cons[-1]].maximum == 1)
