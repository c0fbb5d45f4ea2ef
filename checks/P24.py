"""QU-fitting: Gaussian likelihood, fit statistics and reported parameters, for an arbitrary sampler outcome."""
import math

from .lib import total

PRELOAD = ["RMtools_1D.do_QUfit_1D_mnest"]
BOUNDS = ("2 or 3 channels with symbolic q, u, errors and model values, any of q or u flagged; reported results for an arbitrary posterior "
          "of 3 samples (two free parameters, one fixed), with angles anywhere including the 0/180 wrap, 5- and 7-column input")
ASSUME = ["the sampler returns arbitrary samples and likelihoods (its own correctness is out of scope)", "plots are not examined",
          "posterior angles cluster within 40 degrees (the documented scope of the rotation)", "errors positive"]


def configs(tier):
    out = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        out.append(dict(name="likelihood-%d" % n, args=dict(kind="like", n=n), witnesses=6, feas_ms=1000, max_paths=20000))
        out.append(dict(name="chisq-%d" % n, args=dict(kind="chisq", n=n), witnesses=6, feas_ms=1000, max_paths=20000))
    for cols in (5, 7):
        out.append(dict(name="report-%d" % cols, args=dict(kind="report", n=2, cols=cols), witnesses=6, feas_ms=1000, max_paths=20000, nosearch=True))
    return out


class Blank:
    def __getattr__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


class Mod:
    pass


class Coarse:
    """numpy whose finely sampled axes (made for plots only) are coarse."""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def linspace(self, a, b, n=50, **k):
        return self._np.linspace(a, b, min(n, 3), **k)


def spectra(W, n):
    q = [W.real("q%d" % i, lo=-1, hi=1, nan=True) for i in range(n)]
    u = [W.real("u%d" % i, lo=-1, hi=1, nan=i == n - 1) for i in range(n)]
    dq = [W.real("dq%d" % i, lo=0.05, hi=1) for i in range(n)]
    du = [W.real("du%d" % i, lo=0.05, hi=1) for i in range(n)]
    m = [W.cplx(W.real("mr%d" % i, lo=-1, hi=1), W.real("mi%d" % i, lo=-1, hi=1)) for i in range(n)]
    return q, u, dq, du, m


def chisq(W, q, u, dq, du, m):
    t, k = [], 0
    for i in range(len(q)):
        if not bool(W.isnan(q[i])):
            t.append(((q[i] - m[i].real) / dq[i]) ** 2)
        if not bool(W.isnan(u[i])):
            t.append(((u[i] - m[i].imag) / du[i]) ** 2)
    return total(t) if t else W.num(0.0), len(t)


def harness(W, kind, n, cols=7):
    d = W.files() if kind == "report" else None
    M = W.mod("RMtools_1D.do_QUfit_1D_mnest")
    np = W.np
    q, u, dq, du, m = spectra(W, n)
    lam = W.pack([W.num((i + 1) / 16) for i in range(n)])
    par = dict(a=W.num(0.25), b=W.num(0.5))
    if kind == "like":
        seen = []

        def call(mm):
            mod = Mod()

            def model(p, l):
                seen.append((dict(p), l))
                return W.pack(list(mm))
            mod.model = model
            W.patch(M, "load_model", lambda k, verbose=False: (W.check("model asked for", k == 5), mod)[1])
            L = M.lnlike_call(["a", "b"], lam, W.pack(q), W.pack(dq), W.pack(u), W.pack(du), 5)
            L.parameters = dict(par)
            return L.log_likelihood()
        a = call(m)
        m2 = [W.cplx(W.real("nr%d" % i, lo=-1, hi=1), W.real("ni%d" % i, lo=-1, hi=1)) for i in range(n)]
        b = call(m2)
        c1, k = chisq(W, q, u, dq, du, m)
        c2, k = chisq(W, q, u, dq, du, m2)
        W.close("difference of log-likelihoods is -1/2 the difference of chi^2", a - b, (c2 - c1) / 2, rtol=1e-7, atol=1e-8)
        W.check("model evaluated at the data wavelengths", all(s[1] is lam for s in seen))
        W.check("model given the current parameters", all(sorted(s[0]) == ["a", "b"] for s in seen))
        return
    if kind == "chisq":
        ps = {}

        def model(p, l):
            ps.update(p)
            W.check("model evaluated at the data wavelengths", l is lam)
            return W.pack(list(m))
        got = M.chisq_model(["a", "b"], [par["a"], par["b"]], lam, W.pack(q), W.pack(dq), W.pack(u), W.pack(du), model)
        W.close("parameters by name", ps["a"], par["a"])
        W.close("parameters by name (2)", ps["b"], par["b"])
        W.close("chi^2", got, chisq(W, q, u, dq, du, m)[0], rtol=1e-7, atol=1e-8)
        return
    report(W, M, d, q, u, dq, du, m, cols)


def report(W, M, d, q, u, dq, du, m, cols):
    np = W.np
    n = len(q)
    lamm = [W.num(0.25), W.num(0.5)]
    f = W.pack([W.num(299792458.0) / l for l in lamm])
    # three posterior samples; the angle samples lie within 40 degrees of each other on the circle
    c = W.real("angle", lo=0, hi=180)
    off = [W.real("off%d" % i, lo=-20, hi=20) for i in range(3)]
    W.assume(W.and_(off[0] < off[1], off[1] < off[2]))
    ang = []
    for o in off:
        x = c + o
        if bool(x < 0):
            x = x + 180
        elif bool(x >= 180):
            x = x - 180
        ang.append(x)
    val = [W.real("val%d" % i, lo=-9, hi=9) for i in range(3)]
    W.assume(W.and_(val[0] < val[1], val[1] < val[2]))
    order = W.pick("sample order", [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    ll = [W.real("ll%d" % i, lo=-9, hi=9) for i in range(3)]
    ev, dev = W.real("evidence", lo=-9, hi=9), W.real("devidence", lo=0, hi=1)
    names = ["val", "psi0_deg", "fixed"]

    class Pr:
        def __init__(self, lo, hi, b, label):
            self.minimum, self.maximum, self.boundary, self.latex_label = lo, hi, b, label
    Uniform, DeltaFunction, Constraint = type("Uniform", (Pr,), {}), type("DeltaFunction", (Pr,), {}), type("Constraint", (Pr,), {})
    priors = {"val": Uniform(-10.0, 10.0, None, "v"), "psi0_deg": Uniform(0.0, 180.0, "periodic", "psi"), "fixed": DeltaFunction(1.0, 1.0, None, "f"), "con": Constraint(0, 1, None, "c")}
    mod = Mod()
    mod.priors = priors
    mod.model = lambda p, l: (W.pack(list(m)) if len(l) == n else W.pack([m[0]] * len(l)))
    W.patch(M, "load_model", lambda k, verbose=False: mod)
    W.patch(M, "np", Coarse(np))
    W.patch(M, "plt", Blank())
    W.patch(M, "plot_Ipqu_spectra_fig", Blank())
    W.patch(M, "CustomNavbar", Blank())
    fr = Mod()
    fr.params = W.pack([W.num(x / 8) for x in range(6)])
    fr.perror = W.pack([W.num(x / 16) for x in range(6)])
    fr.chiSq, fr.chiSqRed, fr.polyOrd, fr.reference_frequency_Hz = W.num(2.5), W.num(1.25), 2, W.num(1.5e9)
    got = {}

    def frac(**k):
        got.update(k)
        return W.pack([W.num(1.0)] * n), W.pack(q), W.pack(u), W.pack(dq), W.pack(du), fr
    W.patch(M, "create_frac_spectra", frac)
    W.patch(M, "calculate_StokesI_model", lambda r, x: W.pack([W.num(1.0)] * len(x)))

    class Summary:
        pass

    class Result(Blank):
        def __init__(s):
            s.samples = W.pack([[val[i], ang[i], W.num(1.0)] for i in order])
            s.log_likelihood_evaluations = W.pack(list(ll))
            s.log_evidence, s.log_evidence_err = ev, dev
            s.samples_to_posterior()

        def samples_to_posterior(s):
            s.posterior = {k: [s.samples[i, j] + 0 for i in range(3)] for j, k in enumerate(names)}

        def get_one_dimensional_median_and_error_bar(s, k):
            v = list(s.posterior[k])
            for i in range(3):
                for j in range(2 - i):
                    if bool(v[j] > v[j + 1]):
                        v[j], v[j + 1] = v[j + 1], v[j]
            r = Summary()
            r.median, r.plus, r.minus = v[1], v[2] - v[1], v[1] - v[0]
            return r

    class B:
        @staticmethod
        def run_sampler(likelihood=None, priors=None, **k):
            got["likelihood"], got["priors"] = likelihood, priors
            return Result()
    W.patch(M, "bilby", B)
    I = [W.num(1.0 + i) for i in range(n)]
    e = [W.num(0.125)] * n
    data = [f, W.pack(I), W.pack([W.num(0.5)] * n), W.pack([W.num(0.75)] * n), W.pack(e), W.pack([W.num(0.25)] * n), W.pack([W.num(0.375)] * n)]
    no_I = bool(W.bool("no Stokes I")) if cols == 7 else True
    if cols == 5:
        data = [data[0], data[2], data[3], data[5], data[6]]
    M.run_qufit(data, 3, polyOrd=4, noStokesI=no_I if cols == 7 else False, fit_function="linear", prefixOut=d + "/out", sampler="s")
    for k, v in (("freqArr", None), ("IArr", [1.0] * n if no_I else I), ("QArr", [0.5] * n), ("UArr", [0.75] * n), ("dQArr", [0.25] * n), ("dUArr", [0.375] * n)):
        if v:
            W.closes("columns: " + k, list(got[k]), v)
    W.closes("columns: freqArr", [x / 299792458.0 for x in got["freqArr"]], [1 / l for l in lamm])
    if not no_I:
        W.closes("columns: dIArr", list(got["dIArr"]), e)
    W.check("order and model kind", got["polyOrd"] == 4 and got["fit_function"] == "linear")
    L = got["likelihood"]
    W.closes("wavelengths", list(L.lamSqArr_m2), [l * l for l in lamm])
    W.check("spectra given to the likelihood", all(a is b or bool(W.and_(*[W.or_(W.isnan(x), W.eq(x, y)) for x, y in zip(a, b)])) for a, b in ((L.qArr, q), (L.uArr, u), (L.dqArr, dq), (L.duArr, du))))
    W.check("priors of the model", got["priors"] is priors and L.parNames == names)
    r = W.get_json(d + "/out_m3_s.json")
    W.check("parameter names", r["parNames"] == names)
    W.close("median", r["values"][0], val[1])
    W.closes("errors", [r["errPlus"][0], r["errMinus"][0]], [val[2] - val[1], val[1] - val[0]])
    W.close("fixed parameter", r["values"][2], 1.0)
    W.check("angle in [0, 180)", W.and_(r["values"][1] >= 0, r["values"][1] < 180))
    da = r["values"][1] - ang[1]
    W.check("median angle on the circle", W.or_(*[W.and_(da - k < 1e-6, k - da < 1e-6) for k in (0, 180, -180)]))
    W.closes("angle errors", [r["errPlus"][1], r["errMinus"][1]], [off[2] - off[1], off[1] - off[0]], atol=1e-7)
    cs, k = chisq(W, q, u, dq, du, m)
    W.close("chi^2", r["chiSq"], cs, rtol=1e-7, atol=1e-8)
    W.close("degrees of freedom count unflagged data", r["dof"], k - 2 - 1)
    W.check("free parameters", r["nFree"] == 2)
    if k - 3 != 0:
        W.close("reduced chi^2", r["chiSqRed"] * (k - 3), cs, rtol=1e-7, atol=1e-8)
    mx = ll[0]
    for x in ll[1:]:
        mx = x if bool(x > mx) else mx
    W.close("AIC", r["AIC"], 4 - 2 * mx)
    if k - 3 != 0:
        W.close("AICc", r["AICc"], 4 + W.num(12) / (k - 3) - 2 * mx, rtol=1e-9, atol=1e-9)
    if k:
        W.close("BIC", r["BIC"], 2 * math.log(k) - 2 * mx, rtol=1e-9, atol=1e-9)
    W.close("evidence", r["ln(EVIDENCE) "], ev)
    W.close("evidence error", r["dLn(EVIDENCE)"], dev)
    W.closes("Stokes I model", [W.parse(x) for x in r["Imodel"].split(",")], [x / 8 for x in range(6)])
    W.closes("Stokes I model errors", [W.parse(x) for x in r["Imodel_errs"].split(",")], [x / 16 for x in range(6)])
    W.closes("Stokes I fit", [r["IfitChiSq"], r["IfitChiSqRed"], r["IfitPolyOrd"], r["Ifitfreq0"] / 1e9], [2.5, 1.25, 2, 1.5])
    dat = dict(l.split("=", 1) for l in W.get_text(d + "/out_m3_s.dat").splitlines())
    W.check("same keys in both files", sorted(dat) == sorted(r))
    W.close("chi^2 in the text file", W.parse(dat["chiSq"]), cs, rtol=1e-7, atol=1e-8)
