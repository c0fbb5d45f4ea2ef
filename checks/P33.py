"""The stand-alone RMSF calculator: the RMSF of synthesis and correct diagnostics of it."""
from .P28 import C, record

PRELOAD = ["RMtools_1D.calculate_RMSF", "RMutils.util_RM"]
MOD = PRELOAD[0]
BOUNDS = ("2 to 4 channels (any order; whole and fractional numbers, up to 8 GHz) with symbolic weights; depth maxima and spacings given or default; RMSFs of 6, 7 or 11 (thorough to 12) samples with every amplitude symbolic (up to two sidelobes, either of them the higher); "
          "frequency files with one or two columns, weight files, generated frequencies, super-resolution")
ASSUME = ["the RMSF computation itself is the subject of P03-P05: a stand-in returns arbitrary RMSFs and its arguments are checked",
          "numbers are shown with four digits; the picture itself is not examined, its text is", "files are modelled in memory"]
FREQS = [(1.0e9, 1.25e9), (1.5e9, 1.0e9, 1.25e9), (4.0e9, 4.5e9, 5.0e9, 8.0e9), (7.0e8, 8.0e8, 7.5e8)]


def configs(tier):
    q = tier == "quick"
    out = [dict(name="report-%d" % n, args=dict(kind="report", n=n), witnesses=10, max_paths=20000) for n in ((6, 7, 11) if q else (6, 7, 8, 9, 11, 12))]
    out += [dict(name="grid-%d" % i, args=dict(kind="grid", n=i), witnesses=6) for i in range(len(FREQS))]
    out += [dict(name="tool-%s" % k, args=dict(kind="tool", n=k), witnesses=6) for k in ("one", "two", "weights", "both", "generated", "mismatch", "none")]
    return out


class Plot:
    def __init__(self):
        self.texts, self.saved, self.shown = [], [], 0

    def __getattr__(self, k):
        return lambda *a, **kw: None

    def gca(self):
        return self

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)

    def savefig(self, fn, *a, **k):
        self.saved.append(fn)

    def show(self, *a, **k):
        self.shown += 1


def near(W, label, got, exp):
    const = [x.isconst() if hasattr(x, "isconst") else float(x) for x in (got, exp)]
    if None in const:
        W.close(label, got, exp, rtol=1e-3)
    else:
        W.check(label, abs(const[0] - const[1]) <= 1e-3 * abs(const[1]))


def find(W, lines, words):
    hit = [x for x in lines if all(w in x for w in words)]
    W.check("one line for '%s'" % " ".join(words), len(hit) == 1)
    return W.numbers(hit[0].split(":")[-1]) if len(hit) == 1 else []


def harness(W, kind, n):
    if kind == "tool":
        d = W.files()
    M = W.mod(MOD)
    U = W.mod("RMutils.util_RM")
    plot = Plot()
    W.patch(M, "plt", plot)
    out = W.console(M)
    if kind == "tool":
        return tool(W, M, d, n)
    np = W.np
    fwhm = W.real("fwhm", lo=1, hi=90)
    f = list(FREQS[n] if kind == "grid" else W.pick("frequencies", FREQS[:3]))
    lam = [(C / x) ** 2 for x in f]
    rng = max(lam) - min(lam)
    w = [W.real("w%d" % i, lo=0, hi=3) for i in range(len(f))]
    sup = bool(W.bool("super-resolution"))
    k = n if kind == "report" else 7
    step = W.real("step", lo=1, hi=9)
    # amplitudes; the peak (nearest zero) is one, phases are those of a 3-4-5 triangle
    a = [W.num(1.0) if i == k // 2 else W.real("a%d" % i, lo=0.01, hi=0.99) if i > k // 2 else W.num(0.5 if i % 2 else 0.25) for i in range(k)]
    cx = W.pack([W.cplx(x * (0.6 if i % 2 else -0.8), x * (0.8 if i % 2 else 0.6)) for i, x in enumerate(a)])
    phi2 = W.pack([(i - k // 2 + (0.5 if k % 2 == 0 else 0.0)) * step for i in range(k)])
    calls = record(W, M, "get_rmsf_planes", lambda c: U.RMSFResults(RMSFcube=cx, phi2Arr=phi2, fwhmRMSFArr=np.asarray(fwhm), statArr=1, lam0Sq_m2=W.num(0.1)))
    pm = dp = None
    if kind == "grid":
        given = W.pick("given", ["both", "maximum", "spacing", "neither"])
        fw = 2 * 3 ** 0.5 / rng
        pm = W.pick("maximum", [40.0, 45.0, 50.0]) if given in ("both", "maximum") else None
        dp = W.pick("spacing", [10.0, 7.0]) if given == "both" else fw * 2 if given == "spacing" else None
        if given == "maximum":
            pm = pm * fw / 20
    else:
        pm, dp = 60.0, 10.0
    M.determine_RMSF_parameters(W.pack([W.num(x) for x in f]), W.pack(w), pm, dp, W.pick("save", [None, "x.pdf"]) if kind == "grid" else "x.pdf", None, sup)
    c = calls[0]
    W.check("one RMSF", len(calls) == 1)
    W.closes("wavelengths", list(c["lambdaSqArr_m2"]), lam, rtol=1e-9)
    W.closes("weights", list(c["weightArr"]), w)
    W.check("no mask, fitted width", c["mskArr"] is None and c["fitRMSF"] is True and bool(c["fitRMSFreal"]) == sup)
    if sup:
        W.close("reference wavelength", c["lam0Sq_m2"], 0.0)
    else:
        W.check("reference wavelength is the weighted mean", c["lam0Sq_m2"] is None)
    # the axis given is half of what the RMSF covers
    ph = list(c["phiArr_radm2"])
    W.check("RMSF extends beyond the axis", c["double"] is True)
    M0 = pm if pm is not None else 10 * 2 * 3 ** 0.5 / rng
    D0 = dp if dp is not None else 0.1 * 2 * 3 ** 0.5 / rng
    nn = int(M0 / D0 + 1e-6) + 1
    W.check("number of depths", len(ph) == nn)
    for i in sorted({0, 1, nn // 2, nn - 1}):
        if i < len(ph):
            W.close("depth %d (from the start of twice the range)" % i, ph[i] + M0, M0 / 2 + i * D0, rtol=1e-9)
    saved = plot.saved == ["x.pdf"] and not plot.shown
    W.check("picture saved or shown", saved if kind != "grid" or plot.saved else plot.shown == 1)
    # report
    gaps = sorted(abs(y - x) for x, y in zip(lam, lam[1:]))
    med = (gaps[(len(gaps) - 1) // 2] + gaps[len(gaps) // 2]) / 2
    text = "\n".join(plot.texts).split("\n")
    half = k // 2
    A = a[half:]
    peaks = [i for i in range(1, len(A) - 1) if bool(A[i] > A[i - 1]) and bool(A[i] > A[i + 1])]
    top = None
    for i in peaks:
        if top is None or bool(A[i] > A[top]):
            top = i
    for where, lines in (("printed", out), ("drawn", text)):
        for words, e in ((["FWHM", "unweighted"], 3.8 / rng), (["Measured FWHM"], fwhm), (["largest FD scale"], W.pi / min(lam)), (["Theoretical maximum FD"], 3 ** 0.5 / med)):
            x = find(W, lines, words)
            W.check("%s: a value of %s" % (where, words[-1]), len(x) == 1)
            near(W, "%s: %s" % (where, words[-1]), x[0], e)
        hit = [i for i, l in enumerate(lines) if "sidelobe" in l]
        if top is None:
            W.check(where + ": no sidelobe", hit == [] or not any(W.numbers(lines[i].split(":")[-1]) for i in hit))
        else:
            W.check(where + ": sidelobe", len(hit) == 1)
            near(W, where + ": sidelobe depth", W.numbers(lines[hit[0]].split(":")[-1])[0], phi2[half + top])
            near(W, where + ": sidelobe amplitude in per cent", W.numbers(lines[hit[0] + 1])[0], A[top] * 100)
    for word, x in (("Lowest", min(f)), ("Highest", max(f))):
        hit = W.numbers([l for l in text if word in l][0].split(":")[-1])
        near(W, word + " frequency", hit[0], x / 1e9)
        near(W, word + " wavelength", hit[1], C / x * 100)
    near(W, "number of channels", W.numbers([l for l in text if "channels" in l][0].split(":")[-1])[0], float(len(f)))


def tool(W, M, d, kind):
    np = W.np
    calls = record(W, M, "determine_RMSF_parameters", None)
    f = list(W.pick("frequencies", FREQS))
    n = len(f)
    w = [W.real("w%d" % i, lo=0, hi=3) for i in range(n)]
    v = [W.real("v%d" % i, lo=0, hi=3) for i in range(n)]
    whole = bool(W.bool("whole numbers"))
    if kind in ("two", "both"):
        rows = W.pack([[W.num(x), y] for x, y in zip(f, w)])
        np.savetxt(d + "/f.dat", rows)
    else:
        W.put_text(d + "/f.dat", "".join(("%d\n" % x) if whole else "%r\n" % x for x in f))
    np.savetxt(d + "/w.dat", W.pack(v[:-1] if kind == "mismatch" else v))
    if whole and kind == "weights":
        W.put_text(d + "/w.dat", "".join("%d\n" % (i + 1) for i in range(n)))
        v = [W.num(i + 1.0) for i in range(n)]
    args = [d + "/f.dat"] + ([d + "/w.dat"] if kind in ("weights", "both", "mismatch") else [])
    if kind == "generated":
        f = [1.0e9, 1.25e9, 1.5e9, 1.75e9]
        args = ["-f", "1e9", "1.875e9", "2.5e8"]
    if kind == "none":
        args = []
    more = W.pick("options", ["", "all"])
    if more:
        args += ["-m", "500", "-d", "2.5", "-s", "out.png", "-n", "name", "-r"]
    try:
        W.argv(MOD, *args)
    except Exception as e:
        if e.__class__.__name__ in ("Unsupported", "Bound"):
            raise
        W.check("refused only without frequencies or with too few weights", kind in ("none", "mismatch"))
        return
    W.check("not refused", kind not in ("none", "mismatch"))
    W.check("once", len(calls) == 1)
    c = calls[0]
    W.closes("frequencies", [x / 1e9 for x in c["freq_array"]], [x / 1e9 for x in f])
    W.check("floating point frequencies", c["freq_array"].dtype.kind == "f")
    e = v if kind in ("weights", "both") else w if kind == "two" else [1.0] * len(f)
    W.closes("weights", list(c["weights_array"]), e)
    W.check("channels", len(c["freq_array"]) == len(c["weights_array"]) == len(f))
    if more:
        W.check("options", c["phi_max"] == 500 and c["dphi"] == 2.5 and c["plotfile"] == "out.png" and c["plotname"] == "name" and c["super_resolution"] is True)
    else:
        W.check("defaults", c["phi_max"] is None and c["dphi"] is None and c["plotfile"] is None and c["plotname"] is None and not c["super_resolution"])
