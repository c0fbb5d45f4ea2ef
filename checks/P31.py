"""Files of the 1D tools: what one tool writes, the next reads back."""
from .P28 import record

PRELOAD = ["RMtools_1D.do_RMsynth_1D", "RMtools_1D.do_RMclean_1D"]
S, CL = PRELOAD
BOUNDS = ("spectra of 1 to 4 depths (RMSF 2 to 6), 1 to 4 channels, every value symbolic (NaN or not), summaries with symbolic numbers, integers, logicals, text and arrays; "
          "input tables of 1 to 8 columns and 2 or 3 rows with comment lines; file names with and without directories and extensions; 32- and 64-bit settings; every command line option")
ASSUME = ["text files hold numbers exactly (the decimal text of a number reads back as that number); 32-bit storage is treated as exact",
          "synthesis, cleaning and plotting are the subjects of P28, P39 and P26: the command line tools are run with stand-ins for them that record their arguments"]


def configs(tier):
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(dict(name="synthesis-%d" % n, args=dict(kind="synth", n=n), witnesses=5))
        out.append(dict(name="clean-%d" % n, args=dict(kind="clean", n=n), witnesses=5))
    for cols in range(1, 9):
        for n in (2,) if tier == "quick" else (2, 3):
            out.append(dict(name="table-%d-%d" % (cols, n), args=dict(kind="table", n=(cols, n)), witnesses=4))
    out.append(dict(name="tool-synthesis", args=dict(kind="maini", n=2), witnesses=20, max_paths=6000))
    out.append(dict(name="tool-clean", args=dict(kind="mainc", n=2), witnesses=20, max_paths=6000))
    return out


NAMES = ["out", "dir/src.1", "a.b/c"]


def summary(W, tag=""):
    """a results dictionary with every kind of value the tools report"""
    np = W.np
    return {"ampPeakPIfit": W.real("amp" + tag), "missing": W.real("missing" + tag, nan=True), "zero": W.num(0.0), "units": "Jy/beam", "fitStatus": 3, "nChan": 288, "dynamic": True,
            "nothing": None, "polyCoeffs": "0.0,1.5,-2.0", "arr": W.pack([W.real("arr0" + tag), W.num(2.5)]), "dFDFth": W.real("dFDFth" + tag, lo=0.1, hi=9),
            "ratio": np.sqrt(W.num(4.0))}


def same(W, label, got, exp):
    exp = exp if isinstance(exp, (list, tuple)) else list(exp)
    W.check(label + ": length", len(got) == len(exp))
    for i in range(len(exp)):
        one(W, "%s[%d]" % (label, i), got[i], exp[i])


def one(W, label, g, e):
    if e is None or isinstance(e, (str, bool)):
        W.check(label, g == e)
    elif bool(W.isnan(e)):
        W.check(label + " NaN", W.isnan(g))
    else:
        W.check(label + " not NaN", W.not_(W.isnan(g)))
        W.close(label, g, e, rtol=1e-12)


def check_summary(W, fn, m):
    j = W.get_json(fn + ".json")
    W.check("json entries", sorted(j) == sorted(m))
    lines = W.get_text(fn + ".dat").split("\n")
    W.check("one line per entry", lines[-1] == "" and len(lines) == len(m) + 1)
    for (k, v), line in zip(m.items(), lines):
        if not hasattr(v, "tolist") or getattr(v, "shape", ()) == ():
            one(W, "json " + k, j[k], v)
        else:
            same(W, "json " + k, j[k], list(v))
        key, eq, text = line.partition("=")
        W.check("line " + k, key == k and eq == "=")
        if isinstance(v, str) or v is None or isinstance(v, bool):
            W.check("text " + k, text == str(v))
        elif not isinstance(v, (list, tuple)) and getattr(v, "shape", ()) == ():
            one(W, "text " + k, W.parse(text), v)


def table(W, label, fn, cols):
    t = W.np.loadtxt(fn, unpack=True, ndmin=2)
    W.check(label + ": columns", len(t) == len(cols))
    for i, c in enumerate(cols):
        same(W, "%s column %d" % (label, i), t[i], c)


def harness(W, kind, n):
    d = W.files()
    np = W.np
    MS, MC = W.mod(S), W.mod(CL)
    cx = lambda tag, k: [W.cplx(W.real("%sr%d" % (tag, i), nan=i == 0), W.real("%si%d" % (tag, i))) for i in range(k)]
    re = lambda tag, k, nan=False: [W.real("%s%d" % (tag, i), nan=nan and i == 0) for i in range(k)]
    parts = lambda x: ([v.real for v in x], [v.imag for v in x])
    if kind in ("synth", "clean"):
        name = W.pick("name", NAMES)
        if "/" in name:
            MS.os.makedirs(d + "/" + name.rsplit("/", 1)[0])
        p = d + "/" + name
        m = summary(W)
        phi, F = re("phi", n), cx("F", n)
        k = W.pick("channels", [max(n - 1, 1), n + 1])
        if kind == "synth":
            phi2, R, f, w = re("psi", n + 2), cx("R", n + 2), re("f", k), re("w", k, True)
            a = dict(phiArr_radm2=W.pack(phi), dirtyFDF=W.pack(F), phi2Arr_radm2=W.pack(phi2), RMSFArr=W.pack(R), freqArr_Hz=W.pack(f), weightArr=W.pack(w), other=W.pack([W.num(1.0)]))
            MS.saveOutput(dict(m), a, p, False)
            table(W, "spectrum", p + "_FDFdirty.dat", [phi, *parts(F)])
            table(W, "RMSF", p + "_RMSF.dat", [phi2, *parts(R)])
            table(W, "weights", p + "_weight.dat", [f, w])
            check_summary(W, p + "_RMsynth", m)
            if n == 1 or k == 1:
                return             # tables of one line
            m2, b = MC.readFiles(p + "_FDFdirty.dat", p + "_RMSF.dat", p + "_weight.dat", p + "_RMsynth.json", 64)
            for key, e in (("phiArr_radm2", phi), ("phi2Arr_radm2", phi2), ("freqArr_Hz", f), ("weightArr", w)):
                same(W, "read " + key, b[key], e)
            for key, e in (("dirtyFDF", F), ("RMSFArr", R)):
                same(W, "read real " + key, [x.real for x in b[key]], [x.real for x in e])
                same(W, "read imag " + key, [x.imag for x in b[key]], [x.imag for x in e])
            for key in m:
                if key == "arr":
                    same(W, "read arr", m2[key], list(m[key]))
                else:
                    one(W, "read " + key, m2[key], m[key])
        else:
            cc = cx("C", n)
            a = dict(phiArr_radm2=W.pack(phi), freqArr_Hz=W.pack(re("f", k)), cleanFDF=W.pack(F), ccArr=W.pack(cc), iterCountArr=W.pack([W.num(4)]), residFDF=W.pack(cx("E", n)))
            MC.saveOutput(dict(m), a, p, False)
            table(W, "clean spectrum", p + "_FDFclean.dat", [phi, *parts(F)])
            table(W, "components", p + "_FDFmodel.dat", [phi, *parts(cc)])
            check_summary(W, p + "_RMclean", m)
        return
    if kind == "table":
        nc, n = n
        v = [[W.real("t%d_%d" % (i, j), nan=i == 0 and j < 2) for j in range(nc)] for i in range(n)]
        np.savetxt(d + "/in.dat", W.pack(v))
        if bool(W.bool("with comments")):
            W.put_text(d + "/in.dat", "# freq I Q U\n" + W.get_text(d + "/in.dat") + "# end\n")
        try:
            got = MS.readFile(d + "/in.dat", W.pick("bits", [64, 32]), verbose=False)
        except SystemExit:
            got = None
        W.check("5 or 7 columns accepted, others refused", (got is not None) == (nc in (5, 7)))
        if got is not None:
            W.check("columns", len(got) == nc)
            for j in range(nc):
                same2(W, "column %d" % j, got[j], [v[i][j] for i in range(n)])
        return
    if kind == "maini":
        mres, ares = {"x": W.real("x")}, {"phiArr_radm2": W.pack(re("phi", n)), "dirtyFDF": W.pack(cx("F", n)), "phi2Arr_radm2": W.pack(re("psi", n)), "RMSFArr": W.pack(cx("R", n)),
                                        "freqArr_Hz": W.pack(re("f", n)), "weightArr": W.pack(re("w", n))}
        calls = record(W, MS, "run_rmsynth", lambda a: (mres, ares))
        five = bool(W.bool("five columns"))
        v = [[W.real("t%d_%d" % (i, j)) for j in range(5 if five else 7)] for i in range(n)]
        fn = d + "/" + W.pick("name", ["in.dat", "in", "my.in.txt"])
        np.savetxt(fn, W.pack(v))
        want = dict(polyOrd=2, phiMax_radm2=None, dPhi_radm2=None, nSamples=10, weightType="variance", fitRMSF=False, noStokesI=False, nBits=32, showPlots=False, units="Jy/beam",
                    fit_function="log", super_resolution=False)
        opts = [("fitRMSF", "-t", None, True), ("phiMax_radm2", "-l", "250.5", 250.5), ("dPhi_radm2", "-d", "0.25", 0.25), ("nSamples", "-s", "7", 7), ("weightType", "-w", "uniform", "uniform"),
                ("fit_function", "-f", "linear", "linear"), ("polyOrd", "-o", "-4", -4), ("noStokesI", "-i", None, True), ("nBits", "-b", None, 64), ("units", "-U", "mJy", "mJy"),
                ("super_resolution", "-r", None, True), (None, None, None, None)]
        args = []
        for key, flag, val, to in W.pick("options", [[o] for o in opts] + [opts[:6], opts[6:11]]):
            if key:
                args += [flag] + ([val] if val else [])
                want[key] = to
        save = bool(W.bool("save"))
        W.argv(S, fn, *args, *(["-S"] if save else []))
        W.check("synthesis run once", len(calls) == 1)
        for key, e in want.items():
            W.check("option " + key, calls[0][key] == e)
        dat = calls[0]["data"]
        W.check("columns passed on", len(dat) == len(v[0]))
        for j in range(len(v[0])):
            same2(W, "column %d" % j, dat[j], [r[j] for r in v])
        pre = fn[:-4] if fn[-4:-3] == "." else fn
        if save:
            table(W, "spectrum", pre + "_FDFdirty.dat", [ares["phiArr_radm2"], *parts(ares["dirtyFDF"])])
            W.check("summary", sorted(W.get_json(pre + "_RMsynth.json")) == ["x"])
        else:
            W.check("nothing written", len(W.listdir()) == 1)
        return
    # the clean tool on the files of the synthesis tool
    fn = d + "/" + W.pick("name", ["in.dat", "in", "my.in.txt"])
    pre = fn[:-4] if fn[-4:-3] == "." else fn
    m = summary(W)
    phi, F, phi2, R, f, w = re("phi", n), cx("F", n), re("psi", n), cx("R", n), re("f", n), re("w", n)
    MS.saveOutput(dict(m), dict(phiArr_radm2=W.pack(phi), dirtyFDF=W.pack(F), phi2Arr_radm2=W.pack(phi2), RMSFArr=W.pack(R), freqArr_Hz=W.pack(f), weightArr=W.pack(w)), pre, False)
    before = W.listdir()
    cl = {"y": W.real("y")}
    ca = dict(phiArr_radm2=W.pack(re("z", n)), cleanFDF=W.pack(cx("C", n)), ccArr=W.pack(cx("M", n)))
    calls = record(W, MC, "run_rmclean", lambda a: (cl, ca))
    want = dict(cutoff=-3, maxIter=1000, gain=0.1, window=None)
    opts = [("cutoff", "-c", "-8", -8), ("cutoff", "-c", "0.125", 0.125), ("window", "-w", "-4.5", -4.5), ("maxIter", "-n", "17", 17), ("gain", "-g", "0.25", 0.25), (None, None, None, None)]
    args = []
    for key, flag, val, to in W.pick("options", [[o] for o in opts] + [opts[1:5]]):
        if key:
            args += [flag, val]
            want[key] = to
    save = bool(W.bool("save"))
    W.argv(CL, fn, *args, *(["-S"] if save else []))
    W.check("clean run once", len(calls) == 1)
    for key, e in want.items():
        W.check("option " + key, calls[0][key] == e)
    a = calls[0]["aDict"]
    for key, e in (("phiArr_radm2", phi), ("phi2Arr_radm2", phi2), ("freqArr_Hz", f), ("weightArr", w)):
        same2(W, "read " + key, a[key], e)
    for key, e in (("dirtyFDF", F), ("RMSFArr", R)):
        same2(W, "read real " + key, [x.real for x in a[key]], [x.real for x in e])
        same2(W, "read imag " + key, [x.imag for x in a[key]], [x.imag for x in e])
    for key in ("ampPeakPIfit", "dFDFth", "units", "nChan"):
        one(W, "read " + key, calls[0]["mDict"][key], m[key])
    if save:
        table(W, "components", pre + "_FDFmodel.dat", [ca["phiArr_radm2"], *parts(ca["ccArr"])])
        W.check("clean summary", sorted(W.get_json(pre + "_RMclean.json")) == ["y"])
    else:
        W.check("nothing more written", W.listdir() == before)


def same2(W, label, got, exp):
    """the same to 32-bit storage"""
    W.check(label + ": length", len(got) == len(exp))
    for i in range(len(exp)):
        if bool(W.isnan(exp[i])):
            W.check("%s[%d] NaN" % (label, i), W.isnan(got[i]))
        else:
            W.check("%s[%d] not NaN" % (label, i), W.not_(W.isnan(got[i])))
            W.close("%s[%d]" % (label, i), got[i], exp[i], rtol=1e-6, atol=1e-37)
