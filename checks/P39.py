"""The RM-CLEAN tools: thresholds in the documented units, results of that clean reported and saved."""
from .lib import quiet
from .P28 import record, C

PRELOAD = ["RMtools_1D.do_RMclean_1D", "RMtools_3D.do_RMclean_3D"]
BOUNDS = ("1D: spectra of 3 depths (RMSF 5), 2 channels in either order, every array value, the noise, threshold and window (any sign, or none) symbolic, and any result of the clean, the measurement and the component moment; "
          "3D: files of 3 and 4 axes with 3 depths and 2x2, 2x3 or 1x2 pixels, symbolic values and thresholds, separate and multi-extension output, every option of the command line, "
          "with no, one or several worker processes")
ASSUME = ["the clean itself (P06-P09), the peak measurement (P10, P11) and the moment (P34) are replaced by stand-ins that return arbitrary values and whose arguments are checked",
          "files are modelled in memory; plots are not examined; worker pools are recorded, not started"]
ONE, THREE = PRELOAD


def configs(tier):
    out = [dict(name="spectrum-%s-%s" % (c, w), args=dict(kind="1", a=c, b=w), witnesses=6) for c in ("sigma", "flux", "any") for w in ("none", "sigma", "flux", "any")]
    out += [dict(name="cubes-%s-%dx%d" % (lay, sz[0], sz[1]), args=dict(kind="3", a=lay, b=sz), witnesses=8, max_paths=6000)
            for lay in ("XYP", "XYSP", "PXY", "XYPS") for sz in ((2, 2), (2, 3), (1, 2))]
    return out


KEYS = ["dPhiPeakPIfit_rm2", "dFDFcorMAD", "dPolAngleFit_deg", "dPolAngle0Fit_deg", "ampPeakPIfit", "phiPeakPIfit_rm2", "polAngleFit_deg", "polAngle0Fit_deg",
        "dAmpPeakPIfit", "snrPIfit"]


def threshold(W, name, kind):
    if kind == "none":
        return None
    return W.real(name, **{"sigma": dict(lo=-9, hi=-0.125), "flux": dict(lo=0.01, hi=9), "any": dict(lo=-9, hi=9)}[kind])


def absolute(W, t, noise):
    if t is None:
        return None
    return -t * noise if bool(t < 0) else t


def harness(W, kind, a, b):
    (one if kind == "1" else cubes)(W, a, b)


def one(W, ck, wk):
    M = W.mod(ONE)
    U = W.mod("RMutils.util_RM")
    cx = lambda tag, k: W.pack([W.cplx(W.real("%sr%d" % (tag, i), lo=-5, hi=5), W.real("%si%d" % (tag, i), lo=-5, hi=5)) for i in range(k)])
    d = W.real("d", lo=0.5, hi=9)
    phi, phi2 = W.pack([(k - 1) * d for k in range(3)]), W.pack([(k - 2) * d for k in range(5)])
    f = W.pick("frequencies", [(1e9, 1.5e9), (2e9, 1.25e9)])
    a = dict(phiArr_radm2=phi, phi2Arr_radm2=phi2, dirtyFDF=cx("D", 3), RMSFArr=cx("R", 5), freqArr_Hz=W.pack([W.num(x) for x in f]), weightArr=W.pack([W.num(1.0), W.num(2.0)]))
    noise, fw, l0 = W.real("noise", lo=0.01, hi=2), W.real("fwhm", lo=1, hi=9), W.real("lam0", lo=0, hi=0.1)
    m = dict(dFDFth=noise, fwhmRMSF=fw, lam0Sq_m2=l0, units="Jy", dQU=W.num(1.0), freq0_Hz=W.num(1e9), Ifreq0=W.num(1.0))
    keep_m, keep_a = dict(m), {k: list(v) for k, v in a.items()}
    cut, win = threshold(W, "cutoff", ck), threshold(W, "window", wk)
    out = dict(clean=cx("C", 3), cc=cx("M", 3), res=cx("E", 3))
    it = W.pick("iterations", [0, 7])
    calls = record(W, M, "do_rmclean_hogbom", lambda k: U.RMCleanResults(cleanFDF=out["clean"], ccArr=out["cc"], iterCountArr=W.np.asarray(W.num(it)), residFDF=out["res"]))
    vals = {k: W.real("m_" + k, lo=0.125, hi=9, nan=k == "dPhiPeakPIfit_rm2") for k in KEYS}
    meas = record(W, M, "measure_FDF_parms", lambda k: dict(vals))
    mom = record(W, M, "measure_fdf_complexity", W.real("moment", lo=0, hi=9))
    mm, aa = M.run_rmclean(m, a, cut, maxIter=17, gain=0.25, nBits=64, log=quiet, verbose=bool(W.bool("verbose")), window=win)
    ac, aw = absolute(W, cut, noise), absolute(W, win, noise)
    W.check("cleaned once", len(calls) == len(meas) == len(mom) == 1)
    c = calls[0]
    W.close("threshold", c["cutoff"], ac)
    W.check("limits", c["maxIter"] == 17 and c["gain"] == 0.25)
    if aw is None:
        W.check("no window", W.isnan(c["window"]))
    else:
        W.close("window threshold", c["window"], aw)
    W.closes("RMSF width", list(W.np.reshape(W.np.asarray(c["fwhmRMSFArr"]), (-1,))), [fw])
    for k, e in (("dirtyFDF", "dirtyFDF"), ("phiArr_radm2", "phiArr_radm2"), ("RMSFArr", "RMSFArr"), ("phi2Arr_radm2", "phi2Arr_radm2")):
        W.closes("cleaned " + k, list(c[k]), keep_a[e], rtol=1e-9)
    c = meas[0]
    W.closes("measured on the restored spectrum", list(c["FDF"]), list(out["clean"]), rtol=1e-9)
    W.closes("measured on the depths", list(c["phiArr"]), keep_a["phiArr_radm2"], rtol=1e-9)
    W.closes("measured with", [c["fwhmRMSF"], c["dFDF"], c["lam0Sq"]], [fw, noise, l0])
    W.closes("measured with wavelengths", list(c["lamSqArr_m2"]), [(C / x) ** 2 for x in f], rtol=1e-9)
    W.closes("moment of the components", list(mom[0]["FDF"]), list(out["cc"]), rtol=1e-9)
    W.closes("moment over the depths", list(mom[0]["phiArr"]), keep_a["phiArr_radm2"], rtol=1e-9)
    for k, v in vals.items():
        if bool(W.isnan(v)):
            W.check("reported " + k, W.isnan(mm[k]))
        else:
            W.close("reported " + k, mm[k], v)
    W.close("reported cutoff", mm["cleanCutoff"], ac)
    W.check("reported iterations", mm["nIter"] == it)
    W.close("reported moment", mm["mom2CCFDF"], W.real("moment", lo=0, hi=9))
    ratio = vals["dFDFcorMAD"] / noise
    W.close("observed amplitude error", mm["dAmpObserved"], vals["dFDFcorMAD"])
    for k, e in (("dPhiObserved_rm2", "dPhiPeakPIfit_rm2"), ("dPolAngleFitObserved_deg", "dPolAngleFit_deg"), ("dPolAngleFit0Observed_deg", "dPolAngle0Fit_deg")):
        if bool(W.isnan(vals[e])):
            W.check("observed error " + k, W.isnan(mm[k]))
        else:
            W.close("observed error " + k, mm[k], vals[e] * ratio, rtol=1e-9)
    for k, e in (("cleanFDF", out["clean"]), ("ccArr", out["cc"]), ("residFDF", out["res"]), ("phiArr_radm2", keep_a["phiArr_radm2"]), ("freqArr_Hz", keep_a["freqArr_Hz"])):
        W.closes("returned " + k, list(aa[k]), list(e), rtol=1e-9)
    W.check("returned iterations", int(aa["iterCountArr"]) == it)
    W.check("synthesis summary untouched", sorted(m) == sorted(keep_m))
    for k, v in keep_a.items():
        W.closes("input untouched: " + k, list(a[k]), v)


class Pool:
    def __init__(self):
        self.master = True

    def is_master(self):
        return self.master


def cubes(W, lay, size):
    d = W.files()
    M = W.mod(THREE)
    np = W.np
    ny, nx = size
    step, l0 = W.real("d", lo=0.5, hi=9), W.real("lam0", lo=0.01, hi=0.1)
    shape = lambda k: tuple(dict(X=nx, Y=ny, S=1, P=k)[c] for c in reversed(lay))
    val = lambda tag, k: [[[W.real("%s%d_%d_%d" % (tag, f, y, x), lo=-3, hi=3) for x in range(nx)] for y in range(ny)] for f in range(k)]

    def layout(v, k):
        """nested [depth][y][x] values as an array of the file's layout"""
        o = {}
        for f in range(k):
            for y in range(ny):
                for x in range(nx):
                    o[tuple(dict(X=x, Y=y, S=0, P=f)[c] for c in reversed(lay))] = v[f][y][x]

        def build(ix):
            return o[ix] if len(ix) == len(lay) else [build(ix + (j,)) for j in range(shape(k)[len(ix)])]
        return W.pack(build(()))

    def cards(k):
        out = [("BUNIT", "Jy/beam"), ("LAMSQ0", l0 if W.symbolic else float(l0))]
        for i, c in enumerate(lay):
            out += [("CTYPE%d" % (i + 1), dict(X="RA---SIN", Y="DEC--SIN", S="STOKES", P="FDEP")[c]), ("CRPIX%d" % (i + 1), (k + 1) / 2.0 if c == "P" else 1.0),
                    ("CRVAL%d" % (i + 1), 0.0 if c == "P" else 5.0 + i), ("CDELT%d" % (i + 1), (step if W.symbolic else float(step)) if c == "P" else 0.5),
                    ("CUNIT%d" % (i + 1), "rad/m^2" if c == "P" else "deg")]
        return out
    Dr, Di, Rr, Ri = val("Dr", 3), val("Di", 3), val("Rr", 5), val("Ri", 5)
    fw = [[W.real("w%d_%d" % (y, x), lo=1, hi=9) for x in range(nx)] for y in range(ny)]
    # what varies: options, worker pool, input names, output form
    vary = W.pick("vary", ["options", "workers", "inputs", "outputs"])
    pick = lambda what, name, o: W.pick(name, o) if vary == what else o[0]
    sub = pick("outputs", "directory", ["", "/x"]) or pick("inputs", "directory name", ["", "/my_images", "/run_real.d"])
    if sub:
        M.os.makedirs(d + sub)
    base = d + sub + ("/s_" if "_" not in sub else "/a_tot_imaged_s_")
    for nm, v, k in (("FDF_real_dirty", Dr, 3), ("FDF_im_dirty", Di, 3), ("FDF_tot_dirty", Dr, 3), ("RMSF_real", Rr, 5), ("RMSF_im", Ri, 5), ("RMSF_tot", Rr, 5)):
        W.put_fits(base + nm + ".fits", (layout(v, k), cards(k)))
    W.put_fits(base + "RMSF_FWHM.fits", (W.pack(fw), [("BUNIT", "rad/m^2")]))
    out = {k: [[[W.cplx(W.real("%sr%d_%d_%d" % (k, f, y, x), lo=-3, hi=3), W.real("%si%d_%d_%d" % (k, f, y, x), lo=-3, hi=3)) for x in range(nx)] for y in range(ny)] for f in range(3)]
           for k in ("clean", "cc", "res")}
    sk = "".join(c for c in reversed(lay) if c in "XY")

    def simple(v, k):
        """[depth, sky...] without degenerate axes, the way cubes are handed to the clean"""
        a = W.pack(v) if k else W.pack([v])
        if sk == "XY":
            a = np.swapaxes(a, 1, 2)
        sq = tuple(dict(X=nx, Y=ny)[c] for c in sk if dict(X=nx, Y=ny)[c] > 1)
        return np.reshape(a, (k,) + sq) if k else np.reshape(a, sq)
    U = W.mod("RMutils.util_RM")
    niter = [[3 + y * nx + x for x in range(nx)] for y in range(ny)]
    calls = record(W, M, "do_rmclean_hogbom", lambda a: U.RMCleanResults(cleanFDF=simple(out["clean"], 3), ccArr=simple(out["cc"], 3), iterCountArr=simple(niter, 0), residFDF=simple(out["res"], 3)))
    want = dict(cutoff=1.0, window=None, maxIter=1000, gain=0.1, chunksize=None)
    made = []

    class Sch:
        @staticmethod
        def choose_pool(mpi=False, processes=1, **k):
            made.append((mpi, processes))
            return Pool()
    W.patch(M, "schwimmbad", Sch)
    W.patch(M, "parallel_available", True)
    opts = [("cutoff", "-c", "0.25", 0.25), ("window", "-w", "0.125", 0.125), ("maxIter", "-n", "17", 17), ("gain", "-g", "0.5", 0.5), (None, None, None, None)]
    args = []
    for k, flag, v, to in pick("options", "options", [opts[:4]] + [[o] for o in opts]):
        if k:
            args += [flag, v]
            want[k] = to
    par = pick("workers", "workers", [0, 1, 3])
    if par:
        args += ["--ncores", str(par), "--chunk", "5"]
        want["chunksize"] = 5 if par > 1 else None
    sep, pre = pick("outputs", "extensions", [True, False]), pick("outputs", "prefix", ["", "t_"])
    args += ([] if sep else ["-f"]) + (["-o", pre] if pre else [])
    W.argv(THREE, base + pick("inputs", "named", ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"]) + ".fits", base + pick("inputs", "RMSF named", ["RMSF_tot", "RMSF_im", "RMSF_real"]) + ".fits", *args)
    W.check("cleaned once", len(calls) == 1)
    c = calls[0]
    for k, e in want.items():
        if k == "window" and e is None:
            W.check("no window", W.isnan(c[k]))
        else:
            W.check("option " + k, c[k] is e is None if e is None else c[k] == e)
    W.check("workers", made == ([(False, par)] if par else []) and (c["pool"] is not None) == bool(par))
    sq = tuple(dict(X=nx, Y=ny)[x] for x in sk if dict(X=nx, Y=ny)[x] > 1)
    for nm, got, e, k in (("real", [c["dirtyFDF"].real, c["RMSFArr"].real], [Dr, Rr], 0), ("imag", [c["dirtyFDF"].imag, c["RMSFArr"].imag], [Di, Ri], 0)):
        for g, v, n in ((got[0], e[0], 3), (got[1], e[1], 5)):
            W.check("axes of the cubes", tuple(g.shape) == (n,) + sq)
            W.close("cleaned %s %d" % (nm, n), g, simple(v, n), rtol=1e-6)
    W.closes("depths", list(c["phiArr_radm2"]), [(k - 1) * step for k in range(3)], rtol=1e-6, atol=1e-9)
    W.closes("RMSF depths", list(c["phi2Arr_radm2"]), [(k - 2) * step for k in range(5)], rtol=1e-6, atol=1e-9)
    W.check("RMSF width", tuple(np.asarray(c["fwhmRMSFArr"]).shape) == tuple(x for x in (ny, nx) if x > 1))
    W.closes("RMSF widths", list(np.reshape(np.asarray(c["fwhmRMSFArr"]), (-1,))), [w for r in fw for w in r], rtol=1e-6)
    o = d + sub + "/" + pre
    for nm, v in (("FDF_clean", out["clean"]), ("FDF_CC", out["cc"])):
        for i, part in enumerate(("real", "im", "tot")):
            arr, h = W.get_fits(o + nm + "_" + part + ".fits") if sep else W.get_fits(o + nm + ".fits", i)
            f = {"real": lambda z: z.real, "im": lambda z: z.imag, "tot": abs}[part]
            W.close("saved %s %s" % (nm, part), arr, layout([[[f(z) for z in r] for r in p] for p in v], 3), rtol=1e-6)
            p = str(lay.index("P") + 1)
            W.close("saved depths", h["CRVAL" + p] + (1 - h["CRPIX" + p]) * h["CDELT" + p], -step, rtol=1e-9)
            W.check("saved axis", h["CTYPE" + p] == "FDEP")
            W.close("saved reference wavelength", h["LAMSQ0"], l0, rtol=1e-9)
    arr, h = W.get_fits(o + "CLEAN_nIter.fits")
    W.closes("iterations saved", list(np.reshape(arr, (-1,))), [float(z) for z in (sum(map(list, zip(*niter)), []) if sk == "XY" else sum(niter, []))])
