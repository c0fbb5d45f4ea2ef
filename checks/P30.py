"""Cube peak fitting: every map holds what the 1D measurement gives for that pixel."""
from .lib import total
from .P28 import C, record

PRELOAD = ["RMtools_3D.RMpeakfit_3D"]
BOUNDS = ("cubes of 3 depths and 2 or 3 channels, images of 1x2, 2x1, 2x2, 2x3 (and 1x1) pixels with a symbolic spectrum, RMSF width and Stokes I at every pixel, any pixel blank; rising, falling and "
          "unordered frequencies; a reference wavelength inside the band and zero (super-resolution); no noise, noise per channel (any channel flagged) with uniform and variance weights; "
          "every product; files with 3 and 4 axes, chunk files and the command line options")
ASSUME = ["the 1D measurement itself is P10/P11: here it is replaced by one returning arbitrary values (or failing on blank spectra) and its arguments are checked",
          "files are modelled as in-memory FITS images"]
KEYS = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "indxPeakPIfit", "peakFDFimagFit",
        "peakFDFrealFit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
MORE = ["Ifreq0", "dFDFth", "lam0Sq_m2", "freq0_Hz", "fwhmRMSF", "min_freq", "max_freq", "N_channels", "median_channel_width", "fracPol"]
PEAK = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
SOME = PEAK[:6] + ["peakFDFimagFit", "peakFDFrealFit", "Ifreq0", "lam0Sq_m2"] + PEAK[6:]
FREQS = {2: [(1.0e9, 1.25e9), (1.5e9, 1.25e9)], 3: [(1.0e9, 1.25e9, 1.5e9), (1.75e9, 1.25e9, 1.0e9), (1.25e9, 1.0e9, 2.0e9)]}


def configs(tier):
    q = tier == "quick"
    out = []
    for size in ((1, 2), (2, 1), (2, 3)) if q else ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        for n in (2, 3):
            for noise in ("none", "uniform", "variance"):
                for useI in (False, True):
                    if q and n == 3 and size == (2, 3):
                        continue
                    out.append(dict(name="pixels-%dx%d-%d-%s%s" % (size + (n, noise, "-I" if useI else "")),
                                    args=dict(kind="pixels", size=size, n=n, noise=noise, useI=useI), witnesses=4))
    for lay in ("XYP", "XYSP", "XP", "XYPS"):
        for size in ((2, 3), (1, 2), (2, 1), (1, 1)):
            if lay == "XP" and size[0] > 1:
                continue
            out.append(dict(name="files-%s-%dx%d" % ((lay,) + size), args=dict(kind="files", size=size, n=3, noise=lay, useI=None), witnesses=6, max_paths=3000))
    return out


def answer(F, i):
    return F[0].real * (i + 1) + F[1].imag


class Measure:
    """stand-in for the 1D measurement: arbitrary values; fails on a blank spectrum"""

    def __init__(self, W, M):
        self.seen = []

        def ret(a):
            self.seen.append(a)
            F = a["FDF"]
            if bool(W.isnan(F[0].real)):
                raise ValueError("blank")
            # the pixel is told by its first sample
            return dict(zip(KEYS, [answer(a["FDF"], i) for i in range(len(KEYS))]))
        record(W, M, "measure_FDF_parms", ret)


def harness(W, kind, size, n, noise, useI):
    np = W.np
    if kind == "files":
        d = W.files()
    M = W.mod("RMtools_3D.RMpeakfit_3D")
    ny, nx = size
    pix = [(y, x) for y in range(ny) for x in range(nx)]
    F = {p: [W.cplx(W.real("r%d_%d_%d" % (p + (k,)), lo=-2, hi=2) if k else W.num(1.0 + p[0] * nx + p[1]), W.real("i%d_%d_%d" % (p + (k,)), lo=-2, hi=2)) for k in range(3)] for p in pix}
    fw = {p: W.real("w%d_%d" % p, lo=1, hi=9) for p in pix}
    f = list(W.pick("frequencies", FREQS[n]))
    step = W.real("step", lo=1, hi=9)
    lam = [(C / x) ** 2 for x in f]
    if kind == "files":
        noise, lay, useI = W.pick("noise", ["none", "uniform", "variance"]), noise, bool(W.bool("with Stokes I"))
        if lay == "XP" or 1 in size:
            useI = False      # cubes read with one-pixel axes: P17
    # reference wavelength between the channels, or zero
    sup = bool(W.bool("super-resolution"))
    t = W.pick("reference", [0.25, 0.75]) if not sup else 0
    o = sorted(range(n), key=lambda i: f[i])
    f0 = sum(f) / n if sup else f[o[0]] + t * (f[o[-1]] - f[o[0]])
    lam0 = 0.0 if sup else (C / f0) ** 2
    for a, b in zip(o, o[1:]):
        if b == o[-1] or f0 <= f[b]:
            break
    u = (f0 - f[a]) / (f[b] - f[a])
    I = {p: [W.real("I%d_%d_%d" % (p + (i,)), lo=0.5, hi=3) for i in range(n)] for p in pix} if useI else None
    rms = [W.real("rms%d" % i, lo=0.05, hi=2, nan=kind == "pixels" and i == 0) for i in range(n)]
    blank = pix[-1] if bool(W.bool("a blank pixel")) else None
    if blank:
        F[blank] = [W.cplx(W.num(float("nan")), W.num(float("nan")))] * 3
    m = Measure(W, M)
    cube = lambda c, k: W.pack([[[c[(y, x)][j] for x in range(nx)] for y in range(ny)] for j in range(k)])
    img = lambda c: W.pack([[c[(y, x)] for x in range(nx)] for y in range(ny)])
    if kind == "pixels":
        which = KEYS + MORE
        phi = W.pack([(k - 1) * step for k in range(3)])
        maps = M.pixelwise_peak_fitting(cube(F, 3), phi, img(fw), W.pack([W.num(x) for x in lam]), W.num(lam0), which, noiseArr=None if noise == "none" else W.pack(rms),
                                        stokesIcube=cube(I, n) if useI else None, weightType=noise if noise != "none" else "uniform")
        W.check("products", sorted(maps) == sorted(which))
    else:
        opt = W.pick("products", ["", "-a", "-p"])
        which = {"": SOME, "-a": KEYS + MORE, "-p": PEAK}[opt]
        if opt != "-a" and (useI or noise != "none"):
            W.skip()

        def put(fn, c, depth=None):
            shape = dict(X=nx, Y=ny, S=1, P=depth or 1)
            l = lay if depth else lay.replace("P", "").replace("S", "") if lay == "XP" else lay
            arr = c
            if lay == "XP":
                a = np.reshape(arr, (depth or 1, nx))
                a = a if depth else np.reshape(a, (nx,))
                l = "XP" if depth else "X"
            else:
                a = np.reshape(arr, tuple(shape[x] for x in reversed(lay)) if True else None)
            cards = [("BUNIT", "Jy/beam"), ("LAMSQ0", lam0)]
            for i, x in enumerate(l):
                cards += [("CTYPE%d" % (i + 1), dict(X="RA---SIN", Y="DEC--SIN", S="STOKES", P="FDEP")[x]), ("CRPIX%d" % (i + 1), 2.0 if x == "P" else 1.0),
                          ("CRVAL%d" % (i + 1), 0.0 if x == "P" else 5.0 + i), ("CDELT%d" % (i + 1), step if x == "P" and W.symbolic else float(step) if x == "P" else 0.5),
                          ("CUNIT%d" % (i + 1), "rad/m^2" if x == "P" else "deg")]
            W.put_fits(fn, (a, cards))
        clean = bool(W.bool("cleaned"))
        pre = d + "/p_"
        if opt == "-p" and bool(W.bool("labels elsewhere in the name")):
            W.mod("RMtools_3D.RMpeakfit_3D").os.makedirs(d + "/my_images_tot")
            pre = d + "/my_images_tot/a_real_import_"
        nm = pre + ("FDF_clean_%s.fits" if clean else "FDF_%s_dirty.fits")
        put(nm % "real", cube({p: [v.real for v in F[p]] for p in pix}, 3), 3)
        put(nm % "im", cube({p: [v.imag for v in F[p]] for p in pix}, 3), 3)
        put(nm % "tot", cube({p: [W.num(7.0)] * 3 for p in pix}, 3), 3)
        put(pre + "RMSF_FWHM.fits", img(fw))
        W.put_text(d + "/freq.dat", "\n".join(repr(x) for x in f) + "\n")
        args = [nm % (W.pick("named", ["tot", "real", "im"]) if opt == "-p" else "tot"), d + "/freq.dat", d + "/maps/out_"] + ([opt] if opt else [])
        if useI:
            W.put_fits(d + "/i.fits", (cube(I, n), [("CTYPE1", "RA---SIN"), ("CTYPE2", "DEC--SIN"), ("CTYPE3", "FREQ")]))
            args += ["-i", d + "/i.fits"]
        if noise != "none":
            np.savetxt(d + "/rms.dat", W.pack(rms))
            args += ["-n", d + "/rms.dat", "-w", noise]
        W.argv("RMtools_3D.RMpeakfit_3D", *args)
        maps = {}
        for k in which:
            x, h = W.get_fits(d + "/maps/out_" + k + ".fits")
            W.check(k + ": map axes", h["NAXIS"] == 2 and "CTYPE3" not in h)
            W.check(k + ": unit", h["BUNIT"] == UNIT.get(k, ""))
            maps[k] = x
    # expected noise of the spectrum, in units of Stokes I at the reference frequency
    flagged = [noise != "none" and bool(W.isnan(x)) for x in rms]
    w = [W.num(0.0) if g else W.num(1.0) if noise == "uniform" else 1 / x ** 2 for x, g in zip(rms, flagged)]
    ok = [i for i in range(n) if not flagged[i]]
    if noise != "none":
        s2 = total([w[i] ** 2 * rms[i] ** 2 for i in ok]) / total([w[i] for i in ok]) ** 2
    for k in which:
        W.check(k + ": map shape", tuple(maps[k].shape) == (ny, nx))
    for p in pix:
        if p == blank:
            for k in which:
                W.check("blank pixel: " + k, W.isnan(maps[k][p]))
            continue
        i0 = I[p][a] * (1 - u) + I[p][b] * u if useI else W.num(1.0)
        for i, k in enumerate(KEYS):
            if k in which:
                W.close("%s at %s" % (k, p), maps[k][p], answer(F[p], i), rtol=1e-5)
        if kind == "pixels":
            mine = [c for c in m.seen if bool(W.eq(c["FDF"][0].real, F[p][0].real))]
            W.check("measured", len(mine) >= 1)
            c = mine[0]
            W.closes("spectrum", list(c["FDF"]), F[p])
            W.close("RMSF width used", c["fwhmRMSF"], fw[p])
            W.closes("depths", list(c["phiArr"]), [(k - 1) * step for k in range(3)])
            W.closes("wavelengths", list(c["lamSqArr_m2"]), lam)
            W.close("reference wavelength used", c["lam0Sq"], lam0)
            if noise == "none":
                W.check("noise to be measured", c["dFDF"] is None)
            else:
                W.close("noise used", c["dFDF"] ** 2, s2 * i0 ** 2, rtol=1e-5)
                W.check("noise positive", c["dFDF"] > 0)
        fl = sorted(f)
        dif = sorted(f[i + 1] - f[i] for i in range(n - 1))
        exp = dict(Ifreq0=i0, lam0Sq_m2=lam0, freq0_Hz=f0, fwhmRMSF=fw[p], min_freq=fl[0], max_freq=fl[-1], N_channels=n,
                   median_channel_width=(dif[(n - 2) // 2] + dif[(n - 1) // 2]) / 2)
        for k, v in exp.items():
            if k in which:
                s = 1e9 if "freq" in k or "width" in k else 1.0
                s = 1.0 if k == "Ifreq0" else s
                W.close("%s at %s" % (k, p), maps[k][p] / s, v / s, rtol=1e-5)
        if "fracPol" in which:
            W.close("fracPol at %s" % (p,), maps["fracPol"][p] * i0, answer(F[p], 4), rtol=1e-5)
        if "dFDFth" in which:
            if noise == "none":
                W.check("no theoretical noise", W.isnan(maps["dFDFth"][p]))
            else:
                W.close("dFDFth at %s" % (p,), maps["dFDFth"][p] ** 2, s2 * i0 ** 2, rtol=1e-5)


J = "Jy/beam"
UNIT = {"dFDFcorMAD": J, "phiPeakPIfit_rm2": "rad/m^2", "dPhiPeakPIfit_rm2": "rad/m^2", "ampPeakPIfit": J, "ampPeakPIfitEff": J, "dAmpPeakPIfit": J, "peakFDFimagFit": J,
        "peakFDFrealFit": J, "polAngleFit_deg": "deg", "dPolAngleFit_deg": "deg", "polAngle0Fit_deg": "deg", "dPolAngle0Fit_deg": "deg", "Ifreq0": J, "lam0Sq_m2": "m^2",
        "freq0_Hz": "Hz", "fwhmRMSF": "rad/m^2", "dFDFth": J, "min_freq": "Hz", "max_freq": "Hz", "median_channel_width": "Hz"}
