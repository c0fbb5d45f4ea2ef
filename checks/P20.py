"""Stokes I fitting of a cube: every pixel's model where the pixel is; mask and noise rules."""
from .lib import total

PRELOAD = ["RMtools_3D.do_fitIcube"]
BOUNDS = ("images of 2x3, 3x2, 1x3, 3x1 and 1x1 pixels (3x3 in thorough) with 2 channels, symbolic samples and arbitrary (symbolic) fit results per spectrum, every mask; "
          "noise and mask rules on 3 (4) symbolic pixels with blank pixels and a second blank or fixed channel; 3 and 4 axis headers; serial and pooled execution")
ASSUME = ["the Stokes I fit of one spectrum is an arbitrary function of that spectrum (its own properties: P13-P15)",
          "worker pools return results in submission order (the documented contract of map)", "files are modelled as in-memory FITS images"]


def configs(tier):
    sizes = [(2, 3), (3, 2), (1, 3), (3, 1), (1, 1)] if tier == "quick" else [(2, 3), (3, 2), (1, 3), (3, 1), (1, 1), (3, 3)]
    out = []
    for s in sizes:
        for masked in (False, True):
            out.append(dict(name="cube-%dx%d%s" % (s[0], s[1], "-masked" if masked else ""), args=dict(kind="cube", size=s, masked=masked), max_paths=3000, witnesses=4,
                            nosearch=True))
    for lay in ("XYSF", "XYFS"):
        out.append(dict(name="cube-" + lay, args=dict(kind="cube", size=(2, 3), masked=False, lay=lay), max_paths=3000, witnesses=4, nosearch=True))
    for t in ("absolute", "sigma"):
        out.append(dict(name="noise-" + t, args=dict(kind="noise", npix=3 if tier == "quick" else 4, mode=t), max_paths=60000, witnesses=8, budget=300))
    out.append(dict(name="main", args=dict(kind="main"), max_paths=3000, witnesses=4, nosearch=True))
    return out


CT = {"X": "RA---SIN", "Y": "DEC--SIN", "S": "STOKES", "F": "FREQ"}


OPTS = [(0, True, False, "log", -3), (1, False, True, "linear", 0.5), (2, True, True, "log", 0.5), (5, False, False, "linear", -3), (-3, True, False, "log", -3)]
FULL = [(b, v, f, t) for b in (True, False) for v in (True, False) for f in ("log", "linear") for t in (-3, 0.5)]


def hdr(lay, size, bunit=True):
    out = [("SIMPLE", True), ("BITPIX", -64), ("NAXIS", len(lay))] + [("NAXIS%d" % (i + 1), size[c]) for i, c in enumerate(lay)]
    out += [("BUNIT", "Jy/beam")] if bunit else []
    for i, c in enumerate(lay):
        out += [("CTYPE%d" % (i + 1), CT[c]), ("CRPIX%d" % (i + 1), 1.0), ("CRVAL%d" % (i + 1), 10.0 + i), ("CDELT%d" % (i + 1), 0.5), ("CUNIT%d" % (i + 1), {"F": "Hz", "S": ""}.get(c, "deg"))]
    return out


class Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, items, chunksize=None):
        return [f(x) for x in items]

    imap = starmap = map

    def close(self):
        pass

    join = terminate = close


class MP:
    Pool = Pool

    @staticmethod
    def set_start_method(*a, **k):
        pass

    @staticmethod
    def get_context(*a, **k):
        return MP


def median(W, v):
    """of a list with NaN-free scalars"""
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if bool(v[j] > v[j + 1]):
                v[j], v[j + 1] = v[j + 1], v[j]
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def mad(W, v):
    if not v:
        return W.nan
    m = median(W, v)
    return median(W, [abs(x - m) for x in v]) / W.num(0.6745)


def med(W, v):
    return median(W, v) if v else W.nan


def harness(W, kind, size=None, masked=False, lay="XYF", npix=0, mode=None):
    d = W.files()
    M = W.mod("RMtools_3D.do_fitIcube")
    np = W.np
    if kind == "noise":
        return noise(W, M, npix, mode)
    if kind == "main":
        return cmdline(W, M, d)
    ny, nx = size
    n = 2
    sz = dict(X=nx, Y=ny, S=1, F=n)
    cube = W.array("v", (n, ny, nx), lo=-9, hi=9)
    f = W.pack([W.num(1.0e9), W.num(1.25e9)])
    rms = W.array("rms", n, lo=0.1, hi=1)
    order, bunit, verbose, fn, thr = W.pick("options", OPTS)
    if not masked:
        bunit, verbose, fn, thr = W.pick("flags", FULL)
    head = W.header(hdr(lay, sz, bunit))
    before = list(head.items())
    src = [[(bool(W.bool("m%d%d" % (y, x))) if masked else True) for x in range(nx)] for y in range(ny)]
    if not any(any(r) for r in src):
        W.skip()
    mask = np.array([[1.0 if s else 0.0 for s in r] for r in src])
    cube0 = cube.copy()
    K = [[W.num((3 * i + j + 1) / 8) for j in range(n)] for i in range(6)]

    def fit(fr, I, dI, polyOrd=None, fit_function=None):
        W.check("fit is given the spectrum, errors, order and model kind", len(I) == n and polyOrd == order and fit_function == fn and fr is f and dI is rms)
        r = FR()
        p = [total([K[i][j] * I[j] for j in range(n)]) for i in range(6)]
        r.params = W.pack(p)
        r.perror = W.pack([2 * x for x in p])
        r.pcov = W.pack([[p[i] + 3 * p[j] for j in range(6)] for i in range(6)])
        r.reference_frequency_Hz = 5 * I[0] - I[1]
        r.chiSq = r.chiSqRed = r.AIC = 1.0
        r.nIter = 3
        return r

    def model(r, fr):
        W.check("model evaluated at the channel frequencies", fr is f)
        return W.pack([r.params[0] - 7 * r.params[5], r.params[1] + r.params[5]])

    W.patch(M, "fit_StokesI_model", fit)
    W.patch(M, "calculate_StokesI_model", model)
    W.patch(M, "process_map", lambda f, it, **k: [f(x) for x in it])
    W.patch(M, "mp", MP)
    seen = {}

    def cn(datacube, header, freqArr_Hz, threshold=None):
        seen["thr"] = threshold
        return rms, mask.copy()
    W.patch(M, "cube_noise", cn)
    got = M.make_model_I(cube, head, f, polyOrd=order, nBits=64, threshold=thr, apply_mask=masked, verbose=verbose, fit_function=fn, outDir=d, prefixOut="p_")
    W.check("threshold used", seen["thr"] == thr)
    W.check("header untouched", list(head.items()) == before)
    W.closes("cube untouched", [cube[ix] for ix in np.ndindex(n, ny, nx)] if not W.symbolic else list(cube.reshape(-1)), list(cube0.reshape(-1)))
    mc, mh = W.get_fits(d + "/p_model.i.fits")
    W.check("model file shape", tuple(mc.shape) == (n, ny, nx))
    W.check("returned model shape", tuple(got.shape) == (n, ny, nx))
    W.check("model cube frequency axis", (mh["CTYPE3"], mh["CRPIX3"], mh["CRVAL3"], mh["CDELT3"], mh["CUNIT3"]) == tuple(head[k + str(lay.index("F") + 1)] for k in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT")))
    W.check("model cube sky axes", all(mh[k + i] == head[k + i] for k in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT") for i in "12"))
    want = ["p_" + x for x in ["covariance.fits", "mask.fits", "model.i.fits", "noise.dat", "reffreq.fits"] + ["coeff%d%s.fits" % (i, e) for i in range(abs(order) + 1) for e in ("", "err")]]
    W.check("files written", sorted(W.listdir()) == sorted(want))
    maps = {}
    for k in want:
        if k.endswith("fits") and "model" not in k:
            a, h = W.get_fits(d + "/" + k)
            maps[k[2:-5]] = a
            W.check("shape of " + k, tuple(a.shape) == (((6, 6) if "covar" in k else ()) + (ny, nx)))
            W.check("sky axes of " + k, all(h[w + i] == head[w + i] for w in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "CUNIT") for i in "12"))
    if tuple(mc.shape) != (n, ny, nx):
        return
    W.closes("noise file", list(W.np.loadtxt(d + "/p_noise.dat").reshape(-1)), list(rms))
    for y in range(ny):
        for x in range(nx):
            at = " y%d x%d" % (y, x)
            p = [total([K[i][j] * cube0[j, y, x] for j in range(n)]) for i in range(6)]
            nn = W.nan
            ok = src[y][x]
            v = lambda t: t if ok else nn
            m = [p[0] - 7 * p[5], p[1] + p[5]]
            for k in range(n):
                W.close("model f%d" % k + at, got[k, y, x], v(m[k]), rtol=1e-5, scale=9)
                W.close("model file f%d" % k + at, mc[k, y, x], v(m[k]), rtol=1e-5, scale=9)
            for i in range(abs(order) + 1):
                W.close("coefficient %d" % i + at, maps["coeff%d" % i][y, x], v(p[5 - i]), rtol=1e-5, scale=9)
                W.close("coefficient error %d" % i + at, maps["coeff%derr" % i][y, x], v(2 * p[5 - i]), rtol=1e-5, scale=9)
            W.close("reference frequency" + at, maps["reffreq"][y, x], v(5 * cube0[0, y, x] - cube0[1, y, x]), rtol=1e-5, scale=9)
            W.close("mask" + at, maps["mask"][y, x], 1.0 if ok else nn)
            for i in (0, 2, 5):
                for j in (0, 1, 5):
                    W.close("covariance %d %d" % (i, j) + at, maps["covariance"][i, j, y, x], v(p[i] + 3 * p[j]), rtol=1e-5, scale=30)


class FR:
    pass


def noise(W, M, npix, mode):
    n = 2
    other = W.pick("other channel", [[0.25, 3.0, -2.0, 1.0], [1.0, 2.5, 2.25, 0.5], None])
    a, b = [W.real("v%d" % x, lo=-4, hi=4, nan=x < 2) for x in range(npix)], [W.nan if other is None else W.num(other[x]) for x in range(npix)]
    vals = [[a], [b]] if bool(W.bool("first")) else [[b], [a]]
    if mode == "absolute":
        thr = W.real("thr", lo=0.5, hi=2)
    else:
        thr = -W.real("nsig", lo=0.5, hi=4)
    flat = [vals[k][0] for k in range(n)]
    isn = [[bool(W.isnan(v)) for v in f] for f in flat]
    for k in range(n):
        for i in range(npix):
            if not isn[k][i]:
                W.assume(abs(flat[k][i]) > 1e-3)
                if mode == "absolute":
                    W.assume(abs(flat[k][i] - thr) > 1e-3)
                for j in range(i):
                    if not isn[k][j] and flat[k] is not b:
                        W.assume(abs(flat[k][i] - flat[k][j]) > 1e-2)
    cube = W.pack(vals)
    f = W.pack([W.num(1.0e9), W.num(1.25e9)])
    head = W.header(hdr("XYF", dict(X=npix, Y=1, F=n)))
    rms, msk = M.cube_noise(cube, head, f, thr)
    W.check("one noise value per channel", tuple(rms.shape) == (n,))
    W.check("mask shape", tuple(msk.shape) == (1, npix))
    hit = [W.num(0.0)] * npix
    for k in range(n):
        good = [i for i in range(npix) if not isn[k][i]]
        if not good:
            W.close("blank channel %d has no noise" % k, rms[k], W.nan)
            continue
        sky = [flat[k][i] for i in good]
        if mode == "absolute":
            sky = [v for v in sky if bool(v < thr)]
        m, s = med(W, sky), mad(W, sky)
        sky2 = []
        if sky:
            for i in good:
                if m is not None:
                    W.assume(abs(flat[k][i] - (m + 3 * s)) > 1e-3)
                if bool(flat[k][i] < m + 3 * s):
                    sky2.append(flat[k][i])
        m2, s2 = med(W, sky2), mad(W, sky2)
        W.close("noise of channel %d" % k, rms[k], s2)
        for i in good:
            if mode == "absolute":
                c = flat[k][i] > thr
            else:
                if not sky2:
                    continue
                lim = m2 - thr * s2
                W.assume(abs(flat[k][i] - lim) > 1e-3)
                c = flat[k][i] > lim
            hit[i] = hit[i] + (1.0 if bool(c) else 0.0)
    for i in range(npix):
        W.close("emission mask of pixel %d" % i, msk[0, i] > 0, hit[i] > 0)


def cmdline(W, M, d):
    cube = W.array("v", (2, 2, 3), lo=-9, hi=9)
    sz = dict(X=3, Y=2, F=2)
    W.put_fits(d + "/i.fits", (cube, [c for c in hdr("XYF", sz) if not c[0].startswith("NAXIS") and c[0] not in ("BITPIX", "SIMPLE")]))
    ff = bool(W.bool("frequency file"))
    fv = W.array("f", 2, lo=1, hi=2)
    args = [d + "/i.fits"]
    if ff:
        W.np.savetxt(d + "/freq.dat", fv)
        args += ["-freqFile", d + "/freq.dat"]
    dflt = bool(W.bool("defaults"))
    if not dflt:
        args += ["-f", "linear", "-p", "-4", "-t", "0.75", "-o", "pre_", "-odir", d + "/out", "-m", "-n", "3", "-c", "5"]
    seen = {}
    W.patch(M, "make_model_I", lambda **k: seen.update(k))
    W.argv("RMtools_3D.do_fitIcube", *args)
    W.check("model run", bool(seen))
    if not seen:
        return
    for k in range(2):
        W.close("frequency of channel %d" % k, seen["freqArr_Hz"][k], fv[k] if ff else 12.0 + 0.5 * k)
        for y in range(2):
            for x in range(3):
                W.close("cube %d %d %d" % (k, y, x), seen["datacube"][k, y, x], cube[k, y, x])
    w = dict(polyOrd=2, prefixOut="", outDir=d, threshold=-3, apply_mask=False, fit_function="log", num_cores=1, chunk_size=1)
    if not dflt:
        w = dict(polyOrd=-4, prefixOut="pre_", outDir=d + "/out", threshold=0.75, apply_mask=True, fit_function="linear", num_cores=3, chunk_size=5)
    for k, v in w.items():
        W.check("option " + k, seen[k] == v)
