"""Rescaling 3D Stokes I models to a common reference frequency."""
from .P20 import MP
from .P13 import model
from .lib import total

PRELOAD = ["RMtools_3D.rescale_I_model_3D", "RMutils.util_misc"]
BOUNDS = ("maps of 2x3, 3x2, 1x3, 3x1 and 1x1 pixels with an arbitrary (symbolic) per-pixel change of reference; real change of reference on a fitted and a blank pixel "
          "with symbolic coefficients and frequencies; the command line with models of order 0, 2 and 5 and every way to choose the frequency")
ASSUME = ["worker pools return results in submission order", "files are modelled as in-memory FITS images", "frequencies positive"]
C = 299792458.0


def configs(tier):
    out = []
    for s in [(2, 3), (3, 2), (1, 3), (3, 1), (1, 1)] + ([(3, 3)] if tier != "quick" else []):
        out.append(dict(name="map-%dx%d" % s, args=dict(kind="map", size=s), max_paths=2000, witnesses=4, nosearch=True))
    for fn in ("linear", "log"):
        out.append(dict(name="pixels-" + fn, args=dict(kind="pixels", fn=fn), timeout_ms=8000, witnesses=4))
    for o in (0, 2, 5):
        out.append(dict(name="tool-order%d" % o, args=dict(kind="tool", order=o), max_paths=2000, witnesses=4, nosearch=True))
    return out


class Res:
    pass


def stub(W, M, fn, seen):
    """an arbitrary (linear) change of reference of one pixel"""
    def ren(r, new):
        seen.append((r.fit_function, r.polyOrd))
        o = Res()
        p = [r.params[i] for i in range(6)]
        o.params = W.pack([p[i] * 2 + r.reference_frequency_Hz - 3 * new for i in range(6)])
        o.perror = W.pack([r.pcov[i][j] + 5 * r.pcov[j][i] + p[0] for i, j in zip(range(6), (1, 2, 3, 4, 5, 0))])
        o.reference_frequency_Hz = new
        return o
    W.patch(M, "renormalize_StokesI_model", ren)


def expect(W, p, cov, old, new):
    return ([p[i] * 2 + old - 3 * new for i in range(6)], [cov[i][j] + 5 * cov[j][i] + p[0] for i, j in zip(range(6), (1, 2, 3, 4, 5, 0))])


def harness(W, kind, size=None, fn=None, order=None):
    d = W.files()
    M = W.mod("RMtools_3D.rescale_I_model_3D")
    np = W.np
    W.patch(M, "mp", MP)
    if kind == "pixels":
        lim = 3 if fn == "linear" else 1.5
        p = [W.real("p%d" % i, lo=-lim, hi=lim) for i in range(6)]
        ref, new = W.real("ref", lo=0.6, hi=2), W.real("newref", lo=0.6, hi=2)
        f = [W.real("f%d" % i, lo=0.5, hi=3) for i in range(2)]
        co = np.zeros((6, 1, 2)) + W.nan
        for i in range(6):
            co[i, 0, 1] = p[i]
        n2, c2, e2 = M.rescale_I_model_3D(np.zeros((6, 6, 1, 2)), W.pack([[W.nan, ref]]), W.pack([[new, new]]), co, fn)
        W.closes("frequency map", [n2[0, 0], n2[0, 1]], [new, new])
        for i in range(6):
            W.check("blank pixel stays blank (%d)" % i, W.isnan(c2[i, 0, 0]))
        for t in f:
            W.close("model value unchanged", model(W, fn, [c2[i, 0, 1] for i in range(6)], t / new), model(W, fn, p, t / ref), rtol=1e-7, atol=1e-8)
        return
    ny, nx = size or (2, 1)
    N = 6 if kind == "map" else order + 1
    co = [[[W.real("p%d_%d_%d" % (i, y, x), lo=-3, hi=3) if i >= 6 - N else W.num(0.0) for x in range(nx)] for y in range(ny)] for i in range(6)]
    cov = [[[[W.num((i * 7 + j * 3 + y * 5 + x * 2 + 1) / 16) for x in range(nx)] for y in range(ny)] for j in range(6)] for i in range(6)]
    cov[1][2][0][0] = W.real("c12", lo=0, hi=1)
    old = [[W.real("f_%d_%d" % (y, x), lo=0.5, hi=3) for x in range(nx)] for y in range(ny)]
    seen = []
    if kind == "map":
        new = [[W.real("n_%d_%d" % (y, x), lo=0.5, hi=3) for x in range(nx)] for y in range(ny)]
        fn = W.pick("function", ["linear", "log"])
        stub(W, M, fn, seen)
        args = [W.pack(cov), W.pack(old), W.pack(new), W.pack(co), fn]
        nf, nc, ne = M.rescale_I_model_3D(*args)
        W.check("kind of model passed on", all(s == (fn, 5) for s in seen) and len(seen) == nx * ny)
        for y in range(ny):
            for x in range(nx):
                ep, ee = expect(W, [co[i][y][x] for i in range(6)], [[cov[i][j][y][x] for j in range(6)] for i in range(6)], old[y][x], new[y][x])
                W.close("frequency y%d x%d" % (y, x), nf[y, x], new[y][x])
                for i in range(6):
                    W.close("coefficient %d y%d x%d" % (i, y, x), nc[i, y, x], ep[i])
                    W.close("error %d y%d x%d" % (i, y, x), ne[i, y, x], ee[i])
        return
    # the tool
    fn = W.pick("function", ["linear", "log"])
    dyn = bool(W.bool("dynamic order"))
    cards = [("CTYPE1", "RA---SIN"), ("CRVAL1", 10.0), ("CRPIX1", 1.0), ("CDELT1", 0.5), ("CTYPE2", "DEC--SIN"), ("CRVAL2", 20.0), ("CRPIX2", 2.0), ("CDELT2", 0.25)]
    cards += [("HISTORY", "Stokes I model fitted by RM-Tools"),
              ("HISTORY", "Fit model is dynamic order %s-polynomial, max order %d" % (fn, order) if dyn else "Fit model is %d-order %s-polynomial" % (order, fn)), ("HISTORY", "something else")]
    base = d + "/pre_"
    W.put_fits(base + "covariance.fits", (W.pack(cov), cards))
    W.put_fits(base + "reffreq.fits", (W.pack(old), cards))
    for i in range(N):
        W.put_fits(base + "coeff%d.fits" % i, (W.pack(co[5 - i]), cards))
        W.put_fits(base + "coeff%derr.fits" % i, (np.zeros((ny, nx)), cards))
    how = W.pick("frequency", ["cube", "given", "mean"])
    args = [base + "covariance.fits"]
    if how == "cube":
        l0 = W.real("lam0sq", lo=0.01, hi=0.5)
        W.put_fits(d + "/fdf.fits", (np.zeros((2, ny, nx)), [("LAMSQ0", l0 if W.symbolic else float(l0))]))
        args += ["-l", d + "/fdf.fits"]
        new = C / W.sqrt(l0)
    elif how == "given":
        args += ["-f", "1.25"]
        new = W.num(1.25)
    else:
        new = total([old[y][x] for y in range(ny) for x in range(nx)]) / (nx * ny)
    out = base
    if bool(W.bool("output name")):
        out = d + "/other_"
        args += ["-o", out]
    exists = bool(W.bool("output exists"))
    ow = bool(W.bool("overwrite"))
    if exists:
        W.put_fits(out + "newcoeff0.fits", (np.zeros((ny, nx)) + 77.0, []))
    if ow:
        args.append("-w")
    if order < 5:
        # the change of reference of a lower order model has no higher orders
        def ren(r, nw):
            seen.append((r.fit_function, r.polyOrd))
            o = Res()
            o.params = W.pack([(r.params[i] * 2 + r.reference_frequency_Hz - nw if i >= 6 - N else W.num(0.0)) for i in range(6)])
            o.perror = W.pack([(r.pcov[i][1] + r.params[i] if i >= 6 - N else W.num(0.0)) for i in range(6)])
            return o
        W.patch(M, "renormalize_StokesI_model", ren)
    else:
        stub(W, M, fn, seen)
    scale = C if how == "cube" else 1.0
    if exists and not ow:
        try:
            W.argv("RMtools_3D.rescale_I_model_3D", *args, entry="command_line")
        except OSError:
            pass
        a, h = W.get_fits(out + "newcoeff0.fits")
        W.close("existing file untouched", a, np.zeros((ny, nx)) + 77.0)
        return
    W.argv("RMtools_3D.rescale_I_model_3D", *args, entry="command_line")
    W.check("kind of model read from the header", all(s[0] == fn for s in seen) and len(seen) == nx * ny)

    def pixel(y, x):
        p = [co[q][y][x] for q in range(6)]
        cv = [[cov[q][j][y][x] for j in range(6)] for q in range(6)]
        if order < 5:
            return [q * 2 + old[y][x] - new for q in p], [cv[q][1] + p[q] for q in range(6)]
        return expect(W, p, cv, old[y][x], new)
    while N and not any(bool(pixel(y, x)[0][6 - N] != 0) for y in range(ny) for x in range(nx)):
        N -= 1  # orders above the highest one in use need not be written
    for i in range(N):
        for e in ("", "err"):
            nm = "newcoeff%d%s.fits" % (i, e)
            a, h = W.get_fits(out + nm)
            W.check("shape of " + nm, tuple(a.shape) == (ny, nx))
            W.check("header of " + nm, h["CTYPE1"] == "RA---SIN" and h["CRVAL2"] == 20.0 and h["CDELT2"] == 0.25)
            W.close("reference frequency in " + nm, h["REFFREQ"] / scale, new / scale, rtol=1e-10, atol=1e-12)
            for y in range(ny):
                for x in range(nx):
                    ep, ee = pixel(y, x)
                    W.close("%s y%d x%d" % (nm, y, x), a[y, x] / scale, (ee if e else ep)[5 - i] / scale, rtol=1e-9, atol=1e-9)
    W.check("no other orders written", exists or not [f for f in W.listdir() if "newcoeff%d" % N in f])
