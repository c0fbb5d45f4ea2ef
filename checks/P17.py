"""Cubes are read and written with every axis where its header says it is."""

PRELOAD = ["RMtools_3D.do_RMsynth_3D", "RMtools_3D.do_RMclean_3D"]
BOUNDS = ("2, 3 and 4 axis files with the spectral axis in every position and (4 axes) a degenerate Stokes axis in every position, images of 2x3, 1x3, 3x1 and 1x1 pixels, "
          "2 channels, 3 Faraday depths (5 in the RMSF), every sample and the depth spacing symbolic; separate and multi-extension outputs")
ASSUME = ["files are modelled as in-memory FITS images (astropy rules)", "the CLEAN loop is replaced by one returning arbitrary cubes (its own properties: P06-P09)"]

L3 = ["XYF", "XFY", "FXY"]
L4 = ["XYSF", "XYFS", "XFYS", "FXYS", "SXYF", "XSYF", "SFXY", "FSXY", "XFSY"]


def configs(tier):
    out = []
    sizes = [(2, 3), (1, 3), (3, 1), (1, 1)] if tier == "quick" else [(2, 3), (1, 3), (3, 1), (1, 1), (3, 2), (2, 2)]
    for lay in ["XF"] + L3 + L4:
        for kind in ("read", "write", "clean"):
            if lay == "XF" and kind == "clean":
                continue
            out.append(dict(name="%s-%s" % (kind, lay), args=dict(kind=kind, lay=lay, sizes=sizes), max_paths=4000, witnesses=6, nosearch=True))
    return out


CT = {"X": "RA---SIN", "Y": "DEC--SIN", "S": "STOKES", "F": "FREQ"}


def cards(W, lay, size, extra=()):
    out = [("BUNIT", "Jy/beam")]
    for i, c in enumerate(lay):
        out += [("CTYPE%d" % (i + 1), CT[c]), ("CRPIX%d" % (i + 1), 1.0), ("CRVAL%d" % (i + 1), 10.0 + i), ("CDELT%d" % (i + 1), 0.5), ("CUNIT%d" % (i + 1), {"F": "Hz", "S": ""}.get(c, "deg"))]
    return out + list(extra)


def shape(lay, size):
    return tuple(size[c] for c in reversed(lay))


def at(lay, f, y, x):
    return tuple({"X": x, "Y": y, "S": 0, "F": f}[c] for c in reversed(lay))


def sky(size):
    return [(y, x) for y in range(size["Y"]) for x in range(size["X"])]


def simple(size, lay):
    """index of (f, y, x) in a [f, sky...] array without degenerate sky axes when the file has 4 axes"""
    def g(f, y, x, drop):
        ix = [f]
        if "Y" in lay and not (drop and size["Y"] == 1):
            ix.append(y)
        if not (drop and size["X"] == 1):
            ix.append(x)
        return tuple(ix)
    return g


def order(lay):
    """sky axes in numpy order"""
    return [c for c in reversed(lay) if c in "XY"]


def idx(lay, size, f, y, x, drop):
    ix = [f]
    for c in order(lay):
        if drop and size[c] == 1:
            continue
        ix.append(y if c == "Y" else x)
    return tuple(ix)


def harness(W, kind, lay, sizes):
    d = W.files()
    ny, nx = W.pick("size", sizes)
    if lay == "XF" and ny > 1:
        W.skip()
    sep = bool(W.bool("separate"))
    n = 2 if kind == "read" else 3
    size = dict(X=nx, Y=ny, S=1, F=n)
    drop = len(lay) >= 4
    S = W.mod("RMtools_3D.do_RMsynth_3D")
    if kind == "read":
        data = W.array("v", shape(lay, size), lo=-9, hi=9)
        named = bool(W.bool("frequency axis named")) or lay[-1] != "F"
        cd = cards(W, lay, size)
        if not named:
            cd = [(k, v if v != "FREQ" else "LAMBDA") for k, v in cd]
        if bool(W.bool("odd spelling")):
            cd = [(k, v if v != "FREQ" else "Obsfreq") for k, v in cd]
        W.put_fits(d + "/q.fits", (data, cd))
        head, got = S.readFitsCube(d + "/q.fits", False)
        want = (n,) + tuple(size[c] for c in order(lay) if not (drop and size[c] == 1))
        if drop and all(size[c] == 1 for c in "XY"):
            want = (n,)
        W.check("axes [f, y, x]", tuple(got.shape) == want)
        if tuple(got.shape) == want:
            for y, x in sky(size):
                for f in range(n):
                    W.close("sample f%d y%d x%d" % (f, y, x), got[idx(lay, size, f, y, x, drop)], data[at(lay, f, y, x)], rtol=1e-5)
        W.check("header axes", head["NAXIS"] == len(lay))
        return
    step = W.real("dphi", lo=0.5, hi=20)
    phi = W.pack([(k - 1) * step for k in range(3)])
    phi2 = W.pack([(k - 2) * step for k in range(5)])
    l0 = W.real("lam0", lo=0.01, hi=0.2)

    def cube(nm, k):
        o = [[[W.cplx(W.real("%sr_%d_%d_%d" % (nm, f, y, x), lo=-3, hi=3), W.real("%si_%d_%d_%d" % (nm, f, y, x), lo=-3, hi=3))
               for x in range(nx)] for y in range(ny)] for f in range(k)]
        a = W.pack(o) if not W.symbolic else W.np.array(o)
        sh = (k,) + tuple(size[c] for c in order(lay) if not (drop and size[c] == 1))
        if order(lay) == ["X", "Y"]:
            a = W.np.swapaxes(a, 1, 2)
        return o, W.np.reshape(a, sh)

    F, Fa = cube("F", 3)
    R, Ra = cube("R", 5)
    fw = [[W.real("w_%d_%d" % (y, x), lo=1, hi=9) for x in range(nx)] for y in range(ny)]
    fwa = W.np.reshape(W.np.swapaxes(W.pack(fw), 0, 1) if order(lay) == ["X", "Y"] else W.pack(fw), Fa.shape[1:])
    tmpl = W.header(cards(W, lay, size, [("DATAMAX", 3.0)] + [("NAXIS", len(lay))] + [("NAXIS%d" % (i + 1), 2 if c == "F" else size[c]) for i, c in enumerate(lay)]))
    before = list(tmpl.items())
    S.writefits([Fa.copy(), phi, Ra.copy(), phi2, fwa, W.np.ones(Fa.shape[1:]), l0, None], tmpl, prefixOut="p_", outDir=d, nBits=64,
                write_seperate_FDF=sep, do_peakmaps=False)
    W.check("template header untouched", list(tmpl.items()) == before)

    def planes(name, parts):
        """(array, header) of real, imaginary and total parts"""
        if sep:
            return [W.get_fits(d + "/p_" + p) for p in parts]
        return [W.get_fits(d + "/p_" + name, e) for e in range(3)]

    def content(label, ps, C, ph, k):
        sz = dict(size, F=k)
        fa = str(lay.index("F") + 1)
        for (a, h), part in zip(ps, ("real", "imag", "abs")):
            W.check("%s %s shape" % (label, part), tuple(a.shape) == shape(lay, sz))
            for i, c in enumerate(lay):
                W.close("%s %s NAXIS%d" % (label, part, i + 1), h["NAXIS%d" % (i + 1)], sz[c])
                if c in "XY":
                    for w, v in (("CTYPE", CT[c]), ("CRPIX", 1.0), ("CRVAL", 10.0 + i), ("CDELT", 0.5)):
                        W.close("%s %s %s%d" % (label, part, w, i + 1), h["%s%d" % (w, i + 1)], v)
                if c == "S":
                    W.close("%s %s Stokes value" % (label, part), h["CRVAL%d" % (i + 1)], {"real": 2, "imag": 3, "abs": 0}[part])
            W.check("%s %s depth axis" % (label, part), h["CTYPE" + fa] == "FDEP" and h["CUNIT" + fa] == "rad/m^2")
            for f in range(k):
                W.close("%s %s depth of plane %d" % (label, part, f), h["CRVAL" + fa] + (f + 1 - h["CRPIX" + fa]) * h["CDELT" + fa], ph[f], rtol=1e-9, scale=step)
            if tuple(a.shape) != shape(lay, sz):
                continue
            for y, x in sky(size):
                for f in range(k):
                    v = C[f][y][x]
                    W.close("%s %s sample f%d y%d x%d" % (label, part, f, y, x), a[at(lay, f, y, x)], {"real": v.real, "imag": v.imag, "abs": abs(v)}[part], rtol=1e-6)

    FN = ("FDF_real_dirty.fits", "FDF_im_dirty.fits", "FDF_tot_dirty.fits")
    RN = ("RMSF_real.fits", "RMSF_im.fits", "RMSF_tot.fits")
    pf = planes("FDF_dirty.fits", FN)
    pr = planes("RMSF.fits", RN)
    W.close("reference wavelength", pf[0][1]["LAMSQ0"], l0, rtol=1e-9)
    if kind == "write":
        content("FDF", pf, F, phi, 3)
        content("RMSF", pr, R, phi2, 5)
        a, h = W.get_fits(d + "/p_RMSF_FWHM.fits") if sep else W.get_fits(d + "/p_RMSF.fits", 3)
        W.close("FWHM map", W.np.reshape(a, (-1,)), W.np.reshape(fwa, (-1,)), rtol=1e-6)
        return
    C = W.mod("RMtools_3D.do_RMclean_3D")
    if not sep:
        # the multi-extension reader
        got, head, fax = C.read_FDF_cube(d + "/p_FDF_dirty.fits")
        want = (3,) + tuple(size[c] for c in order(lay) if size[c] != 1)
        W.check("axes of the read cube", tuple(got.shape) == want)
        if tuple(got.shape) == want:
            for y, x in sky(size):
                for f in range(3):
                    W.close("read back f%d y%d x%d" % (f, y, x), got[idx(lay, size, f, y, x, True)], F[f][y][x], rtol=1e-6)
        return
    seen = {}
    out = {nm: cube(nm, 3)[0] for nm in ("cl", "cc", "rs")}

    def clean(dirtyFDF=None, phiArr_radm2=None, RMSFArr=None, phi2Arr_radm2=None, fwhmRMSFArr=None, cutoff=None, **k):
        seen.update(D=dirtyFDF, phi=phiArr_radm2, R=RMSFArr, phi2=phi2Arr_radm2, fw=fwhmRMSFArr, cutoff=cutoff, **k)
        sq = (3,) + tuple(size[c] for c in order(lay) if size[c] != 1)
        res = []
        for nm in ("cl", "cc"):
            res.append(arr(out[nm], sq))
        res.append(W.np.reshape(W.np.zeros(sq[1:]) + 7.0, sq[1:]))
        res.append(arr(out["rs"], sq))
        return tuple(res)

    def arr(o, sh):
        a = W.np.array(o)
        if order(lay) == ["X", "Y"]:
            a = W.np.swapaxes(a, 1, 2)
        return W.np.reshape(a, sh)

    W.patch("RMtools_3D.do_RMclean_3D", "do_rmclean_hogbom", clean)
    which = W.pick("input", [0, 1, 2])
    cut, win = W.real("cutoff", lo=0.1, hi=3), W.real("window", lo=0.1, hi=3)
    cl, cc, it, rs, head = C.run_rmclean(d + "/p_" + FN[which], d + "/p_" + RN[which], cut, maxIter=17, gain=0.25, nBits=64, verbose=False, window=win)
    want = (3,) + tuple(size[c] for c in order(lay) if size[c] != 1)
    W.check("cubes handed to CLEAN", tuple(seen["D"].shape) == want and tuple(seen["R"].shape) == (5,) + want[1:])
    for y, x in sky(size):
        for f in range(3):
            W.close("dirty sample f%d y%d x%d" % (f, y, x), seen["D"][idx(lay, size, f, y, x, True)], F[f][y][x], rtol=1e-6)
        for f in range(5):
            W.close("RMSF sample f%d y%d x%d" % (f, y, x), seen["R"][idx(lay, size, f, y, x, True)], R[f][y][x], rtol=1e-6)
    W.close("FWHM handed to CLEAN", W.np.reshape(W.np.asarray(seen["fw"]), (-1,)), W.np.reshape(fwa, (-1,)), rtol=1e-6)
    W.closes("depths", [seen["phi"][k] for k in range(3)], [phi[k] for k in range(3)], rtol=1e-6, scale=step)
    W.closes("RMSF depths", [seen["phi2"][k] for k in range(5)], [phi2[k] for k in range(5)], rtol=1e-6, scale=step)
    W.close("cutoff", seen["cutoff"], cut)
    W.close("window", seen["window"], win)
    W.check("limits passed on", seen["maxIter"] == 17 and seen["gain"] == 0.25)
    C.writefits(cl, cc, it, rs, head, nBits=64, prefixOut="p_", outDir=d, write_separate_FDF=sep, verbose=False)
    content("clean FDF", planes("", ("FDF_clean_real.fits", "FDF_clean_im.fits", "FDF_clean_tot.fits")), out["cl"], phi, 3)
    content("components", planes("", ("FDF_CC_real.fits", "FDF_CC_im.fits", "FDF_CC_tot.fits")), out["cc"], phi, 3)
    W.check("residual cube has the layout of the input", tuple(rs.shape) == shape(lay, size))
    if tuple(rs.shape) == shape(lay, size):
        for y, x in sky(size):
            for f in range(3):
                W.close("residual f%d y%d x%d" % (f, y, x), rs[at(lay, f, y, x)], out["rs"][f][y][x], rtol=1e-6)
