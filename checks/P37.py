"""1D synthesis from FITS cubes: the spectrum of the requested pixel of every cube."""
import types

from .P28 import record

PRELOAD = ["RMtools_1D.do_RMsynth_1D_fromFITS"]
MOD = PRELOAD[0]
BOUNDS = ("cubes of 1 to 3 channels and 1x1 to 3x2 pixels, 3 axes or 4 with a degenerate Stokes axis (before or after frequency), every sample symbolic, blank or infinite; every pixel, pixels outside on each side, "
          "and sky positions falling anywhere (symbolic) inside or outside; with and without a Stokes I cube; the option list")
ASSUME = ["the sky-to-pixel transformation (astropy) is an arbitrary function; the frequency list of a header is the subject of P16; synthesis and saving are subjects of P01, P25 and P31: recorded here",
          "files are modelled in memory"]


def configs(tier):
    out = []
    for n, ny, nx in ((2, 2, 3), (3, 3, 2), (1, 1, 2), (2, 1, 1)) if tier == "quick" else ((2, 2, 3), (3, 3, 2), (1, 1, 2), (2, 1, 1), (3, 3, 3), (4, 2, 2)):
        for lay in ("XYF", "XYFS", "XYSF"):
            for sky in (False, True):
                out.append(dict(name="%s-%d%d%d-%s" % (lay, n, ny, nx, "sky" if sky else "pixel"), args=dict(n=n, ny=ny, nx=nx, lay=lay, sky=sky), witnesses=6, max_paths=5000))
    return out


def same(W, a, b):
    return bool(W.or_(W.eq(a, b), W.and_(W.isnan(a), W.isnan(b))))


def harness(W, n, ny, nx, lay, sky):
    d = W.files()
    M = W.mod(MOD)
    np = W.np
    if sky:
        x, y = W.real("x", lo=-2, hi=nx + 1), W.real("y", lo=-2, hi=ny + 1)     # 0-based position of the request
        at = (12.5, -30.25)
        text = ["12.5", "-30.25", "-c"]
        asked = []

        def world2pix(ra, dec, origin):
            asked.append((float(ra), float(dec)))
            return [np.asarray(x + origin), np.asarray(y + origin)]
        sys_ = types.SimpleNamespace(all_world2pix=world2pix, wcs_world2pix=world2pix)
        W.patch(M, "wcs", types.SimpleNamespace(WCS=lambda *a, **k: sys_))
        W.patch(M, "WCS", lambda *a, **k: sys_)
        inside = W.and_(x > -0.5, x < nx - 0.5, y > -0.5, y < ny - 0.5)
        outside = W.or_(x < -0.5, x > nx - 0.5, y < -0.5, y > ny - 0.5)
        if not bool(inside) and not bool(outside):
            W.skip()                     # on the very edge
        ok = bool(inside)
        px = py = None
        if ok:
            px = [i for i in range(nx) if bool(W.and_(x > i - 0.5, x < i + 0.5))]
            py = [i for i in range(ny) if bool(W.and_(y > i - 0.5, y < i + 0.5))]
            if not px or not py:
                W.skip()                 # halfway between pixels
            px, py = px[0], py[0]
    else:
        px, py = W.pick("x", list(range(-2, nx + 1))), W.pick("y", list(range(-2, ny + 1)))
        text = [str(px + 1), str(py + 1)]
        ok = 0 <= px < nx and 0 <= py < ny
    I = bool(W.bool("Stokes I"))
    inf = W.num(float("inf"))
    special = W.pick("special", ["none", "Q", "U"])

    def cube(s):
        v = [[[W.real("%s%d%d%d" % (s, i, j, k), lo=-2, hi=2, nan=(i, j, k) == (0, 0, 0)) for k in range(nx)] for j in range(ny)] for i in range(n)]
        if ok and special == s:
            v[n - 1][py][px] = inf
        if ok and n > 1 and special == "none" and s == "Q":
            for i in range(n):
                v[i][py][px] = W.num(0.0)          # all zero in one of them is a valid spectrum
        shape = dict(XYF=(n, ny, nx), XYFS=(1, n, ny, nx), XYSF=(n, 1, ny, nx))[lay]
        cards = [("CTYPE%d" % (i + 1), {"X": "RA---SIN", "Y": "DEC--SIN", "F": "FREQ", "S": "STOKES"}[c]) for i, c in enumerate(lay)]
        unit = "mJy/beam" if s == "Q" else "K"
        W.put_fits(d + "/%s.a.fits" % s, (np.reshape(W.pack([z for a in v for b in a for z in b]), shape), cards + ([("BUNIT", unit)] if s != "Q" or special != "U" else [])))
        return v
    cubes = {s: cube(s) for s in ("Q", "U", "I")}
    f = [1.0e9 + 1e8 * i for i in range(n)]
    freqs = record(W, M, "get_freq_array", lambda a: W.pack([W.num(z) for z in f]))
    runs = record(W, M, "run_rmsynth", lambda a: ({"m": 1}, {"a": 2}))
    saved = record(W, M, "saveOutput", lambda a: None)
    v = W.pick("options", ["none", "all"]) if ok and special == "none" else "none"
    args = ["-b", "-t", "-l", "50.0", "-d", "2.5", "-s", "4", "-w", "uniform", "-o", "3", "-i", "-U", "W", "-S", "-r", "-v"] if v == "all" else []
    Q, Us = cubes["Q"], cubes["U"]
    try:
        W.argv(MOD, d + "/Q.a.fits", d + "/U.a.fits", *(text + (["-I", d + "/I.a.fits"] if I else []) + args))
        err = None
    except Exception as e:
        if e.__class__.__name__ in ("Unsupported", "Bound"):
            raise
        err = e
    except SystemExit as e:
        err = e
    if not ok:
        W.check("outside the image: refused", err is not None and not runs)
        return
    if err is not None:
        W.check("accepted unless all zero", all(bool(W.eq(c[i][py][px], 0.0)) for c in (Q, Us) for i in range(n)))
        W.check("not run", not runs)
        return
    if sky:
        W.check("requested position", len(asked) >= 1 and all(a == at for a in asked))
    W.check("one run", len(runs) == 1 and len(saved) == (1 if v == "all" else 0))
    c = runs[0]
    W.check("frequencies of the cube", len(freqs) >= 1 and all(list(z.values())[0] in (d + "/Q.a.fits", d + "/U.a.fits") for z in freqs))
    want = ["Q", "U"] if not I else ["I", "Q", "U"]
    W.check("columns", len(c["data"]) == 1 + 2 * len(want))
    W.closes("frequencies", [z / 1e9 for z in c["data"][0]], [z / 1e9 for z in f])
    nan = W.num(float("nan"))
    for k, s in enumerate(want):
        got = list(c["data"][1 + k])
        W.check("channels of " + s, len(got) == n)
        for i in range(n):
            e = nan if special == s and i == n - 1 else cubes[s][i][py][px]
            W.check("%s of channel %d" % (s, i), same(W, got[i], e))
        err_ = list(c["data"][1 + len(want) + k])
        W.check("equal positive errors", len(err_) == n and all(bool(W.and_(z > 0, W.eq(z, err_[0]))) for z in err_))
    exp = dict(polyOrd=2, phiMax_radm2=None, dPhi_radm2=None, nSamples=10, weightType="variance", fitRMSF=False, noStokesI=False, showPlots=False, debug=False, verbose=False,
               units="Jy/beam" if special == "U" else "mJy/beam", nBits=32, super_resolution=False, saveFigures=False)
    if v == "all":
        exp.update(polyOrd=3, phiMax_radm2=50.0, dPhi_radm2=2.5, nSamples=4, weightType="uniform", fitRMSF=True, noStokesI=True, units="W", nBits=64, super_resolution=True, verbose=True, saveFigures=True)
    for k, e in exp.items():
        W.check("option " + k, c[k] is e if e is None else c[k] == e)
    if v == "all":
        z = list(saved[0].values())
        W.check("saved beside the cube", z[0] == {"m": 1} and z[1] == {"a": 2} and z[2] == d + "/Q.a")
