"""extract_region keeps exactly the requested samples, at their coordinates."""

PRELOAD = ["RMtools_3D.extract_region"]
BOUNDS = ("images of 2..3 x 2..4 pixels with 1-3 planes in 2, 3 and 4 axis files (cube axis 3 or 4), every box (corner or centre form, limits in -1..size+1) overlapping the image and every plane range, "
          "pixel values and CRPIX symbolic")
ASSUME = ["files are modelled as in-memory FITS images; pixel (not sky) boxes, sky boxes are not implemented by the tool"]


def configs(tier):
    out = []
    for nd, ax in ((2, 2), (3, 3), (4, 3), (4, 4)):
        for mode in ("corners", "centre") + (("planes",) if nd > 2 else ()):
            out.append(dict(name="%daxes-cube%d-%s" % (nd, ax, mode), args=dict(nd=nd, ax=ax, mode=mode, big=tier != "quick"), max_paths=20000, witnesses=12))
    return out


def harness(W, nd, ax, mode, big):
    d = W.files()
    nx = W.pick("nx", [2, 4] if big else [3])
    ny = W.pick("ny", [3, 5] if big else [4]) if mode != "planes" else 2
    nz = 1 if nd == 2 else (2 if mode != "planes" else W.pick("nz", [2, 3]))
    shape = {2: (ny, nx), 3: (nz, ny, nx), 4: (nz, 1, ny, nx) if ax == 4 else (1, nz, ny, nx)}[nd]
    data = W.array("v", shape, lo=-9, hi=9)
    crpix = [W.real("crpix%d" % i, lo=-5, hi=5) for i in range(1, nd + 1)]
    crval = [2.0, 3.0, 4.0, 5.0]
    cards = [("BUNIT", "Jy/beam")]
    for i in range(nd):
        cards += [("CTYPE%d" % (i + 1), "AX%d" % i), ("CRPIX%d" % (i + 1), W.value(crpix[i]) if W.symbolic else float(crpix[i])),
                  ("CRVAL%d" % (i + 1), crval[i]), ("CDELT%d" % (i + 1), 0.5)]
    W.put_fits(d + "/in.fits", (data, cards))
    lim = dict(x=(1, nx), y=(1, ny), z=(1, nz))
    args = []
    if mode == "corners":
        def rng(nm, n):
            a = W.pick(nm + "min", [-1, 0] + list(range(1, n + 1)))
            b = W.pick(nm + "max", [-1] + list(range(1, n + 2)))
            W.assume(b == -1 or a <= b)
            return a, b, (max(a, 1), n if b == -1 else min(b, n))
        x0, x1, lim["x"] = rng("x", nx)
        y0, y1, lim["y"] = rng("y", ny)
        box = [x0, x1, y0, y1]
    elif mode == "centre":
        cx, hx = W.pick("cx", [1, 2]), W.pick("hx", [0, 1])
        cy, hy = W.pick("cy", [2, 3]), W.pick("hy", [0, 1, 3])
        lim["x"] = (max(cx - hx, 1), min(cx + hx, nx))
        lim["y"] = (max(cy - hy, 1), min(cy + hy, ny))
        box = [cx, hx, cy, hy]
        args = ["-c"]
    else:
        z0 = W.pick("z0", [-1] + list(range(1, nz + 1)))
        z1 = W.pick("z1", [-1] + list(range(1, nz + 1)))
        W.assume(z1 == -1 or max(z0, 1) <= z1)
        lim["z"] = (max(z0, 1), nz if z1 == -1 else z1)
        box = [1, nx, 1, ny]
        args = ["-z", z0, z1]
    W.argv("RMtools_3D.extract_region", d + "/in.fits", d + "/out.fits", *(box + args))
    out, h = W.get_fits(d + "/out.fits")
    sl = [slice(lim["y"][0] - 1, lim["y"][1]), slice(lim["x"][0] - 1, lim["x"][1])]
    first = [lim["x"][0], lim["y"][0]]
    if nd > 2:
        z = slice(lim["z"][0] - 1, lim["z"][1])
        if nd == 3:
            sl = [z] + sl
            first.append(lim["z"][0])
        elif ax == 4:
            sl = [z, slice(None)] + sl
            first += [1, lim["z"][0]]
        else:
            sl = [slice(None), z] + sl
            first += [lim["z"][0], 1]
    want = data[tuple(sl)]
    W.close("samples", out, want, rtol=1e-5, atol=1e-6)
    for i in range(nd):
        # sample k of the output is sample k + first - 1 of the input: same world coordinate
        W.close("CRPIX%d" % (i + 1), h["CRPIX%d" % (i + 1)], crpix[i] - (first[i] - 1), rtol=1e-9)
        W.close("CRVAL%d" % (i + 1), h["CRVAL%d" % (i + 1)], crval[i])
        W.close("CDELT%d" % (i + 1), h["CDELT%d" % (i + 1)], 0.5)
        W.close("NAXIS%d" % (i + 1), h["NAXIS%d" % (i + 1)], want.shape[nd - 1 - i])
    W.close("other keywords", h["BUNIT"], "Jy/beam")
