"""create_chunks followed by assemble_chunks is the identity."""

PRELOAD = ["RMtools_3D.create_chunks", "RMtools_3D.assemble_chunks"]
BOUNDS = ("images of 1..3 x 1..3 pixels (to 4x5 in thorough), every chunk size from 1 to one more than the image, 2, 3 and 4 axis cubes with 1-2 planes, "
          "every pixel value symbolic; 12-chunk case for the numbering of the files")
ASSUME = ["files are modelled as in-memory FITS images (astropy header and data rules); pixels keep their values through files"]


def configs(tier):
    out = []
    big = tier != "quick"
    for nd in (2, 3, 4):
        out.append(dict(name="%daxes" % nd, args=dict(nd=nd, xs=list(range(1, 5 if big else 4)), ys=list(range(1, 6 if big else 4))), max_paths=3000, witnesses=12))
    out.append(dict(name="numbering", args=dict(nd=3, xs=[11, 4], ys=[1, 3], chunks=[1]), max_paths=3000, witnesses=4))
    return out


def harness(W, nd, xs, ys, chunks=None):
    d = W.files()
    nx, ny = W.pick("nx", xs), W.pick("ny", ys)
    per = W.pick("per", chunks or list(range(1, len(xs) * len(ys) + 2)))
    W.assume(per <= nx * ny + 1)
    nz = 2 if nd > 2 else 1
    shape = {2: (ny, nx), 3: (nz, ny, nx), 4: (nz, 1, ny, nx)}[nd]
    data = W.array("v", shape, lo=-9, hi=9)
    cards = [("BUNIT", "Jy/beam"), ("CTYPE1", "RA---SIN"), ("CTYPE2", "DEC--SIN"), ("CRPIX1", 1.0), ("CRPIX2", 2.0), ("CRVAL1", 10.0), ("CRVAL2", -5.0)]
    if nd > 2:
        cards += [("CTYPE3", "FREQ" if nd == 3 else "STOKES"), ("CRVAL3", 1.5)]
    if nd > 3:
        cards += [("CTYPE4", "FREQ"), ("CRVAL4", 1.5)]
    W.put_fits(d + "/cube.fits", (data, cards))
    if W.bool("prefixed"):
        W.argv("RMtools_3D.create_chunks", d + "/cube.fits", per, "-p", d + "/part")
        name = "part"
    else:
        W.argv("RMtools_3D.create_chunks", d + "/cube.fits", per)
        name = "cube"
    files = [f for f in W.listdir() if f.startswith(name + ".C") and f != "cube.fits"]
    n = -(-nx * ny // per)
    W.check("number of chunk files", len(files) == n)
    total = 0
    for f in files:
        c, h = W.get_fits(d + "/" + f)
        W.check("chunk is one row", c.ndim == nd and c.shape[-2] == 1)
        W.check("chunk size", c.shape[-1] <= per)
        W.check("chunk keeps the other axes", tuple(c.shape[:-2]) == tuple(shape[:-2]))
        total += c.shape[-1]
    W.check("chunks cover every pixel once", total == nx * ny)
    if len(files) != n:
        return
    pick = files[-1] if bool(W.bool("last")) else files[0]
    W.argv("RMtools_3D.assemble_chunks", d + "/" + pick, "-f", d + "/whole.fits")
    back, h = W.get_fits(d + "/whole.fits")
    W.close("assembled cube", back, data, rtol=1e-5, atol=1e-6)
    for k, v in cards:
        W.close("header " + k, h[k], v)
    W.check("no leftover keywords", "OLDXDIM" not in h and "OLDYDIM" not in h)
