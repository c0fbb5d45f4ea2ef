"""Header manipulation: axes are removed completely, everything else stays; beams are found where they are documented."""
PRELOAD = ["RMutils.util_FITS", "RMutils.util_misc", "RMtools_3D.RMpeakfit_3D"]
F, U, PK = PRELOAD
BOUNDS = ("headers of 2 to 5 axes (4 for the 2D maps) with symbolic values: every axis keyword, unit and rotation, PC or CD matrices in current and old form (or none), surplus keywords of axes beyond NAXIS, unrelated keywords with similar names, "
          "WCSAXES present or not; data of 2 to 5 axes with symbolic samples; beams in cards, history, both, partly or nowhere")
ASSUME = ["headers are modelled as ordered keyword lists (validated on astropy headers)"]
MATRIX = {"none": None, "pc": "PC%d_%d", "oldpc": "PC%03d%03d", "cd": "CD%d_%d", "oldcd": "CD%03d%03d"}
STEMS = ["CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT", "CROTA"]


def configs(tier):
    out = []
    for n in (2, 3, 4, 5):
        for k in range(2, n + 1):
            for mt in MATRIX:
                out.append(dict(name="strip-%dto%d-%s" % (n, k, mt), args=dict(kind="strip", n=n, k=k, mt=mt), witnesses=2))
    for n in (2, 3, 4):
        for mt in MATRIX:
            out.append(dict(name="flat-%d-%s" % (n, mt), args=dict(kind="flat", n=n, mt=mt), witnesses=2))
    for n in (2, 3, 4, 5):
        for k in range(2, n + 1):
            out.append(dict(name="data-%dto%d" % (n, k), args=dict(kind="data", n=n, k=k), witnesses=2))
    for n in (3, 4):
        out.append(dict(name="single-%d" % n, args=dict(kind="single", n=n), witnesses=2))
    out.append(dict(name="few", args=dict(kind="few"), witnesses=2))
    out.append(dict(name="beam", args=dict(kind="beam"), witnesses=8))
    out.append(dict(name="area", args=dict(kind="area"), witnesses=2))
    return out


def num(W, name):
    v = W.real(name, lo=-50, hi=50)
    return v if W.symbolic else float(v)


def build(W, n, mt, naxis=None):
    """cards, and which axes each keyword belongs to"""
    cards = [("SIMPLE", True), ("BITPIX", -32), ("NAXIS", naxis or n)] + [("NAXIS%d" % i, 3 + i) for i in range(1, (naxis or n) + 1)]
    own = {"NAXIS%d" % i: (i,) for i in range(1, (naxis or n) + 1)}
    cards.append(("BUNIT", "Jy/beam"))
    if bool(W.bool("WCSAXES given")):
        cards.append(("WCSAXES", n))
    for i in range(1, n + 1):
        for s in STEMS:
            key = s + str(i)
            if s == "CROTA" and MATRIX[mt] or s == "CDELT" and "cd" in mt:
                continue
            v = "%s_%d" % (s, i) if s in ("CTYPE", "CUNIT") else num(W, key)
            cards.append((key, v))
            own[key] = (i,)
    if MATRIX[mt]:
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                key = MATRIX[mt] % (i, j)
                cards.append((key, num(W, key)))
                own[key] = (i, j)
    cards += [("RESTFRQ", num(W, "RESTFRQ")), ("BMAJ", num(W, "BMAJ")), ("OBJECT", "FIELD3"), ("LONPOLE", num(W, "LONPOLE")), ("DATE-OBS", "2020-03-04"), ("ALTRVAL", num(W, "ALTRVAL")), ("NOISE3", num(W, "NOISE3"))]
    return cards, own


def compare(W, cards, own, got, k, gone=()):
    keys = set(got.keys())
    for key, v in cards:
        if key in ("NAXIS", "WCSAXES"):
            continue
        if key in gone or key in own and max(own[key]) > k:
            W.check("no keyword of a removed axis: " + key, key not in keys)
            continue
        W.check("kept: " + key, key in keys)
        if key in keys:
            if isinstance(v, (str, bool)):
                W.check("value of " + key, got[key] == v)
            else:
                W.close("value of " + key, got[key], v)
    W.check("nothing invented", keys <= {c[0] for c in cards} | {"WCSAXES"})


def harness(W, kind, n=None, k=None, mt=None):
    if kind == "strip":
        M = W.mod(F)
        force = W.pick("forced check", [0, 4, 5])
        naxis = n
        if force >= n and k < n:
            naxis = W.pick("NAXIS", [n, k])          # keywords of more axes than declared
        if force and n > force:
            naxis = n
        cards, own = build(W, n, mt, naxis)
        h = W.header(cards)
        got = M.strip_fits_dims(header=h, minDim=k, forceCheckDims=force)
        compare(W, cards, own, got, k)
        W.check("axis count", got["NAXIS"] == k and got["WCSAXES"] == k)
        compare(W, cards, own, h, 9)
        W.check("caller's header", h["NAXIS"] == naxis)
    elif kind == "flat":
        M = W.mod(U)
        cards, own = build(W, n, mt)
        if bool(W.bool("STOKES card")):
            cards.append(("STOKES", "Q"))
        got = M.remove_header_third_fourth_axis(W.header(cards))
        compare(W, cards, own, got, 2, gone=("STOKES",))
        W.check("axis count", got["NAXIS"] == 2 and got["WCSAXES"] == 2)
        keys = list(got.keys())
        W.check("WCSAXES first", all(keys.index(x) > keys.index("WCSAXES") for x in keys if x in own and not x.startswith("NAXIS")))
        W.check("structural keywords first", keys[:5] == ["SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2"])
    elif kind == "single":
        M = W.mod(PK)
        cards, own = build(W, n, "none")
        ax = W.pick("axis", list(range(1, n + 1)))
        h = W.header(cards)
        M.delete_FITSheader_axis(h, ax)
        keys = set(h.keys())
        for key, v in cards:
            mine = key in own and own[key] == (ax,) and not key.startswith("CROTA")
            if key.startswith("CROTA") and own[key] == (ax,):
                continue
            W.check("of the axis: " + key if mine else "kept: " + key, (key in keys) != mine)
            if not mine and key in keys:
                if isinstance(v, (str, bool)):
                    W.check("value of " + key, h[key] == v)
                else:
                    W.close("value of " + key, h[key], v)
    elif kind == "data":
        M = W.mod(F)
        np = W.np
        shape = [2] * (n - 2) + [1, 2]
        m = 2 ** (n - 1)
        v = [W.real("v%d" % i, lo=-9, hi=9, nan=i == 0) for i in range(m)]
        a = np.reshape(W.pack(v), tuple(shape))
        if bool(W.bool("with header")):
            cards, own = build(W, n, "none")
            got, h = M.strip_fits_dims(a, W.header(cards), k)
            W.check("axis count", h["NAXIS"] == k)
            compare(W, cards, own, h, k)
        else:
            got = M.strip_fits_dims(data=a, minDim=k)
        W.check("axes", tuple(got.shape) == tuple(shape[n - k:]))
        lead = 1
        for x in shape[n - k:]:
            lead *= x
        for i, x in enumerate(list(np.reshape(got, (-1,)))):
            W.check("leading plane", bool(W.or_(W.eq(x, v[i]), W.and_(W.isnan(x), W.isnan(v[i])))))
        W.check("whole plane", len(list(np.reshape(got, (-1,)))) == lead)
        got[tuple([0] * k)] = 77.0
        b = a[tuple([0] * n)]
        W.check("a copy", bool(W.or_(W.eq(b, v[0]), W.and_(W.isnan(b), W.isnan(v[0])))))
    elif kind == "few":
        M = W.mod(F)
        what = W.pick("what", ["data", "header", "none"])
        try:
            if what == "data":
                M.strip_fits_dims(data=W.np.reshape(W.pack([num(W, "v0"), num(W, "v1")]), (2, 1)), minDim=3)
            elif what == "header":
                M.strip_fits_dims(header=W.header(build(W, 2, "none")[0]), minDim=3)
            else:
                M.strip_fits_dims()
            ok = False
        except SystemExit:
            ok = True
        W.check("refused", ok)
    elif kind == "beam":
        M = W.mod(F)
        have = {b: bool(W.bool(b + " card")) for b in ("BMAJ", "BMIN", "BPA")}
        val = {b: num(W, b) for b in have}
        hist = W.pick("history", ["", "a", "xa", "ax", "ab", "ba", "x"])
        rec = {"a": (0.0125, 0.00625, 20.5), "b": (1e-3, 5e-4, -33.0)}
        txt = {"a": "AIPS   CLEAN BMAJ=  1.2500E-02 BMIN=  6.2500E-03 BPA=  20.50", "b": "AIPS   CLEAN BMAJ=  1.0000E-03 BMIN=  5.0000E-04 BPA= -33.00", "x": "IMAGR OUTNAME='X'"}
        h = W.header([("SIMPLE", True), ("NAXIS", 0)] + [(b, val[b]) for b in have if have[b]])
        for c in hist:
            h["HISTORY"] = txt[c]
        got = M.get_beam_from_header(h)
        exp = [val[b] if have[b] else None for b in ("BMAJ", "BMIN", "BPA")]
        found = [c for c in hist if c in rec]
        if (exp[0] is None or exp[1] is None) and found:
            exp = list(rec[found[-1]])
        for b, g, e in zip(("BMAJ", "BMIN", "BPA"), got, exp):
            if e is None:
                W.check(b + " unknown", g is None)
            else:
                W.check(b + " found", g is not None)
                W.close(b, g, e)
    else:
        M = W.mod(F)
        a, b, p = W.real("bmaj", lo=0.001, hi=2), W.real("bmin", lo=0.001, hi=2), W.real("pix", lo=0.0001, hi=1)
        if bool(W.bool("flipped axis")):
            p = -p
        # integral of a Gaussian of those widths, in pixels
        W.close("beam area", M.get_beam_area(a, b, p) * p * p, a * b * W.pi / (4 * W.log(W.num(2.0))), rtol=1e-9)
