"""Linear FITS axes: length and values."""

PRELOAD = ["RMutils.util_RM", "RMtools_3D.make_freq_file"]
BOUNDS = ("axes of 1..7 channels, axis 1..4 of the header, CRVAL, CRPIX and CDELT symbolic, increments of either sign; "
          "lengths also under floating-point rounding (every arithmetic operation off by up to 2^-52 relative)")
ASSUME = ["CDELT not zero; the WCS library maps a linear spectral axis by its definition (make_freq_file)"]


def configs(tier):
    ns = [1, 2, 3, 5, 7] if tier == "quick" else list(range(1, 13))
    out = []
    for n in ns:
        out.append(dict(name="values-%d" % n, args=dict(kind="values", n=n), feas_ms=2000))
        out.append(dict(name="length-rounded-%d" % n, args=dict(kind="length", n=n), feas_ms=2000, timeout_ms=5000))
    for n in ns[1:]:
        out.append(dict(name="freqfile-%d" % n, args=dict(kind="freq", n=n), feas_ms=2000))
    return out


class SpecWCS:
    """astropy.wcs.WCS for headers with a linear frequency axis"""

    def __init__(self, header=None, *a, **k):
        self.h = header
        self.ax = [i for i in range(1, header["NAXIS"] + 1) if header["CTYPE%d" % i].startswith("FREQ")][0]
        self.array_shape = (header["NAXIS%d" % self.ax],)

    @property
    def spectral(self):
        return self

    def pixel_to_world_values(self, k):
        h, a = self.h, str(self.ax)
        return h["CRVAL" + a] + (k + 1 - h["CRPIX" + a]) * h["CDELT" + a]


def harness(W, kind, n):
    neg = bool(W.bool("decreasing"))
    ax = W.pick("axis", [1, 3, 4])
    val = W.real("crval", lo=-2000, hi=2000)
    pix = W.real("crpix", lo=-20, hi=20)
    step = W.real("cdelt", lo=0.001, hi=100)
    if neg:
        step = -step
    if kind == "freq":
        d = W.files()
        import types
        m = types.ModuleType("astropy.wcs")
        m.WCS = SpecWCS
        W.lib("astropy.wcs", m)
        M = W.mod("RMtools_3D.make_freq_file")
        val, step = (val + 4000) * 1e6, step * 1e6
        nd = 3 if ax == 3 else 4
        if ax == 1:
            W.skip()
        cards = []
        for i in range(1, nd + 1):
            if i == ax:
                f = (lambda x: x) if W.symbolic else float
                cards += [("CTYPE%d" % i, "FREQ"), ("CUNIT%d" % i, "Hz"), ("CRVAL%d" % i, f(val)), ("CRPIX%d" % i, f(pix)), ("CDELT%d" % i, f(step))]
            else:
                cards += [("CTYPE%d" % i, {1: "RA---SIN", 2: "DEC--SIN", 3: "STOKES"}.get(i, "X")), ("CRVAL%d" % i, 1.0), ("CRPIX%d" % i, 1.0), ("CDELT%d" % i, 0.1)]
        shape = [1, 1, 2, 2][4 - nd:]
        shape[nd - ax] = n
        W.put_fits(d + "/c.fits", (W.np.zeros(tuple(shape)), cards))
        got = M.get_freq_array(d + "/c.fits")
    else:
        R = W.mod("RMutils.util_RM")
        head = {"NAXIS": 4}
        for i in (1, 2, 3, 4):
            a = str(i)
            if i == ax:
                head.update({"NAXIS" + a: n, "CRVAL" + a: val, "CRPIX" + a: pix, "CDELT" + a: step})
            else:
                head.update({"NAXIS" + a: 9, "CRVAL" + a: 55.0, "CRPIX" + a: 3.0, "CDELT" + a: 2.5})
        if kind == "length":
            with W.rounding():
                got = R.fits_make_lin_axis(head, axis=ax - 1, dtype="float64")
            W.check("one value per channel", len(got) == n)
            return
        got = R.fits_make_lin_axis(head, axis=ax - 1, dtype="float64")
        W.check("axis outside the header is empty", len(R.fits_make_lin_axis(head, axis=4)) == 0)
    W.check("one value per channel", len(got) == n)
    if len(got) == n:
        for k in range(n):
            W.close("value of channel %d" % k, got[k], val + (k + 1 - pix) * step, rtol=1e-9, scale=abs(val) + 30 * abs(step))
