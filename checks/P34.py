"""Second moment of a (clean component) spectrum: amplitude-weighted spread of Faraday depth."""
from .lib import total

PRELOAD = ["RMutils.util_RM", "RMutils.util_misc"]
BOUNDS = ("spectra of 1..4 depths (5 thorough), every complex value symbolic (or zero), depths symbolic in any order (fixed irregular ones for more than 3); shift, unit and amplitude factors symbolic")
ASSUME = ["at least one component is not zero", "amplitudes between 0.1 and 100 where not zero; values: directions from a menu of six, any direction by the relation to the amplitude spectrum"]


def configs(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for fn in ("mom2", "complexity"):
            out.append(dict(name="%s-%d" % (fn, n), args=dict(fn=fn, n=n, kind="value"), witnesses=6, feas_ms=300, timeout_ms=8000))
    for n in (2, 3):
        for kind in ("shift", "unit", "amplitude", "modulus", "one"):
            out.append(dict(name="%s-%d" % (kind, n), args=dict(fn="complexity", n=n, kind=kind), witnesses=4, feas_ms=300, timeout_ms=8000))
    return out


DIRS = [(1.0, 0.0), (0.6, 0.8), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (-0.8, 0.6), None]


def harness(W, fn, n, kind):
    R, U = W.mod("RMutils.util_RM"), W.mod("RMutils.util_misc")
    phi = W.array("phi", n, lo=-1000, hi=1000) if n < 4 or kind != "value" else W.pack([-3.0, 5.5, 6.0, 1.0, 20.0][:n])
    amp, F = [], []
    for k in range(n):
        if kind == "modulus":
            re, im = W.real("re%d" % k, lo=-100, hi=100), W.real("im%d" % k, lo=0.1, hi=100)
            F.append((re, im))
            amp.append(W.sqrt(re * re + im * im))
            continue
        d = W.pick("direction%d" % k, DIRS if n < 4 else DIRS[1:6:2] + [None]) if kind == "value" else DIRS[k % 6] if kind != "one" or k == 1 else None
        a = W.num(0.0) if d is None else W.real("amp%d" % k, lo=0.1, hi=100)
        F.append((a * W.num(d[0]), a * W.num(d[1])) if d else (a, a))
        amp.append(a)
    if all(_zero(x) for x in amp):
        W.skip()
    pack = lambda f: W.pack([W.cplx(a, b) for a, b in f], "complex128")

    def run(f, p):
        return R.measure_fdf_complexity(p, pack(f)) if fn == "complexity" else U.calc_mom2_FDF(pack(f), p)

    got = run(F, phi)
    ps = list(phi)
    mean = total([p * a for p, a in zip(ps, amp)]) / total(amp)
    var = total([(p - mean) * (p - mean) * a for p, a in zip(ps, amp)]) / total(amp)
    if kind == "value":
        W.close("square of the second moment is the weighted variance", got * got, var, rtol=1e-6, atol=1e-6)
        W.check("not negative", got >= W.num(0.0))
    elif kind == "one":
        W.close("single component has no spread", got, W.num(0.0), atol=1e-4)
    elif kind == "shift":
        s = W.real("shift", lo=-500, hi=500)
        r = run(F, phi + s)
        W.close("independent of the origin of the depth axis", r * r, got * got, rtol=1e-6, atol=1e-6)
    elif kind == "unit":
        s = W.real("unit", lo=0.01, hi=100)
        r = run(F, phi * s)
        W.close("follows the unit of the depth axis", r * r, got * got * s * s, rtol=1e-6, atol=1e-6)
    elif kind == "amplitude":
        s = W.real("factor", lo=0.01, hi=100)
        r = run([(a * s, b * s) for a, b in F], phi)
        W.close("independent of the amplitude unit", r * r, got * got, rtol=1e-6, atol=1e-6)
    elif kind == "modulus":
        r = run([(a, W.num(0.0)) for a in amp], phi)
        W.close("depends on the amplitudes alone", r * r, got * got, rtol=1e-6, atol=1e-6)


def _zero(v):
    c = v.isconst() if hasattr(v, "isconst") else v
    return c is not None and c == 0
