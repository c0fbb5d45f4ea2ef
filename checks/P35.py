"""Robust statistics: definitions over the values that are not blank."""
from .lib import total

PRELOAD = ["RMutils.util_misc"]
BOUNDS = ("arrays of 1..5 values in 1D (6 thorough), 2x2, 2x3, 3x2 and 2x2x2 in 2D and 3D along every axis or none; 2 or 3 spread values (all of up to 3; thorough 3, or all of up to 4) symbolic, blank or (summary) infinite or zero in every combination, the others fixed; "
          "scale constant symbolic")
ASSUME = ["at least one usable value where a value is checked (otherwise the result must be blank); two for the summary"]
U = PRELOAD[0]


def configs(tier):
    q = tier == "quick"
    out = []
    for sh in [(n,) for n in range(1, 6 if q else 7)] + [(2, 2), (2, 3), (3, 2), (2, 2, 2)]:
        n = 1
        for k in sh:
            n *= k
        nm = "x".join(map(str, sh))
        for ax in (None,) if len(sh) == 1 else (None,) + tuple(range(-1, len(sh))):
            sym = min(n, 3) if n < 5 and len(sh) == 1 else 2 if q else 3 if n > 4 else n
            for fn in ("MAD", "nanmedian", "nanmean", "nanstd"):
                if fn != "MAD" and len(sh) == 3 or q and fn == "MAD" and ax is None and n > 5:
                    continue
                out.append(dict(name="%s-%s-axis_%s" % (fn, nm, ax), args=dict(kind=fn, sh=sh, ax=ax, sym=sym), witnesses=4, max_paths=60000, feas_ms=300, timeout_ms=8000))
        if len(sh) < 3 and not (q and sh == (3, 2)):
            for z in (False, True):
                out.append(dict(name="summary-%s-%s" % (nm, "no-zeros" if z else "all"), args=dict(kind="summary", sh=sh, ax=None, sym=n if n < 4 else 2 if q else 3, zero=z), witnesses=6, max_paths=60000,
                                feas_ms=300, timeout_ms=8000))
    return out


def order(W, xs):
    """sorted values (decides every comparison)"""
    out = []
    for x in xs:
        i = 0
        while i < len(out) and bool(out[i] <= x):
            i += 1
        out.insert(i, x)
    return out


def median(W, xs):
    s = order(W, xs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


FIX = [3.5, -1.25, 0.75, 8.0, 2.0, -6.5, 0.5, 1.0]


def harness(W, kind, sh, ax, sym, zero=False):
    M = W.mod(U)
    np = W.np
    n = 1
    for k in sh:
        n *= k
    states = ["value", "blank"] if kind != "summary" else ["value", "blank", "infinite", "zero"]
    vals, st = [], []
    sel = {(2 * j + 1) * n // (2 * sym) for j in range(sym)}         # spread over the array
    for i in range(n):
        s = W.pick("state%d" % i, states) if i in sel else "blank" if i == n - 2 and n > 5 else "value"
        st.append(s)
        vals.append(W.real("x%d" % i, lo=-50, hi=50) if s == "value" and i in sel else W.num(FIX[i % 8]) if s == "value" else W.num(0.0) if s == "zero" else float("nan") if s == "blank"
                    else float("inf") if i % 2 else float("-inf"))
    a = np.reshape(W.pack(vals), sh)
    if kind == "summary":
        return summary(W, M, a, vals, st, sh, zero)
    idx = _indices(sh)
    if ax is None:
        groups = {(): list(range(n))}
    else:
        groups = {}
        for f, ix in enumerate(idx):
            groups.setdefault(tuple(v for k, v in enumerate(ix) if k != ax % len(sh)), []).append(f)
    c = None
    if kind == "MAD" and bool(W.bool("own constant")):
        c = W.real("c", lo=0.1, hi=2)
    if kind == "MAD":
        kw = {} if c is None else dict(c=c)
        if ax is not None:
            kw["axis"] = ax
        got = M.MAD(a, **kw)
    else:
        got = getattr(M, kind)(a, **({} if ax is None else dict(axis=ax)))
    for g, fs in groups.items():
        xs = [vals[f] for f in fs if st[f] == "value"]
        r = got if ax is None else got[g]
        if not xs:
            W.check("blank where no value is usable: %s" % (g,), _masked(W, got, g, ax))
            continue
        if kind == "nanmean":
            want = total(xs) / len(xs)
        elif kind == "nanstd":
            m = total(xs) / len(xs)
            r, want = r * r, total([(x - m) * (x - m) for x in xs]) / len(xs)
        elif kind == "nanmedian":
            want = median(W, xs)
        else:
            md = median(W, xs)
            want = median(W, [abs(x - md) for x in xs]) / (W.num(0.6745) if c is None else c)
        W.close("%s of the usable values %s" % (kind, g), r, want, rtol=1e-9, atol=1e-9)
    if ax is not None:
        W.check("shape of the result", tuple(got.shape) == tuple(k for i, k in enumerate(sh) if i != ax % len(sh)))


def _indices(sh):
    out = [()]
    for k in sh:
        out = [ix + (v,) for ix in out for v in range(k)]
    return out


def _masked(W, got, g, ax):
    ma = W.np.ma
    if ax is None:
        return ma.is_masked(got)
    return bool(ma.getmaskarray(got)[g])


def summary(W, M, a, vals, st, sh, zero):
    d = M.calc_stats(a, maskzero=zero)
    for x, s in zip(vals, st):
        if s == "value" and zero:
            W.assume(W.or_(x > W.num(0.0), x < W.num(0.0)))
    use = [i for i, s in enumerate(st) if s == "value" or s == "zero" and not zero]
    W.check("count of usable values", bool(W.eq(d["npix"], len(use))))
    W.check("success", bool(d["success"]) == (len(use) >= 2))
    xs = [vals[i] for i in use]
    if len(use) < 2:
        for k in ("stdev", "mean", "median", "max", "min", "madfm"):
            W.close(k + " without values", d[k], W.num(0.0))
        return
    m = total(xs) / len(xs)
    W.close("mean", d["mean"], m)
    W.close("variance", d["stdev"] * d["stdev"], total([(x - m) * (x - m) for x in xs]) / len(xs), rtol=1e-6)
    md = median(W, xs)
    W.close("median", d["median"], md)
    W.close("deviation", d["madfm"], median(W, [abs(x - md) for x in xs]) / W.num(0.6745))
    s = order(W, xs)
    W.close("maximum", d["max"], s[-1])
    W.close("minimum", d["min"], s[0])
    at = d["centmax"]
    W.check("position has one index for each axis", len(at) == len(sh))
    f = _indices(sh).index(tuple(int(v) for v in at))
    W.check("position of the maximum is usable", f in use)
    W.close("position of the maximum", vals[f], s[-1])
