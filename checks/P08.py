"""Windowed RM-CLEAN: deeper cleaning only near first-pass components."""
from .lib import clean_reference, clean_setup, quiet

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("5 Faraday depths (7 thorough), first pass of 1 iteration (iteration limit 2, 3 thorough), restoring-beam width symbolic in 0.3..6 "
          "channels, symbolic real dirty spectrum, real RMSF, gain and both thresholds")
ASSUME = ["half a beam width is rounded to whole channels: a channel less than (half width - 1) away must be eligible, one more than (half width + 1) away must not",
          "the RMSF peaks at zero depth with value 1, depth grid symmetric and ascending (P26)"]


def configs(tier):
    out = []
    for n in (5,) if tier == "quick" else (5, 7):
        for k in range(n):
            out.append(dict(name="phi%d-peak%d" % (n, k), args=dict(n=n, it=2, pk=k), feas_ms=100, timeout_ms=8000, witnesses=4, weight=3))
    out.append(dict(name="off", args=dict(n=5, it=3, pk=None), feas_ms=100, timeout_ms=8000, witnesses=4))
    return out


def harness(W, n, it, pk):
    R = W.mod("RMutils.util_RM")
    s = clean_setup(W, n, w_lo=0.3, w_hi=6.0, rmsf_real=True)
    s["D"] = [W.cplx(x.real, W.num(0.0)) for x in s["D"]]
    w = s["width"]
    gain = W.real("gain", lo=0.1, hi=1.0)
    cut = W.real("cutoff", lo=0.5, hi=6)
    if pk is None:
        # no window threshold: nothing beyond the first pass
        D = [x if j == 2 else W.num(0.0) * x for j, x in enumerate(s["D"])]
        s["D"] = D
        r, cc, its, peaks = clean_reference(W, s, cut, gain, 1)
        W.assume(W.and_(*[abs(x) < cut for x in r]))
        res = R.do_rmclean_hogbom(W.pack(D), s["phi"], W.pack(s["R"]), s["phi2"], s["fwhm"], cut, maxIter=it, gain=gain, nBits=64, log=quiet, window=W.nan)
        W.check("iterations are those of the first pass", W.eq(W.np.reshape(W.np.asarray(res.iterCountArr), (1,))[0], W.num(its)))
        W.closes("components", [res.ccArr[j] for j in range(n)], cc, rtol=1e-7, atol=1e-9)
        W.closes("residual", [res.residFDF[j] for j in range(n)], r, rtol=1e-7, atol=1e-9)
        return
    win = W.real("window", lo=0.05, hi=0.45)
    # first pass: one component at channel pk
    for j in range(n):
        if j != pk:
            W.assume(abs(s["D"][j]) < abs(s["D"][pk]))
    W.assume(abs(s["D"][pk]) >= cut)
    r, cc, its, peaks = clean_reference(W, s, cut, gain, 1)
    W.assume(W.and_(*[abs(x) < cut for x in r]))
    res = R.do_rmclean_hogbom(W.pack(s["D"]), s["phi"], W.pack(s["R"]), s["phi2"], s["fwhm"], cut, maxIter=it, gain=gain, nBits=64, log=quiet, window=win)
    cnt = W.np.reshape(W.np.asarray(res.iterCountArr), (1,))[0]
    new = [res.ccArr[j] - cc[j] for j in range(n)]
    stopped = W.not_(W.eq(cnt, W.num(it)))
    for j in range(n):
        far = W.num(float(abs(j - pk))) > w / 2 + 1
        near = W.or_(j == pk, W.num(float(abs(j - pk))) <= w / 2 - 1)
        W.check("no component outside the window (%d)" % j, W.or_(W.not_(far), abs(new[j]) <= W.num(0.0 if W.symbolic else 1e-12)))
        W.check("cleaned to the window threshold inside the window (%d)" % j, W.or_(W.not_(stopped), W.not_(near), abs(res.residFDF[j]) < win))
    W.check("at most the iteration limit", W.and_(cnt >= W.num(1), cnt <= W.num(it)))
