"""RM-CLEAN of a cube: every pixel as if alone, serially or through a worker pool."""
import copy

from .lib import clean_setup, quiet

PRELOAD = ["RMutils.util_RM"]
BOUNDS = ("3 Faraday depths, iteration limit 1 (2 for one-pixel rows in thorough), images up to 2x2 (2x3 thorough) with two pixels' real spectra symbolic (one channel of each when there are more than two pixels) and the others fixed, "
          "per-pixel symbolic RMSF and FWHM, symbolic gain and (up to two pixels) threshold; pool modelled as workers that receive and return copies (pickling), results in submission order")
ASSUME = ["the RMSF peaks at zero depth with value 1 and is smaller elsewhere, depth grid symmetric about zero (P26)"]


def configs(tier):
    out = []
    shapes = [(2,), (1, 2), (2, 1), (2, 2)] + ([(3,), (2, 3), (3, 2)] if tier != "quick" else [])
    for sh in shapes:
        for pool in (False, True):
            out.append(dict(name="%s-%s" % ("x".join(map(str, sh)), "pool" if pool else "serial"), args=dict(sh=sh, pool=pool, it=1),
                            weight=len(sh) * 3, feas_ms=100, timeout_ms=8000, witnesses=5, max_paths=6000))
    out.append(dict(name="1D-pool", args=dict(sh=(), pool=True, it=2), feas_ms=100, timeout_ms=8000))
    return out


class Pool:
    """like multiprocessing.Pool.imap: function and arguments are copied to the worker, results copied back"""

    def imap(self, f, items, chunksize=1):
        g = copy.deepcopy(f.__self__) if hasattr(f, "__self__") else f
        for it in items:
            h = getattr(g, f.__name__) if hasattr(f, "__self__") else g
            yield copy.deepcopy(h(copy.deepcopy(it)))

    def map(self, f, items, chunksize=1):
        return list(self.imap(f, items, chunksize))

    def close(self):
        pass

    def join(self):
        pass


def harness(W, sh, pool, it):
    R = W.mod("RMutils.util_RM")
    n = 3
    npx = 1
    for k in sh:
        npx *= k
    d = W.num(2.0)
    ss = [clean_setup(W, n, d=d, tag="p%d" % p, rmsf_real=True, w_lo=0.2, w_hi=1.8) for p in range(npx)]
    n2 = ss[0]["n2"]
    gain = W.real("gain", lo=0.05, hi=1.0) if it == 1 else W.num(0.5)
    cut = W.real("cutoff", lo=0.1, hi=6) if npx < 3 else W.num(1.0)
    # two pixels carry arbitrary real spectra, the others fixed distinct ones
    fixed = [[0.5 * (j + 1) * (-1) ** p + 0.25 * p for j in range(n)] for p in range(npx)]
    def free(p, j):
        return p in (0, npx - 1) and (npx < 3 or j == 1)

    D = W.pack([[W.cplx(ss[p]["D"][j].real if free(p, j) else W.num(fixed[p][j]), W.num(0.0)) for p in range(npx)] for j in range(n)])
    Rm = W.pack([[ss[p]["R"][j] for p in range(npx)] for j in range(n2)])
    fw = W.pack([ss[p]["fwhm"] for p in range(npx)])
    alone = []
    for p in range(npx):
        alone.append(R.do_rmclean_hogbom(D[:, p].copy(), ss[0]["phi"], Rm[:, p].copy(), ss[0]["phi2"], fw[p], cut, maxIter=it, gain=gain,
                                         nBits=64, log=quiet, window=W.nan))
    if sh == ():
        Dc, Rc, fc = D[:, 0].copy(), Rm[:, 0].copy(), fw[0]
    else:
        Dc, Rc = D.reshape((n,) + sh).copy(), Rm.reshape((n2,) + sh).copy()
        fc = fw.reshape(sh)
    res = R.do_rmclean_hogbom(Dc, ss[0]["phi"], Rc, ss[0]["phi2"], fc, cut, maxIter=it, gain=gain, nBits=64, log=quiet, window=W.nan,
                              pool=Pool() if pool else None)
    want = tuple(k for k in sh if k != 1)
    W.check("axes [phi, y, x] without degenerate ones", tuple(res.cleanFDF.shape) == (n,) + want and tuple(W.np.asarray(res.iterCountArr).shape) == want)
    cnt = W.np.reshape(W.np.asarray(res.iterCountArr), (npx,))
    for nm in ("cleanFDF", "ccArr", "residFDF"):
        A = W.np.reshape(getattr(res, nm), (n, npx))
        for p in range(npx):
            W.closes("%s pixel %d" % (nm, p), [A[j, p] for j in range(n)], [getattr(alone[p], nm)[j] for j in range(n)], rtol=1e-9, atol=1e-10)
    for p in range(npx):
        own = W.np.reshape(W.np.asarray(alone[p].iterCountArr), (1,))[0]
        W.check("iteration count pixel %d" % p, W.eq(cnt[p], own))
        if it == 1:
            big = W.or_(*[abs(D[j, p]) >= cut for j in range(n)])
            W.check("iterations performed are counted, pixel %d" % p, W.eq(cnt[p], W.ite(big, W.num(1), W.num(0))))
