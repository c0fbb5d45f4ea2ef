"""Cross-checks of the encoder itself: algebra against floats, translation against z3, numpy look-alike against numpy."""
import math
import random

import numpy as rnp

from . import core as K
from . import engine as E
from . import npshim as S
from . import world


class _Edge(Exception):
    pass


def _fl(x):
    if abs(x - round(x)) < 1e-9:
        raise _Edge()
    return float(math.floor(x))


def _flt(a, b):
    if abs(a - b) < 1e-9:
        raise _Edge()
    return a < b


def _gen(rng, depth, vs):
    """pairs of (symbolic function, float function)"""
    if depth == 0:
        if rng.random() < 0.25:
            c = rng.choice([0, 1, 2, -1, 0.5, -1.25, 3])
            return (lambda v: E.mk(c)), (lambda v: float(c))
        n = rng.choice(vs)
        return (lambda v: v[n]), (lambda v: v[n])
    op = rng.choice(["add", "sub", "mul", "div", "abs", "floor", "sqrt", "ite", "neg", "pow", "mod", "max", "exp"])
    a = _gen(rng, depth - 1, vs)
    b = _gen(rng, rng.randint(0, depth - 1), vs)
    if op == "add":
        return (lambda v: a[0](v) + b[0](v)), (lambda v: a[1](v) + b[1](v))
    if op == "sub":
        return (lambda v: a[0](v) - b[0](v)), (lambda v: a[1](v) - b[1](v))
    if op == "mul":
        return (lambda v: a[0](v) * b[0](v)), (lambda v: a[1](v) * b[1](v))
    if op == "div":
        return (lambda v: a[0](v) / (abs(b[0](v)) + 0.5)), (lambda v: a[1](v) / (abs(b[1](v)) + 0.5))
    if op == "abs":
        return (lambda v: abs(a[0](v))), (lambda v: abs(a[1](v)))
    if op == "floor":
        return (lambda v: S.floor(a[0](v))), (lambda v: _fl(a[1](v)))
    if op == "sqrt":
        return (lambda v: S.sqrt(abs(a[0](v)))), (lambda v: math.sqrt(abs(a[1](v))))
    if op == "exp":
        c = rng.choice([0.5, 1.0, -1.0])
        return (lambda v: S.exp(S.minimum(v[vs[0]], 1.0) * c)), (lambda v: math.exp(min(v[vs[0]], 1.0) * c))
    if op == "ite":
        c = _gen(rng, 1, vs)
        return (lambda v: E.num_ite(E.as_b(c[0](v) < b[0](v)), a[0](v), b[0](v))), (lambda v: a[1](v) if _flt(c[1](v), b[1](v)) else b[1](v))
    if op == "neg":
        return (lambda v: -a[0](v)), (lambda v: -a[1](v))
    if op == "pow":
        return (lambda v: a[0](v) ** 2), (lambda v: a[1](v) ** 2)
    if op == "mod":
        return (lambda v: a[0](v) % 1.75), (lambda v: a[1](v) - 1.75 * _fl(a[1](v) / 1.75))
    return (lambda v: S.maximum(a[0](v), b[0](v))), (lambda v: max(a[1](v), b[1](v)))


def algebra(n=400, seed=7):
    import z3
    rng = random.Random(seed)
    done = skipped = 0
    for t in range(n):
        E.set_ctx(_Plain())
        W = world.SymW(None, E.CTX)
        vs = ["x", "y", "k"]
        sv = {"x": W.real("x", lo=-4, hi=4), "y": W.real("y", lo=0.25, hi=3), "k": W.int("k", -3, 3)}
        env = {"x": round(rng.uniform(-4, 4), 3), "y": round(rng.uniform(0.25, 3), 3), "k": float(rng.randint(-3, 3))}
        f = _gen(rng, rng.randint(1, 3), vs)
        g = _gen(rng, 1, vs)
        try:
            sym, ref = f[0](sv), f[1](env)
            sym2, ref2 = g[0](sv), g[1](env)
        except (K.Unsupported, OverflowError, _Edge):
            skipped += 1
            continue
        val = K._real(K.peval(sym.re.v, {k: K._q(v) for k, v in env.items()}))
        if abs(val - ref) > 1e-6 * max(1, abs(ref)):
            raise AssertionError("algebra: %s at %s gives %r, floats give %r" % (sym, env, val, ref))
        if abs(ref - ref2) < 1e-6:
            continue
        b = E.as_b(sym < sym2)
        tr = K.Tr()
        s = z3.Solver()
        s.set("timeout", 3000)
        zb = tr.bool(b)
        zs = [tr.poly(sv[k].re.v) == K.zq(K._q(env[k])) for k in vs]
        want = ref < ref2
        s.add(*(zs + list(tr.ax)), z3.Not(zb) if want else zb)
        r = str(s.check())
        # exp is only bounded, not defined, by its axioms
        if r == "sat" and "exp" not in str(zb) + str(tr.ax):
            raise AssertionError("translation: %s at %s is %s in the solver, should be %s" % (b, env, not want, want))
        done += 1
    return done, skipped


class _Plain(E.Ctx):
    """context without a search: symbolic branches are not allowed"""

    def branch(self, b):
        if b.op in "TF":
            return b.op == "T"
        raise K.Unsupported("branch")


NP = [
    ("cumsum", lambda np, a, b: np.cumsum(a)), ("diff", lambda np, a, b: np.diff(a)), ("dot", lambda np, a, b: np.dot(a, b)),
    ("roll", lambda np, a, b: np.roll(a, 2)), ("outer", lambda np, a, b: np.outer(a, b)), ("mean", lambda np, a, b: np.mean(a)),
    ("std", lambda np, a, b: np.std(a)), ("var1", lambda np, a, b: np.var(a, ddof=1)), ("mod", lambda np, a, b: a % 1.5),
    ("tensordot", lambda np, a, b: np.tensordot(a.reshape(2, 2), b.reshape(2, 2), axes=([0], [1]))),
    ("where", lambda np, a, b: np.where(a > b, a, 2 * b)), ("maximum", lambda np, a, b: np.maximum(a, b)), ("clip", lambda np, a, b: np.clip(a, -1, 1)),
    ("complex", lambda np, a, b: (a + 1j * b) * np.conj(b - 2j * a)), ("abs", lambda np, a, b: np.abs(a + 1j * b)),
    ("exp", lambda np, a, b: np.exp(2j * a)), ("floor", lambda np, a, b: np.floor(a * 1.5)), ("ceil", lambda np, a, b: np.ceil(a)), ("rint", lambda np, a, b: np.round(a)),
    ("swap", lambda np, a, b: np.swapaxes(a.reshape(1, 4), 0, 1)), ("transpose", lambda np, a, b: np.transpose(np.multiply.outer(a, b))),
    ("stack", lambda np, a, b: np.stack([a, b], axis=-1)), ("concat", lambda np, a, b: np.concatenate([a, b[::-1]])), ("pad", lambda np, a, b: np.pad(a, 2)),
    ("nansum", lambda np, a, b: np.nansum(np.array([a[0], np.nan, b[1]]))), ("nanmean", lambda np, a, b: np.nanmean(np.array([a[0], np.nan, b[1]]))),
    ("polyval", lambda np, a, b: np.polyval(a, b)), ("poly1d", lambda np, a, b: np.poly1d(a)(b)), ("interp", lambda np, a, b: np.interp(0.75, np.arange(4.0), a)),
    ("einsum", lambda np, a, b: np.einsum("i,j->ij", a, b)), ("trapz", lambda np, a, b: np.sum((a[1:] + a[:-1]) / 2 * np.diff(b))), ("rot90", lambda np, a, b: np.rot90(a.reshape(2, 2))),
    ("radians", lambda np, a, b: np.radians(a) + np.degrees(b)), ("arctan2", lambda np, a, b: np.arctan2(a, b)), ("sinc", lambda np, a, b: np.sinc(a)),
    ("power", lambda np, a, b: np.power(np.abs(a) + 1, 0.5)), ("log", lambda np, a, b: np.log(np.abs(a) + 0.5) + np.log10(np.abs(b) + 1)),
    ("linspace", lambda np, a, b: np.linspace(a[0], b[0], 4)), ("nan_to_num", lambda np, a, b: np.nan_to_num(np.array([np.nan, 1.0]) * a[:2])),
    ("mgrid", lambda np, a, b: a[:, None] * b[None, :] + np.arange(4)), ("moveaxis", lambda np, a, b: np.moveaxis(a.reshape(1, 2, 2), 0, -1)),
    ("squeeze", lambda np, a, b: np.squeeze(a.reshape(1, 4, 1))), ("sum axis", lambda np, a, b: np.sum(np.outer(a, b), axis=0)), ("flip", lambda np, a, b: np.flip(a)),
    ("cross", lambda np, a, b: np.real(np.angle(a + 1j * b))), ("tile", lambda np, a, b: np.tile(a, (2, 1))), ("repeat", lambda np, a, b: np.repeat(a, 2)),
    ("average", lambda np, a, b: np.average(a, weights=np.abs(b) + 1)), ("prod", lambda np, a, b: np.prod(a[:3])), ("hypot", lambda np, a, b: np.sqrt(a**2 + b**2)),
]


def shim(seed=3):
    rng = random.Random(seed)
    n = 0
    for nm, f in NP:
        E.set_ctx(_Plain())
        W = world.SymW(None, E.CTX)
        a = W.array("a", 4, lo=-3, hi=3)
        b = W.array("b", 4, lo=-3, hi=3)
        try:
            s = f(S, a, b)
        except K.Unsupported as ex:
            if "branch" in str(ex):
                continue
            raise AssertionError("numpy look-alike: %s: %s" % (nm, ex))
        for _ in range(4):
            env = {"%s_%d" % (v, i): K._q(round(rng.uniform(-3, 3), 3)) for v in "ab" for i in range(4)}
            av, bv = (rnp.array([float(env["%s_%d" % (v, i)]) for i in range(4)]) for v in "ab")
            with rnp.errstate(all="ignore"):
                r = rnp.asarray(f(rnp, av, bv))
            x = S.asarr(s)
            if x.a.shape != r.shape:
                raise AssertionError("numpy look-alike: %s shape %s, numpy %s" % (nm, x.a.shape, r.shape))
            for ix in rnp.ndindex(*r.shape):
                e = E.mk(x.a[ix])
                v = complex(K.peval(e.re.v, env)) + (1j * complex(K.peval(e.im.v, env)) if e.k == "c" else 0)
                if abs(v - complex(r[ix])) > 1e-7 * max(1, abs(r[ix])):
                    raise AssertionError("numpy look-alike: %s%s gives %r, numpy %r" % (nm, ix, v, r[ix]))
                n += 1
    return n


def main():
    d, s = algebra()
    assert d > 150, (d, s)
    n = shim()
    assert n > 300, n
    return "encoder cross-check: %d random comparisons agree with floats and z3 (%d skipped), %d numpy look-alike values agree with numpy" % (d, s, n)
