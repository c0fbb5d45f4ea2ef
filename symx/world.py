"""Two worlds running the same harness: symbolic (encoder) and concrete (the real package)."""
import contextlib
import importlib
import io
import math
import os
import sys
import warnings
from fractions import Fraction as Fr

import numpy as rnp

from . import core as K
from . import engine as E
from . import fitsim
from . import modload
from . import npshim as S
from .core import B, FALSE, TRUE, Unsupported, PathAbort, band, bnot, bor, b_eq0, b_lt0, biff, bimp
from .engine import Num, SBool, SF, as_b, mk, mkbool, num_ite

REPO = modload.REPO


class Goal:
    __slots__ = ("label", "f", "strong", "raw")

    def __init__(self, label, f, strong=(), raw=None):
        self.label, self.f, self.strong, self.raw = label, f, strong, raw


class Base:
    symbolic = False

    def array(self, name, shape, **k):
        if isinstance(shape, int):
            shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for ix in rnp.ndindex(*shape):
            o[ix] = self.real(name + "_" + "_".join(map(str, ix)), **k)
        return self.pack(o)

    def patch(self, modname, attr, value):
        m = self.mod(modname) if isinstance(modname, str) else modname
        self._patches.append((m, attr, m.__dict__.get(attr, _MISSING)))
        setattr(m, attr, value)

    def _console(self, m):
        out = []
        self.patch(m, "print", lambda *a, sep=" ", end="\n", **k: out.extend((sep.join(str(x) for x in a)).split("\n")))
        return out

    def numbers(self, line):
        """the numbers in a line of text"""
        r = []
        for w in line.replace("/", " ").split():
            try:
                r.append(self.parse(w))
            except ValueError:
                pass
        return r

    def unpatch(self):
        for m, a, v in reversed(self._patches):
            if v is _MISSING:
                delattr(m, a)
            else:
                setattr(m, a, v)
        self._patches = []

    def closes(self, label, gots, exps, **k):
        for i, (g, e) in enumerate(zip(gots, exps)):
            self.close("%s[%d]" % (label, i), g, e, **k)


_MISSING = object()


def _main(m, args, entry="main"):
    old = sys.argv
    sys.argv = [m.__name__] + [str(a) for a in args]
    try:
        return getattr(m, entry)()
    finally:
        sys.argv = old


class SymW(Base):
    symbolic = True

    def __init__(self, loader, ctx):
        self.L = loader
        self.ctx = ctx
        E.DISPLAY = False
        self.np = S
        self.goals = []
        self._patches = []
        self.pi = S.pi
        self.nan = mk(math.nan)
        self.inf = mk(math.inf)
        self.env = None

    # inputs -------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nan=False, dtype=None):
        lo = None if lo is None else K._q(lo)
        hi = None if hi is None else K._q(hi)
        if lo is not None and lo > 0:
            pos = True
        elif lo is not None and lo == 0 and not pos:
            nonneg = True
        a = K.atom(("var", name), "var", name, pos=pos, nonneg=nonneg, lo=lo, hi=hi)
        self.ctx.inputs[name] = "f"
        nf = FALSE
        if nan:
            self.ctx.inputs[name + ".nan"] = "b"
            nf = K.bvar(name + ".nan")
        return Num("f", SF(K.patom(a), nf))

    def int(self, name, lo, hi):
        a = K.atom(("var", name), "var", name, integer=True, lo=Fr(lo), hi=Fr(hi), pos=lo > 0, nonneg=lo >= 0)
        self.ctx.inputs[name] = "i"
        return Num("i", SF(K.patom(a)))

    def bool(self, name):
        self.ctx.inputs[name] = "b"
        return SBool(K.bvar(name))

    def pick(self, name, options):
        """fork over a finite list of options"""
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def pack(self, o, dtype=None):
        if isinstance(o, (list, tuple)):
            return S.array(o, dtype)
        kinds = {S.sc_dtype(x) for x in o.reshape(-1)}
        return S.SymArray(o, S._promote(sorted(kinds, key=str)))

    def assume(self, c):
        self.ctx.assume(as_b(c))

    def mod(self, name):
        return self.L.load(name)

    def lib(self, name, value):
        """stub a third-party module (by import name)"""
        self.L.stubs[name] = value

    # files -------------------------------------------------------------------
    def files(self):
        """model the file system; to be called before any module is loaded; returns the directory to use"""
        fitsim.FS.reset()
        if not self.L.open:
            fitsim.install(self.L)
        return fitsim.ROOT + "work"

    def put_fits(self, fn, *hdus):
        fitsim.FS.write(fn, [(fitsim.ImageHDU if i else fitsim.PrimaryHDU)(d, h) for i, (d, h) in enumerate(hdus)])

    def get_fits(self, fn, ext=0):
        h = fitsim.fopen(fn)[ext]
        return h.data, h.header

    def header(self, cards):
        return fitsim.Header(cards)

    def listdir(self):
        return sorted(f[len(fitsim.ROOT + "work/"):] for f in fitsim.FS.files)

    def put_text(self, fn, text):
        fitsim.FS.write(fn, text)

    def get_text(self, fn):
        return fitsim.FS.read(fn)

    def get_json(self, fn):
        return fitsim._jread(fitsim.FS.read(fn))

    def console(self, m):
        """lines printed by this module; numbers in them may be rounded for display"""
        if E.TOKENS is None:
            E.TOKENS = []
        E.DISPLAY = True
        return self._console(m)

    def parse(self, text):
        """the number written as this text"""
        from . import engine
        v = engine.untoken(text)
        return self.num(float(text)) if v is None else v

    def argv(self, modname, *args, entry="main"):
        """run a tool's entry point with these command line arguments"""
        return _main(self.mod(modname), args, entry)

    @contextlib.contextmanager
    def rounding(self):
        """floating-point rounding: every real sum, difference, product and quotient inside may be off
        by a relative error of either sign up to 2^-52 (fresh variable per operation)"""
        names = ("num_add", "num_sub", "num_mul", "num_div")
        old = {n: getattr(E, n) for n in names}
        cnt = [0]
        memo = {}

        def wrap(f):
            def g(a, b):
                for n in names:
                    setattr(E, n, old[n])
                try:
                    key = (f, a.re.v, b.re.v) if isinstance(a, Num) and isinstance(b, Num) else None
                    if key in memo:           # the same operation on the same operands rounds the same way
                        return memo[key]
                    r = f(a, b)
                    if isinstance(r, Num) and r.k == "f" and r.isconst() is None:
                        cnt[0] += 1
                        e = self.real("eps%d" % cnt[0], lo=Fr(-1, 2 ** 52), hi=Fr(1, 2 ** 52))
                        r = E.num_add(r, E.num_mul(r, e))
                        if key is not None:
                            memo[key] = r
                    return r
                finally:
                    for n in names:
                        setattr(E, n, new[n])
            return g
        new = {n: wrap(old[n]) for n in names}
        for n in names:
            setattr(E, n, new[n])
        try:
            yield
        finally:
            for n in names:
                setattr(E, n, old[n])

    # spec helpers ----------------------------------------------------------
    def cis(self, x):
        return S.cis(mk(x).re)

    def __getattr__(self, n):
        if n in ("exp", "log", "sqrt", "cos", "sin", "cosh", "sinh", "atan2", "floor", "log10"):
            return getattr(S, "arctan2" if n == "atan2" else n)
        raise AttributeError(n)

    def ite(self, c, a, b):
        return num_ite(as_b(c), a, b)

    def isnan(self, x):
        return mkbool(E.isnan_b(x))

    def isfinite(self, x):
        return S.isfinite(x)

    def and_(self, *xs):
        return mkbool(band(*[as_b(x) for x in xs]))

    def or_(self, *xs):
        return mkbool(bor(*[as_b(x) for x in xs]))

    def not_(self, x):
        return mkbool(bnot(as_b(x)))

    def eq(self, a, b):
        return mkbool(E.num_eq_b(mk(a), mk(b)))

    def num(self, x):
        return mk(x)

    def cplx(self, re, im):
        return E.num_add(mk(re), E.num_mul(mk(1j), mk(im)))

    def value(self, x):
        return x

    def skip(self):
        raise PathAbort()

    # goals --------------------------------------------------------------------
    def check(self, label, cond):
        self.goals.append(Goal(label, as_b(cond)))

    def close(self, label, got, exp, rtol=None, atol=None, scale=None):
        g, e = _flat(got), _flat(exp)
        if g[0] != e[0]:
            self.goals.append(Goal("%s shape %s expected %s" % (label, g[0], e[0]), FALSE))
            return
        n = len(g[1])
        for i, (a, b) in enumerate(zip(g[1], e[1])):
            lb = label if n == 1 else "%s(%d)" % (label, i)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                if isinstance(a, (Num, S.SymArray)):
                    a = S.concrete_scalar(a)
                self.goals.append(Goal(lb, TRUE if a is b or a == b else FALSE))
                continue
            if not (S.is_scalar(a) and S.is_scalar(b)):
                self.goals.append(Goal(lb + " type %s" % type(a), FALSE))
                continue
            f = E.num_close(a, b)
            self.goals.append(Goal(lb, f, _strong(a, b), (a, b)))

    def note(self, *a):
        pass


def _strong(a, b):
    if isinstance(a, (SBool, bool, rnp.bool_)) or isinstance(b, (SBool, bool, rnp.bool_)):
        return ()
    a, b = mk(a), mk(b)

    def mkf():
        out = []
        for thr in (Fr(1, 4), Fr(1, 100)):
            fs = [bnot(biff(E.isnan_b(a), E.isnan_b(b))), bnot(biff(E.isinf_b(a), E.isinf_b(b)))]
            for x, y in ((a.re, b.re), (E._im(a), E._im(b))):
                d = K.psub(x.v, y.v)
                if not d.t:
                    continue
                big = bor(b_lt0(K.psub(K.pconst(thr), d)), b_lt0(K.psub(K.pconst(thr), K.pneg(d))))
                fs.append(band(x.fin(), y.fin(), big))
            out.append(bor(*fs))
        return out
    return mkf


def _flat(x):
    if isinstance(x, S.SymArray):
        return x.a.shape, list(x.a.reshape(-1))
    if isinstance(x, (list, tuple)):
        if not len(x):
            return (0,), []
        sub = [_flat(y) for y in x]
        sh = sub[0][0]
        if any(s[0] != sh for s in sub):
            return ("ragged",), []
        return (len(x),) + sh, [v for s in sub for v in s[1]]
    if isinstance(x, rnp.ndarray):
        return x.shape, list(x.reshape(-1))
    return (), [x]


class ConcreteMismatch(Exception):
    pass


class ConW(Base):
    """The real package under the real numpy, inputs taken from env."""

    def __init__(self, env):
        self.env = env
        self.np = rnp
        self.fails = []
        self.nchecks = 0
        self._dir = None
        self._patches = []
        self.pi = math.pi
        self.nan = rnp.float64("nan")
        self.inf = rnp.float64("inf")

    def _get(self, name, default):
        v = self.env.get(name)
        if v is None:
            v = default
            self.env[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nan=False, dtype=None):
        if nan and self._get(name + ".nan", False):
            return rnp.float64("nan")
        d = lo if lo is not None else (hi if hi is not None else 1)
        return rnp.float64(float(self._get(name, K._q(d))))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def pack(self, o, dtype=None):
        if isinstance(o, (list, tuple)):
            return rnp.array(o, dtype=dtype)
        return rnp.array(o.tolist(), dtype=dtype)

    def assume(self, c):
        if not c:
            raise PathAbort()

    def mod(self, name):
        return importlib.import_module(name)

    def files(self):
        import tempfile
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="verif_")
        return self._dir

    def cleanup(self):
        import shutil
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def put_fits(self, fn, *hdus):
        from astropy.io import fits
        fits.HDUList([(fits.ImageHDU if i else fits.PrimaryHDU)(None if d is None else rnp.asarray(d), self.header(h)) for i, (d, h) in enumerate(hdus)]
                     ).writeto(fn, overwrite=True)

    def get_fits(self, fn, ext=0):
        from astropy.io import fits
        with fits.open(fn, memmap=False) as l:
            return (None if l[ext].data is None else rnp.array(l[ext].data)), l[ext].header.copy()

    def header(self, cards):
        from astropy.io import fits
        h = fits.Header()
        for c in (cards.items() if hasattr(cards, "items") else cards):
            h[c[0]] = c[1] if len(c) == 2 else (c[1], c[2])
        return h

    def listdir(self):
        return sorted(os.listdir(self._dir))

    def put_text(self, fn, text):
        with open(fn, "w") as f:
            f.write(text)

    def get_text(self, fn):
        with open(fn) as f:
            return f.read()

    def get_json(self, fn):
        import json
        with open(fn) as f:
            return json.load(f)

    def console(self, m):
        return self._console(m)

    def parse(self, text):
        return float(text)

    def argv(self, modname, *args, entry="main"):
        return _main(self.mod(modname), args, entry)

    def rounding(self):
        return contextlib.nullcontext()

    def lib(self, name, value):
        pass

    def cis(self, x):
        return rnp.exp(1j * x)

    def __getattr__(self, n):
        if n in ("exp", "log", "sqrt", "cos", "sin", "cosh", "sinh", "atan2", "floor", "log10"):
            return getattr(rnp, "arctan2" if n == "atan2" else n)
        raise AttributeError(n)

    def ite(self, c, a, b):
        return a if c else b

    def isnan(self, x):
        return bool(rnp.isnan(x))

    def isfinite(self, x):
        return bool(rnp.isfinite(x))

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def eq(self, a, b):
        return bool(a == b)

    def num(self, x):
        return rnp.float64(x) if isinstance(x, (int, float)) else x

    def cplx(self, re, im):
        return rnp.complex128(complex(re, im))

    def value(self, x):
        return x

    def skip(self):
        raise PathAbort()

    def check(self, label, cond):
        self.nchecks += 1
        if not bool(cond):
            self.fails.append((label, "condition is false", None))

    def close(self, label, got, exp, rtol=1e-6, atol=1e-9, scale=None):
        self.nchecks += 1
        g, e = _cflat(got), _cflat(exp)
        if g[0] != e[0]:
            self.fails.append((label, "shape %s expected %s" % (g[0], e[0]), None))
            return
        for i, (a, b) in enumerate(zip(g[1], e[1])):
            lb = label if len(g[1]) == 1 else "%s(%d)" % (label, i)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                if not (a is b or a == b):
                    self.fails.append((lb, "got %r expected %r" % (a, b), None))
                continue
            try:
                ok = _cclose(a, b, rtol, atol, scale)
            except TypeError:
                ok = False
            if not ok:
                self.fails.append((lb, "got %r expected %r" % (a, b), None))

    def note(self, *a):
        print(*a)


def _cclose(a, b, rtol, atol, scale):
    a, b = complex(a), complex(b)
    an, bn = (a != a), (b != b)
    if an or bn:
        return an == bn
    if math.isinf(abs(a)) or math.isinf(abs(b)):
        return a == b or (math.isinf(abs(a)) and math.isinf(abs(b)) and (a.imag != 0 or b.imag != 0))
    s = abs(b) if scale is None else max(abs(b), abs(float(scale)))
    return abs(a - b) <= atol + rtol * s


def _cflat(x):
    if isinstance(x, rnp.ndarray):
        return x.shape, list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        if not len(x):
            return (0,), []
        sub = [_cflat(y) for y in x]
        sh = sub[0][0]
        if any(s[0] != sh for s in sub):
            return ("ragged",), []
        return (len(x),) + sh, [v for s in sub for v in s[1]]
    return (), [x]
