"""Load the real sources of /repo with symbolic numpy/math in place of the real ones.

The module text is read from /repo on every run; only name resolution changes
(imports and a few builtins).  String formatting with '%' is redirected so that
log messages may mention symbolic values.
"""
import ast
import builtins
import importlib
import importlib.util
import math as rmath
import os
import sys
import types
from fractions import Fraction as Fr

import numpy as rnp

from . import core as K
from . import engine as E
from . import npshim as S
from .core import Unsupported, band, bnot, bor
from .engine import Num, SBool, SF, as_b, mk, mkbool

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOTS = ("RMutils", "RMtools_1D", "RMtools_3D")


class _Fmt(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and (
                isinstance(n.left, ast.JoinedStr) or isinstance(n.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name("__symfmt__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_ExceptHandler(self, n):
        """handlers of everything must not swallow the encoder's own exceptions"""
        self.generic_visit(n)
        names = [n.type] if not isinstance(n.type, ast.Tuple) else n.type.elts
        if any(t is None or isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in names):
            n.body.insert(0, ast.copy_location(ast.If(ast.Call(ast.Name("__symctl__", ast.Load()), [], []), [ast.Raise()], []), n.body[0]))
        return n


def symctl():
    return isinstance(sys.exc_info()[1], (Unsupported, K.Bound, K.PathAbort))


def _f1(x):
    if isinstance(x, (Num, SBool, S.SymArray)):
        if isinstance(x, S.SymArray):
            x = x.tolist()
            return "<array>"
        c = S.concrete_scalar(x)
        return _Any() if c is None else c
    return x


class _Any:
    """formats under any conversion"""


def symfmt(fmt, args):
    tup = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict):
        return fmt
    vals = [_f1(x) for x in tup]
    if any(isinstance(v, _Any) for v in vals):
        import re
        parts = re.split(r"(%[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?[diouxXeEfFgGcrsa%])", fmt)
        out, i = [], 0
        for p in parts:
            if p.startswith("%") and len(p) > 1:
                if p.endswith("%"):
                    out.append("%")
                    continue
                v = vals[i]
                i += 1
                if isinstance(v, _Any):
                    out.append(E.token(tup[i - 1]) if E.TOKENS is not None and p[-1] in ("srgef" if E.DISPLAY else "srg") and isinstance(tup[i - 1], Num) else "<sym>")
                else:
                    out.append(p % v)
            else:
                out.append(p)
        return "".join(out)
    return fmt % (tuple(vals) if isinstance(args, tuple) else vals[0])


# ---- builtin types ------------------------------------------------------------
class _BT(type):
    def __instancecheck__(cls, x):
        return cls._chk(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class SymFloat(metaclass=_BT):
    _real, _rdtype = float, rnp.dtype("float64")
    _chk = staticmethod(lambda x: isinstance(x, float) or isinstance(x, Num) and x.k == "f")
    __name__ = "float"

    def __new__(cls, x=0.0):
        if isinstance(x, (str, bytes)):
            t = E.untoken(x) if isinstance(x, str) and E.TOKENS is not None else None
            if t is not None:
                return Num("f", t.re)
            return mk(float(x))
        if isinstance(x, S.SymArray):
            x = x._one()
        if isinstance(x, (SBool,)):
            x = x.num()
        if isinstance(x, Num):
            if x.k == "c":
                raise TypeError("can't convert complex to float")
            return Num("f", x.re)
        return mk(float(x))


class SymInt(metaclass=_BT):
    _real, _rdtype = int, rnp.dtype("int64")
    _chk = staticmethod(lambda x: isinstance(x, int) or isinstance(x, Num) and x.k == "i" and x.dt is None)
    __name__ = "int"
    from_bytes = int.from_bytes

    def __new__(cls, x=0, *a):
        if isinstance(x, (str, bytes)):
            t = E.untoken(x) if isinstance(x, str) and E.TOKENS is not None else None
            if t is not None:
                if t.k != "i":
                    raise ValueError("invalid literal for int() with base 10")
                return Num("i", t.re)
            return int(x, *a)
        if isinstance(x, S.SymArray):
            x = x._one()
        if isinstance(x, SBool):
            return x.num()
        if isinstance(x, Num):
            if x.re.nan.op != "F" and bool(mkbool(x.re.nan)):
                raise ValueError("cannot convert float NaN to integer")
            inf = bor(x.re.pi, x.re.ni)
            if inf.op != "F" and bool(mkbool(inf)):
                raise OverflowError("cannot convert float infinity to integer")
            r = E.num_trunc(x)
            r = Num("i", SF(r.re.v))
            c = r.isconst()
            return c if c is not None else r
        return int(x)


class SymComplex(metaclass=_BT):
    _real, _rdtype = complex, rnp.dtype("complex128")
    _chk = staticmethod(lambda x: isinstance(x, complex) or isinstance(x, Num) and x.k == "c")
    __name__ = "complex"

    def __new__(cls, re=0, im=None):
        if isinstance(re, str):
            return complex(re)
        r = mk(re)
        if im is not None:
            r = E.num_add(r, E.num_mul(mk(1j), mk(im)))
        return S.num_cast(r, cls._rdtype)


class SymBool(metaclass=_BT):
    _real, _rdtype = bool, rnp.dtype(bool)
    _chk = staticmethod(lambda x: isinstance(x, (bool, SBool)))
    __name__ = "bool"

    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, Num):
            return mkbool(x.nonzero())
        return bool(x)


def sym_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, Num):
        return {"i": SymInt, "f": SymFloat, "c": SymComplex}[x.k]
    if isinstance(x, SBool):
        return SymBool
    if type(x) in (float, int, complex, bool):
        return {float: SymFloat, int: SymInt, complex: SymComplex, bool: SymBool}[type(x)]
    return type(x)


# ---- math -----------------------------------------------------------------------
class MathShim(types.ModuleType):
    pass


def _mathmod():
    m = MathShim("math")
    for n in ("sqrt", "exp", "log10", "log2", "cos", "sin", "tan", "cosh", "sinh", "tanh", "degrees", "radians",
              "fabs", "hypot", "log1p", "expm1"):
        setattr(m, n, getattr(S, n))

    def log(x, b=None):
        r = S.log(x)
        return r if b is None else r / S.log(b)
    m.log = log
    m.pow = lambda a, b: E.num_pow(mk(S._s0(a)), mk(S._s0(b)))
    m.atan2 = lambda y, x: S.arctan2(y, x)
    m.atan = S.arctan
    m.asin, m.acos, m.erf = S.arcsin, S.arccos, S.erf
    m.pi, m.e, m.nan, m.inf = S.pi, S.e, rmath.nan, rmath.inf
    m.tau = S.pi * 2

    def fl(x):
        x = S._s0(x)
        return SymInt(mk(x).__floor__()) if isinstance(x, Num) else rmath.floor(x)

    def ce(x):
        x = S._s0(x)
        return SymInt(mk(x).__ceil__()) if isinstance(x, Num) else rmath.ceil(x)
    m.floor, m.ceil = fl, ce
    m.trunc = lambda x: SymInt(x)
    m.isnan, m.isinf, m.isfinite = S.isnan, S.isinf, S.isfinite
    m.fmod = S.fmod
    m.copysign = lambda a, b: Num("f", E.sf_ite(E.sf_neg_b(mk(b).re), E.sf_neg(E.sf_abs(mk(a).re)), E.sf_abs(mk(a).re)))
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: S.isclose(a, b, rel_tol, abs_tol)

    def fsum(l):
        r = mk(0.0)
        for x in l:
            r = r + x
        return r
    m.fsum = fsum

    def prod(l, start=1):
        r = start
        for x in l:
            r = r * x
        return r
    m.prod = prod
    m.gcd, m.factorial, m.comb = rmath.gcd, rmath.factorial, rmath.comb
    return m


MATH = _mathmod()


class Passthrough(types.ModuleType):
    """Real module whose functions are refused symbolic arguments."""

    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real_mod"] = real

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(self._real_mod, n)
        if isinstance(v, types.ModuleType):
            return Passthrough(v)
        if callable(v) and not isinstance(v, type):
            return S._fallback(v, self.__name__ + "." + n)
        return v


class Refuse:
    """Placeholder for a library that must be stubbed before use."""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Refuse(self._n + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled library function " + self._n)

    def __mro_entries__(self, bases):
        return (object,)


class RefuseModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Refuse(self.__name__ + "." + n)


# ---- scipy.interpolate -----
class interp1d:
    """Linear one-dimensional interpolation, the documented default behaviour."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        if kind != "linear" or not self.extrapolate and fill_value is not None or bounds_error not in ((None, False) if self.extrapolate else (None, True)):
            raise Unsupported("interp1d options")
        x, y = S.asarr(x), S.asarr(y)
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported("interp1d of more than one dimension")
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            o = S.argsort(x)
            x, y = x[o], y[o]
        self.x, self.y = x, y

    def __call__(self, z):
        z = S.asarr(z)
        if self.extrapolate:
            xs, fs = [mk(v) for v in self.x.a.reshape(-1)], [mk(v) for v in self.y.a.reshape(-1)]
            if len(xs) < 2:
                raise Unsupported("extrapolation from one point")

            def f(t):
                t = mk(t)
                j = 0
                while j < len(xs) - 2 and bool(mkbool(E.sf_lt(xs[j + 1].re, t.re))):
                    j += 1
                return (fs[j + 1] - fs[j]) / (xs[j + 1] - xs[j]) * (t - xs[j]) + fs[j]
            return S.ufunc("interp", f, S.F8 if self.y.dtype.kind != "c" else S.C16)(z)
        for v in z.a.reshape(-1):
            v = mk(v)
            if bool(mkbool(E.sf_lt(v.re, mk(self.x.a[0]).re))):
                raise ValueError("A value in x_new is below the interpolation range.")
            if bool(mkbool(E.sf_lt(mk(self.x.a[-1]).re, v.re))):
                raise ValueError("A value in x_new is above the interpolation range.")
        return S.asarr(S.interp(z, self.x, self.y))


# ---- finufft ----------------------------------------------------------------------
def nufft1d3(x, c, s, out=None, eps=1e-6, isign=1, **k):
    """Type-3 non-uniform Fourier sum, the documented definition (eps -> exact):
    f[k] = sum_j c[j] exp(i*isign*s[k]*x[j]), batched over leading rows of c."""
    x, c, s = S.asarr(x), S.asarr(c), S.asarr(s)
    if x.dtype.kind != "f" or s.dtype != x.dtype or c.dtype != rnp.promote_types(x.dtype, "complex64"):
        raise TypeError("finufft data type must match: x %s c %s s %s" % (x.dtype, c.dtype, s.dtype))
    if c.ndim not in (1, 2) or c.shape[-1] != x.shape[0]:
        raise RuntimeError("finufft size mismatch")
    sg = 1 if (S.concrete_scalar(isign) or 0) >= 0 else -1
    rows = c.a.reshape(-1, c.shape[-1])
    o = S._objarr((rows.shape[0], s.shape[0]))
    for j in range(s.shape[0]):
        ph = [S.cis(E.sf_mul(E.sf_mul(mk(s.a[j]).re, mk(x.a[i]).re), SF(K.pconst(sg)))) for i in range(x.shape[0])]
        for r in range(rows.shape[0]):
            acc = mk(0j)
            for i in range(x.shape[0]):
                acc = acc + rows[r, i] * ph[i]
            o[r, j] = acc
    r = S.SymArray(o if c.ndim == 2 else o[0], c.dtype)
    if out is not None:
        out[...] = r
        return out
    return r


class PriorDict(dict):
    def __init__(self, d=None, conversion_function=None, **k):
        super().__init__(d or {})
        self.conversion_function = conversion_function


def _prior(kind):
    class P:
        def __init__(self, *a, **k):
            self.args, self.kw = a, k
            self.__dict__.update(k)
    P.__name__ = kind
    return P


class _Likelihood:
    def __init__(self, parameters=None):
        self.parameters = parameters or {}


class _Const:
    def __init__(self, v):
        self.value = v
        self.si = self

    def to_value(self, *a):
        return self.value


def _simple(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


class Loader:
    def __init__(self):
        self.mods = {}
        self.files = []
        self.stubs = {}
        self.open = None
        self._std()

    def _std(self):
        st = self.stubs
        st["numpy"] = S
        st["numpy.ma"] = S.ma
        st["numpy.linalg"] = S.linalg
        st["math"] = MATH
        st["finufft"] = _simple("finufft", nufft1d3=nufft1d3)
        st["astropy.constants"] = _simple("astropy.constants", c=_Const(mk(299792458.0)))
        st["tqdm"] = _simple("tqdm", tqdm=lambda it=None, *a, **k: it, trange=lambda *a, **k: range(*[S._ints(x) for x in a]))
        st["tqdm.auto"] = st["tqdm"]
        st["tqdm.contrib.concurrent"] = _simple(
            "tqdm.contrib.concurrent",
            process_map=lambda f, *its, **k: [f(*a) for a in zip(*its)],
            thread_map=lambda f, *its, **k: [f(*a) for a in zip(*its)])
        st["tqdm.contrib"] = _simple("tqdm.contrib", concurrent=st["tqdm.contrib.concurrent"])
        st["pkg_resources"] = _simple("pkg_resources", get_distribution=lambda n: _simple("dist", version="0"),
                                      DistributionNotFound=KeyError)
        for n in ("RMutils.util_plotTk", "RMutils.util_plotFITS"):
            self.mods[n] = RefuseModule(n)
        prior = _simple("bilby.core.prior", PriorDict=PriorDict)
        for n in ("Uniform", "Gaussian", "Constraint", "LogUniform", "TruncatedGaussian", "Sine", "Cosine", "DeltaFunction"):
            setattr(prior, n, _prior(n))
        st["bilby.core.prior"] = prior
        st["bilby.core"] = _simple("bilby.core", prior=prior)
        st["bilby"] = _simple("bilby", prior=prior, core=st["bilby.core"], Likelihood=_Likelihood,
                              run_sampler=Refuse("bilby.run_sampler"), result=Refuse("bilby.result"))
        st["deprecation"] = _simple("deprecation", deprecated=lambda *a, **k: (lambda f: f))
        for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "matplotlib.patches", "matplotlib.figure",
                  "matplotlib.colors", "matplotlib.cbook", "matplotlib.backends.backend_tkagg", "tkinter", "tkinter.ttk",
                  "schwimmbad", "corner", "psutil",
                  "astropy.io.fits", "astropy.io", "astropy.wcs", "astropy.wcs.wcs", "astropy",
                  "astroquery"):
            st[n] = RefuseModule(n)
        st["astropy.io"].fits = st["astropy.io.fits"]
        st["astropy"].io = st["astropy.io"]
        st["astropy"].constants = st["astropy.constants"]
        sp = {}
        for n in ("scipy", "scipy.stats", "scipy.special", "scipy.optimize", "scipy.interpolate", "scipy.ndimage",
                  "scipy.linalg", "scipy.linalg.blas", "scipy.signal", "scipy.integrate"):
            sp[n] = None
        self.lazy_pass = sp
        spec = _simple("scipy.special", erf=S.erf)
        st["scipy.special"] = spec
        ip = RefuseModule("scipy.interpolate")
        ip.interp1d = interp1d
        st["scipy.interpolate"] = ip

    # import machinery ---------------------------------------------------------
    def _imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        root = name.split(".")[0]
        if root in ROOTS:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except FileNotFoundError:
                            pass
                return m
            return self.load(root)
        if name in self.stubs or name in self.lazy_pass:
            m = self._stub(name)
            if fromlist:
                for f in fromlist:
                    sub = name + "." + f
                    if sub in self.stubs or sub in self.lazy_pass:
                        try:
                            setattr(m, f, self._stub(sub))
                        except AttributeError:
                            pass
                return m
            top = self._stub(root) if (root in self.stubs or root in self.lazy_pass) else None
            if top is None:
                top = types.ModuleType(root)
            parts = name.split(".")
            cur = top
            for i in range(1, len(parts)):
                sub = self._stub(".".join(parts[:i + 1]))
                if cur is not S:
                    try:
                        cur.__dict__[parts[i]] = sub
                    except (AttributeError, TypeError):
                        pass
                cur = sub
            return top
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _stub(self, name):
        if name in self.stubs:
            return self.stubs[name]
        m = Passthrough(importlib.import_module(name))
        self.stubs[name] = m
        return m

    def _builtins(self):
        d = dict(builtins.__dict__)
        d["__import__"] = self._imp
        d["float"], d["int"], d["complex"], d["bool"] = SymFloat, SymInt, SymComplex, SymBool
        d["type"] = _TypeProxy
        d["print"] = lambda *a, **k: None
        d["__symfmt__"] = symfmt
        d["__symctl__"] = symctl
        d["input"] = lambda *a: ""
        d["open"] = lambda *a, **k: (self.open or builtins.open)(*a, **k)

        def rnd(x, n=None):
            if isinstance(x, S.SymArray):
                return S.around(x, n or 0)
            r = round(x) if n is None else round(x, n)
            if isinstance(r, Num) and r.k == "i":
                c = r.isconst()
                return c if c is not None else r
            return r
        d["round"] = rnd
        return d

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        for q in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(q):
                return q
        raise FileNotFoundError(name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self.path(name)
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Fmt().visit(tree))
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith("__init__.py")
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        parent, _, leaf = name.rpartition(".")
        m.__dict__["__builtins__"] = self._builtins()
        try:
            if parent:
                self.load(parent)
            exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        self.files.append(path)
        return m


class _TypeProxyMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            return sym_type(a[0])
        return type(*a, **k)


class _TypeProxy(metaclass=_TypeProxyMeta):
    pass
