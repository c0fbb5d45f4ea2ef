"""A numpy look-alike over symbolic scalars.

Arrays are object ndarrays of symbolic scalars plus a logical dtype, so views,
broadcasting and indexing follow numpy itself; element arithmetic follows the
symbolic scalars.  Anything not modelled raises Unsupported (never guesses).
"""
import builtins
import functools
import contextlib
import math
import numbers
import types
from fractions import Fraction as Fr

import numpy as rnp

from . import core as K
from . import engine as E
from .core import FALSE, TRUE, Unsupported, band, bnot, bor
from .engine import Num, SBool, SF, as_b, mk, mkbool, num_cast, num_ite

PI_NUM = Num("f", SF(K.P_PI))
DT = rnp.dtype
F8, I8, C16, BOOL, OBJ = DT("float64"), DT("int64"), DT("complex128"), DT(bool), DT(object)
_KD = {"i": I8, "f": F8, "c": C16}


def sc_dtype(x):
    """dtype of a scalar element"""
    if isinstance(x, Num):
        return x.dtype
    if isinstance(x, (SBool, bool, rnp.bool_)):
        return BOOL
    if isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, int):
        return I8
    if isinstance(x, (float, Fr)):
        return F8
    if isinstance(x, complex):
        return C16
    return OBJ


def is_scalar(x):
    return isinstance(x, (Num, SBool, numbers.Number, rnp.generic)) and not isinstance(x, rnp.str_)


def parse_dtype(d):
    if d is None:
        return None
    if isinstance(d, DT):
        return d
    r = getattr(d, "_rdtype", None)
    if r is not None:
        return r
    return rnp.dtype(d)


class NDMeta(type):
    pass


def _elem(x, dt):
    """element for storage in an array of dtype dt"""
    if dt.kind == "O":
        return x
    if dt.kind in "SUV":
        raise Unsupported("string arrays with symbolic values")
    if dt.kind == "b":
        if isinstance(x, (bool, SBool)):
            return x
        if isinstance(x, rnp.bool_):
            return bool(x)
        return mkbool(mk(x).nonzero())
    if isinstance(x, Num):
        if dt.kind == "f" and x.k == "f" or dt.kind == "i" and x.k == "i" or dt.kind == "c" and x.k == "c":
            return x
    if isinstance(x, str):
        x = float(x)
    if x is None:
        if dt.kind in "fc":
            x = math.nan
        else:
            raise TypeError("int() argument must be a number, not 'NoneType'")
    r = num_cast(mk(x) if not isinstance(x, SBool) else x, dt)
    r.dt = None
    return r


def _objarr(shape):
    return rnp.empty(shape, dtype=object)


class SymArray(metaclass=NDMeta):
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = dtype

    # construction helpers ------------------------------------------------
    def _w(self, a, dtype=None):
        return SymArray(a, dtype or self.dtype)

    # attributes ------------------------------------------------------------
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    T = property(lambda s: s._w(s.a.T))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.dtype.itemsize * s.a.size)
    strides = property(lambda s: s.a.strides)
    flags = property(lambda s: s.a.flags)
    base = property(lambda s: None if s.a.base is None else s)

    @property
    def flat(self):
        return _Flat(self)

    @property
    def real(self):
        if self.dtype.kind == "c":
            return _ComplexPart(self, "re")
        return self

    @real.setter
    def real(self, v):
        _set_part(self, "re", v)

    @property
    def imag(self):
        if self.dtype.kind == "c":
            return _ComplexPart(self, "im")
        return zeros_like(self)

    @imag.setter
    def imag(self, v):
        _set_part(self, "im", v)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.a.tolist(), self.dtype)

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return format(self.item(), spec) if self.ndim == 0 else "<symarray>"

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.a.ndim == 0 and self.dtype.kind in "iu":
            return self.a[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __complex__(self):
        return complex(self._one())

    def __round__(self, n=None):
        return around(self, n or 0)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        return bool(any_(self == x))

    def __array__(self, *a, **k):
        c = concrete_array(self)
        if c is None:
            raise Unsupported("conversion of a symbolic array to a real numpy array")
        return c

    # indexing ----------------------------------------------------------------
    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices, ...")
        key = norm_key(key, self.a.shape)
        r = self.a[key]
        if isinstance(r, rnp.ndarray) and r.dtype == object:
            return self._w(r)
        return r

    def __setitem__(self, key, val):
        if val is ma.masked:
            val = mk(math.nan)
        m = _whole_mask(key)
        if m is not None:
            _mask_assign(self, m, val)
            return
        key = norm_key(key, self.a.shape)
        if is_scalar(val) or isinstance(val, str) or val is None:
            e = _elem(val, self.dtype)
            if isinstance(self.a, rnp.ndarray):
                self.a[key] = e
            return
        v = asarr(val)
        tgt = self.a[key]
        out = cast_arr(v, self.dtype)
        if not (isinstance(tgt, rnp.ndarray) and tgt.dtype == object):
            if out.a.size != 1:
                raise ValueError("setting an array element with a sequence.")
            self.a[key] = out.a.reshape(-1)[0]
            return
        self.a[key] = out.a

    # arithmetic ----------------------------------------------------------------
    def __neg__(self):
        return negative(self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        return invert(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __divmod__(self, o):
        return floor_divide(self, o), mod(self, o)

    # methods -------------------------------------------------------------------
    def copy(self, order=None):
        return self._w(self.a.copy())

    def astype(self, dt, copy=True, **k):
        return cast_arr(self, parse_dtype(dt), True)

    def tolist(self):
        return self.a.tolist()

    def item(self, *i):
        if not i:
            return self._one()
        return self.a.item(*i)

    def fill(self, v):
        self.a[...] = _elem(v, self.dtype)

    def reshape(self, *s, order="C"):
        return self._w(self.a.reshape(*_ints(s), order=order))

    def ravel(self, order="C"):
        return self._w(self.a.ravel(order))

    def flatten(self, order="C"):
        return self._w(self.a.flatten(order))

    def squeeze(self, axis=None):
        return self._w(self.a.squeeze(axis))

    def transpose(self, *s):
        return self._w(self.a.transpose(*s))

    def swapaxes(self, i, j):
        return self._w(self.a.swapaxes(i, j))

    def repeat(self, n, axis=None):
        return self._w(self.a.repeat(_ints(n), axis))

    def take(self, idx, axis=None):
        return take(self, idx, axis)

    def conj(self):
        return conj(self)

    conjugate = conj

    def view(self, *a, **k):
        return self if not a and not k else (_ for _ in ()).throw(Unsupported("view"))

    def byteswap(self, *a, **k):
        return self

    newbyteorder = byteswap

    def tofile(self, *a, **k):
        raise Unsupported("tofile")

    def sort(self, axis=-1, **k):
        self.a[...] = sort(self, axis).a

    def dot(self, o):
        return dot(self, o)

    def nonzero(self):
        return nonzero(self)

    def filled(self, v=None):
        return self

    def resize(self, *s, **k):
        raise Unsupported("resize")

    def setflags(self, **k):
        pass


class _ComplexPart(SymArray):
    """Read view of .real/.imag; item assignment writes through to the parent."""

    def __init__(self, parent, part):
        self.parent, self.part = parent, part
        dt = rnp.empty(0, parent.dtype).real.dtype
        out = _objarr(parent.a.shape)
        for i, x in enumerate(parent.a.reshape(-1)):
            out.reshape(-1)[i] = Num("f", getattr(x, part))
        super().__init__(out, dt)

    def __setitem__(self, key, val):
        super().__setitem__(key, val)
        _set_part(self.parent, self.part, self)


def _set_part(arr, part, v):
    if arr.dtype.kind != "c":
        if part == "re":
            arr[...] = v
            return
        raise TypeError("array does not have imaginary part to set")
    v = rnp.broadcast_to(asarr(v).a, arr.a.shape)
    for ix in rnp.ndindex(*arr.a.shape):
        x = arr.a[ix]
        y = mk(v[ix]).re
        arr.a[ix] = Num("c", y, x.im) if part == "re" else Num("c", x.re, y)


class _Flat:
    def __init__(self, arr):
        self.arr = arr

    def __iter__(self):
        return iter(self.arr.a.flat)

    def __getitem__(self, k):
        r = self.arr.a.flat[norm_key(k, (self.arr.a.size,))]
        return SymArray(r, self.arr.dtype) if isinstance(r, rnp.ndarray) else r

    def __setitem__(self, k, v):
        if isinstance(v, SymArray):
            v = cast_arr(v, self.arr.dtype).a
        else:
            v = _elem(v, self.arr.dtype)
        self.arr.a.flat[norm_key(k, (self.arr.a.size,))] = v

    def __len__(self):
        return self.arr.a.size


def _ints(s):
    if isinstance(s, (tuple, list)):
        return tuple(_ints(x) for x in s)
    if isinstance(s, SymArray):
        return tuple(_ints(x) for x in s)
    if isinstance(s, Num):
        return s.__index__()
    return s


def _as_index_array(k):
    """SymArray used as an index -> real index array (forking as needed)."""
    if k.dtype.kind == "b":
        out = rnp.empty(k.a.shape, dtype=bool)
        for ix in rnp.ndindex(*k.a.shape):
            out[ix] = bool(k.a[ix])
        return out
    if k.dtype.kind in "iu":
        out = rnp.empty(k.a.shape, dtype=int)
        for ix in rnp.ndindex(*k.a.shape):
            out[ix] = k.a[ix].__index__()
        return out
    if k.a.size == 0:
        return rnp.empty(k.a.shape, dtype=int)
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def _norm1(k):
    if isinstance(k, SymArray):
        return _as_index_array(k)
    if isinstance(k, Num):
        if k.k != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        return k.__index__()
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, slice):
        def f(x):
            if x is None:
                return None
            if isinstance(x, Num):
                if x.k != "i":
                    raise TypeError("slice indices must be integers or None or have an __index__ method")
                return x.__index__()
            if isinstance(x, SymArray):
                return x.__index__()
            return x
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        return _as_index_array(asarr(k)) if k else rnp.array([], dtype=int)
    return k


def norm_key(k, shape):
    if isinstance(k, tuple):
        return tuple(_norm1(x) for x in k)
    return _norm1(k)


def _whole_mask(k):
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if isinstance(k, SymArray) and k.dtype.kind == "b":
        if builtins.any(isinstance(x, SBool) for x in k.a.reshape(-1)):
            return k
    return None


def _mask_assign(arr, m, val):
    if m.a.shape != arr.a.shape[:m.a.ndim]:
        raise IndexError("boolean index did not match indexed array")
    if not (is_scalar(val) or val is None or (isinstance(val, SymArray) and val.a.size == 1)):
        key = _as_index_array(m)
        arr.a[key] = cast_arr(asarr(val), arr.dtype).a
        return
    if isinstance(val, SymArray):
        val = val._one()
    e = _elem(val, arr.dtype)
    for ix in rnp.ndindex(*m.a.shape):
        b = as_b(m.a[ix])
        if b.op == "F":
            continue
        sub = arr.a[ix]
        if isinstance(sub, rnp.ndarray):
            for jx in rnp.ndindex(*sub.shape):
                sub[jx] = num_ite(b, e, sub[jx])
        else:
            arr.a[ix] = num_ite(b, e, sub)


# ----------------------------------------------------------------------------
def asarr(x, dtype=None):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, rnp.ndarray):
        if x.dtype.kind in "SUVM":
            raise Unsupported("string array in symbolic arithmetic")
        o = _objarr(x.shape)
        f = o.reshape(-1)
        kind = x.dtype.kind
        for i, v in enumerate(x.reshape(-1)):
            f[i] = v if kind == "O" else bool(v) if kind == "b" else mk(v)
        o = f.reshape(x.shape)
        dt = x.dtype
        if kind == "O" and o.size and builtins.all(is_scalar(v) for v in f):
            dt = _promote([sc_dtype(v) for v in f])
            return cast_arr(SymArray(o, OBJ), dt)
        return SymArray(o, dt)
    if is_scalar(x):
        o = _objarr(())
        dt = sc_dtype(x)
        o[()] = _elem(x, dt)
        return SymArray(o, dt)
    if isinstance(x, (list, tuple, range, map, filter)) or hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        return _from_nested(list(x))
    if x is None:
        o = _objarr(())
        o[()] = None
        return SymArray(o, OBJ)
    raise Unsupported("array from %r" % type(x))


def _promote(dts):
    dts = [d for d in dts]
    if not dts:
        return F8
    if builtins.any(d.kind == "O" for d in dts):
        return OBJ
    r = dts[0]
    for d in dts[1:]:
        r = rnp.promote_types(r, d)
    return r


def _from_nested(x):
    if len(x) == 0:
        return SymArray(_objarr((0,)), F8)
    parts = []
    for y in x:
        if y is None:
            o = _objarr(())
            o[()] = None
            parts.append(SymArray(o, OBJ))
        elif isinstance(y, str):
            raise Unsupported("array of strings")
        else:
            parts.append(asarr(y))
    sh = parts[0].a.shape
    if builtins.any(p.a.shape != sh for p in parts):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    dt = _promote([p.dtype for p in parts])
    o = _objarr((len(parts),) + sh)
    for i, p in enumerate(parts):
        o[i] = cast_arr(p, dt).a if sh else _elem(p.a[()], dt) if dt.kind != "O" else p.a[()]
    return SymArray(o, dt)


def cast_arr(x, dt, copy=False):
    if x.dtype == dt:
        return x.copy() if copy else x
    o = _objarr(x.a.shape)
    if o.ndim == 0:
        o[()] = _elem(x.a[()], dt)
    else:
        src = x.a.reshape(-1)
        f = _objarr(src.shape)
        for i in range(src.size):
            f[i] = _elem(src[i], dt)
        o = f.reshape(x.a.shape)
    return SymArray(o, dt)


def concrete_scalar(x):
    if isinstance(x, Num):
        c = x.isconst()
        if c is None:
            c = E._numeric(x)
            if c is None and x.k == "c" and x.re.plain() and x.im.plain() and not K.pvars_any(x.re.v) and not K.pvars_any(x.im.v):
                c = complex(K._real(K.peval(x.re.v, {})), K._real(K.peval(x.im.v, {})))
        return c
    if isinstance(x, SBool):
        return None
    return x


def concrete_array(x):
    """real ndarray when no element is symbolic, else None"""
    out = rnp.empty(x.a.shape, dtype=x.dtype)
    for ix in rnp.ndindex(*x.a.shape):
        c = concrete_scalar(x.a[ix])
        if c is None and x.a[ix] is not None:
            return None
        out[ix] = c
    return out


def is_symbolic(x):
    if isinstance(x, SymArray):
        return concrete_array(x) is None
    if isinstance(x, (Num, SBool)):
        return concrete_scalar(x) is None
    if isinstance(x, (list, tuple)):
        return builtins.any(is_symbolic(y) for y in x)
    if isinstance(x, dict):
        return builtins.any(is_symbolic(y) for y in x.values())
    return False


def to_real(x):
    if isinstance(x, SymArray):
        return concrete_array(x)
    if isinstance(x, (Num, SBool)):
        return concrete_scalar(x)
    if isinstance(x, list):
        return [to_real(y) for y in x]
    if isinstance(x, tuple):
        return tuple(to_real(y) for y in x)
    if isinstance(x, dict):
        return {k: to_real(v) for k, v in x.items()}
    r = getattr(x, "_real_obj", None)
    return x if r is None else r


def from_real(x):
    if isinstance(x, rnp.ndarray):
        if x.dtype.kind in "fciub":
            return asarr(x)
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_real(y) for y in x)
    if isinstance(x, list):
        return [from_real(y) for y in x]
    if isinstance(x, rnp.generic) and x.dtype.kind in "fciu":
        return mk(x)
    if isinstance(x, rnp.bool_):
        return bool(x)
    return x


def _unsc(r, dt):
    """0-d result -> scalar"""
    if r.ndim == 0:
        x = r[()]
        return x
    return SymArray(r, dt)


# ---- ufuncs -----------------------------------------------------------------
def _res_dtype(args, kindmap=None):
    arrs = [a.dtype for a in args if isinstance(a, SymArray) and a.a.ndim > 0]
    scs = [sc_dtype(a) if not isinstance(a, SymArray) else a.dtype for a in args
           if not (isinstance(a, SymArray) and a.a.ndim > 0)]
    if builtins.any(d.kind == "O" for d in arrs + scs):
        return OBJ
    if not arrs:
        return _promote(scs)
    r = _promote(arrs)
    order = "biufc"
    for s in scs:
        ra, rs = "b" if r.kind == "b" else r.kind, s.kind
        o = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3}
        if o[rs] > o[ra]:
            r = rnp.result_type(r, {"i": 1, "u": 1, "f": 1.0, "c": 1j}[rs]) if rs != "i" else I8
            if r.kind == "c" and ra == "i":
                r = C16
    return r


def _prep(x):
    if isinstance(x, (SymArray,)) or is_scalar(x):
        return x
    if isinstance(x, str) or x is None:
        return x
    return asarr(x)


def _finish(r, dt, out, where):
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if dt.kind == "c" and out.dtype.kind != "c" or dt.kind == "f" and out.dtype.kind in "iub":
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (dt, out.dtype))
        w = None if where is True or where is None else rnp.broadcast_to(asarr(where).a, out.a.shape)
        r = rnp.broadcast_to(r, out.a.shape)
        for ix in rnp.ndindex(*out.a.shape):
            v = _elem(r[ix], out.dtype)
            out.a[ix] = v if w is None else num_ite(as_b(w[ix]), v, out.a[ix])
        return out
    if dt.kind == "O":
        return _unsc(r, dt)
    return _unsc(r, dt)


def ufunc(name, f, dtf=None, nin=1):
    """f: element function; dtf: dtype rule (callable on input dtype) or fixed dtype."""

    def u(*args, out=None, where=True, dtype=None, **kw):
        if len(args) == nin + 1:
            out = args[nin]
            args = args[:nin]
        if builtins.any(isinstance(x, _Ma.MArr) for x in args):
            msk = functools.reduce(logical_or, [x.mask for x in args if isinstance(x, _Ma.MArr)])
            return _Ma.MArr(u(*[x.data if isinstance(x, _Ma.MArr) else x for x in args]), msk)
        args = [_prep(x) for x in args]
        for x in args:
            if x is None or isinstance(x, str):
                raise TypeError("ufunc '%s' not supported for the input types" % name)
        dt = _res_dtype(args)
        if dtf is not None and dt.kind != "O":
            dt = dtf(dt) if callable(dtf) else dtf
        if nin == 1:
            x = args[0]
            if not isinstance(x, SymArray):
                r0 = _elem(f(x), dt) if dt.kind != "O" else f(x)
                if out is None:
                    return r0
                o = _objarr(())
                o[()] = r0
                return _finish(o, dt, out, where)
            src = x.a.reshape(-1)
            o = _objarr(src.shape)
            for i in range(src.size):
                v = f(src[i])
                o[i] = v if dt.kind == "O" else _elem(v, dt)
            o = o.reshape(x.a.shape)
        else:
            xs = [x.a if isinstance(x, SymArray) else x for x in args]
            if not builtins.any(isinstance(x, rnp.ndarray) for x in xs):
                r0 = f(*xs)
                r0 = r0 if dt.kind == "O" else _elem(r0, dt)
                if out is None:
                    return r0
                o = _objarr(())
                o[()] = r0
                return _finish(o, dt, out, where)
            bs = []
            for x in xs:
                if isinstance(x, rnp.ndarray):
                    bs.append(x)
                else:
                    t = _objarr(())
                    t[()] = x
                    bs.append(t)
            bs = rnp.broadcast_arrays(*bs)
            sh = bs[0].shape
            o = _objarr(sh)
            if sh == ():
                v = f(*[b[()] for b in bs])
                o[()] = v if dt.kind == "O" else _elem(v, dt)
            else:
                fl = [b.reshape(-1) for b in bs]
                of = _objarr(fl[0].shape)
                for i in range(of.size):
                    v = f(*[b[i] for b in fl])
                    of[i] = v if dt.kind == "O" else _elem(v, dt)
                o = of.reshape(sh)
        r = _finish(o, dt, out, where)
        if dtype is not None and out is None:
            r = cast_arr(asarr(r), parse_dtype(dtype)) if isinstance(r, SymArray) else num_cast(r, parse_dtype(dtype))
        return r
    u.__name__ = name
    u.outer = lambda a, b: u(SymArray(asarr(a).a.reshape(asarr(a).a.shape + (1,) * asarr(b).a.ndim), asarr(a).dtype), b)
    if nin == 2:
        def _reduce(x, axis=0, **k):
            return _reduce_generic(asarr(x), axis, f, k.get("keepdims", False), dtf)
        u.reduce = _reduce
        u.accumulate = lambda x, axis=0: _accumulate(asarr(x), axis, u)
        u.at = _ufat(u)
    return u


def _ufat(u):
    def at(arr, idx, val):
        raise Unsupported("ufunc.at")
    return at


def _accumulate(x, axis, u):
    out = x.copy()
    m = rnp.moveaxis(out.a, axis, 0)
    for i in range(1, len(m)):
        m[i] = _acc1(m, i, u, x.dtype)
    return out


def _acc1(m, i, u, dt):
    a, b = m[i - 1], m[i]
    if isinstance(a, rnp.ndarray):
        return asarr(u(SymArray(a, dt), SymArray(b, dt))).a
    return u(a, b)


def _ftype(dt):
    if dt.kind in "biu":
        return F8
    return dt


def _real_dt(dt):
    if dt.kind == "c":
        return rnp.empty(0, dt).real.dtype
    return dt


def _numdt(dt):
    return I8 if dt.kind == "b" else dt


def _n2(f):
    return lambda a, b: f(mk(a), mk(b))


def _n1(f):
    return lambda a: f(mk(a))


def _need_real(a):
    if a.k == "c":
        raise TypeError("ufunc not supported for complex input")
    return a


def _r1(f):
    """real function on SF"""
    return lambda a: Num("f", f(_need_real(mk(a)).re))


add = ufunc("add", lambda a, b: _boolor(a, b) if _bb(a, b) else E.num_add(mk(a), mk(b)), nin=2)
subtract = ufunc("subtract", _n2(E.num_sub), nin=2)
multiply = ufunc("multiply", lambda a, b: _booland(a, b) if _bb(a, b) else E.num_mul(mk(a), mk(b)), nin=2)
true_divide = divide = ufunc("divide", _n2(E.num_div), _ftype, nin=2)
floor_divide = ufunc("floor_divide", _n2(E.num_floordiv), _numdt, nin=2)
mod = remainder = ufunc("mod", _n2(E.num_mod), _numdt, nin=2)


def _bb(a, b):
    return isinstance(a, (bool, SBool, rnp.bool_)) and isinstance(b, (bool, SBool, rnp.bool_))


def _boolor(a, b):
    return mkbool(bor(as_b(a), as_b(b)))


def _booland(a, b):
    return mkbool(band(as_b(a), as_b(b)))


def _power(a, b):
    a, b = mk(a), mk(b)
    if a.k == "i" and b.k == "i":
        c = b.isconst()
        if c is not None and c < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
    return E.num_pow(a, b)


power = float_power = ufunc("power", _power, _numdt, nin=2)
negative = ufunc("negative", _n1(E.num_neg))
positive = ufunc("positive", lambda a: a)
absolute = abs = fabs = ufunc("absolute", _n1(E.num_abs), lambda d: _numdt(_real_dt(d)))
square = ufunc("square", lambda a: E.num_mul(mk(a), mk(a)))
reciprocal = ufunc("reciprocal", lambda a: E.num_div(mk(1), mk(a)))


def _sqrt(a):
    a = mk(a)
    if a.k == "c":
        raise Unsupported("complex sqrt")
    return Num("f", E.sf_sqrt(a.re))


sqrt = ufunc("sqrt", _sqrt, _ftype)


def cis(x):
    """exp(i*x) for a real SF"""
    p = K.cis_poly(x.v)
    n = K.cis_poly(K.pneg(x.v))
    bad = bnot(x.fin())
    re = K.pscale(K.padd(p, n), K.HALF)
    im = K.pmul(K.pscale(K.psub(p, n), -K.HALF), K.P_I)
    return Num("c", SF(re, bad), SF(im, bad))


def _exp(a):
    a = mk(a)
    if a.k != "c":
        return Num("f", E.sf_exp(a.re))
    r = cis(a.im)
    if a.re.plain() and a.re.v.const() == 0:
        return r
    return E.num_mul(Num("f", E.sf_exp(a.re)), r)


exp = ufunc("exp", _exp, _ftype)


def _log(a):
    a = mk(a)
    if a.k == "c":
        raise Unsupported("complex log")
    return Num("f", E.sf_log(a.re))


LN10 = SF(K.ln_const(10))
LN2 = SF(K.ln_const(2))
log = ufunc("log", _log, _ftype)
log10 = ufunc("log10", lambda a: Num("f", E.sf_div(_log(a).re, LN10)), _ftype)
log2 = ufunc("log2", lambda a: Num("f", E.sf_div(_log(a).re, LN2)), _ftype)
log1p = ufunc("log1p", lambda a: _log(E.num_add(mk(a), mk(1))), _ftype)
expm1 = ufunc("expm1", lambda a: E.num_sub(_exp(a), mk(1)), _ftype)
exp2 = ufunc("exp2", lambda a: E.num_pow(mk(2.0), mk(a)), _ftype)


def _cos(a):
    a = mk(a)
    if a.k == "c":
        raise Unsupported("complex cos")
    return Num("f", SF(K.cos_poly(a.re.v), bnot(a.re.fin())))


def _sin(a):
    a = mk(a)
    if a.k == "c":
        raise Unsupported("complex sin")
    return Num("f", SF(K.sin_poly(a.re.v), bnot(a.re.fin())))


cos = ufunc("cos", _cos, _ftype)
sin = ufunc("sin", _sin, _ftype)
tan = ufunc("tan", lambda a: E.num_div(_sin(a), _cos(a)), _ftype)


def _cosh(a):
    p, m = _exp(a), _exp(E.num_neg(mk(a)))
    return E.num_mul(mk(0.5), E.num_add(p, m))


def _sinh(a):
    p, m = _exp(a), _exp(E.num_neg(mk(a)))
    return E.num_mul(mk(0.5), E.num_sub(p, m))


cosh = ufunc("cosh", _cosh, _ftype)
sinh = ufunc("sinh", _sinh, _ftype)
tanh = ufunc("tanh", lambda a: E.num_div(_sinh(a), _cosh(a)), _ftype)


def _sinc(a):
    a = mk(a)
    x = E.sf_mul(a.re, SF(K.P_PI))
    z = K.b_eq0(a.re.v)
    s = _sin(Num("f", x))
    q = E.sf_div(s.re, x)
    return Num("f", E.sf_ite(band(z, a.re.fin()), E.SF1, SF(q.v, a.re.nan)))


sinc = ufunc("sinc", _sinc, _ftype)


def atan2_sf(y, x):
    """arctan2 for real SF, canonical under positive scaling"""
    nan = bor(bnot(y.fin()), bnot(x.fin()))
    yv, xv = y.v, x.v
    if not yv.t:
        s = K.b_lt0(xv)
        return SF(K.pmul(K.ind(s), K.P_PI), nan)
    # common positive monomial
    ex = None
    for p in (yv, xv):
        for m in p.t:
            d = {a: e for a, e in m if K.ATOMS[a].pos}
            ex = d if ex is None else {a: (builtins.min(e, d[a]) if e > 0 else builtins.max(e, d[a])) for a, e in ex.items() if a in d and (e > 0) == (d[a] > 0)}
    if ex:
        im = K.Poly({tuple(sorted((a, -e) for a, e in ex.items())): Fr(1)})
        yv, xv = K.pmul(yv, im), K.pmul(xv, im)
    c = builtins.abs(K.lead(yv))
    if c != 1:
        yv, xv = K.pscale(yv, 1 / c), K.pscale(xv, 1 / c)
    if yv.const() is not None and xv.const() is not None:
        if xv.const() == 0:
            return SF(K.pscale(K.P_PI, Fr(1, 2) if yv.const() > 0 else Fr(-1, 2)), nan)
    # odd in y: canonical sign of the leading term
    if K.lead(yv) < 0:
        r = K.pneg(K.fn_poly("atan2", K.pneg(yv), xv))
        # arctan2(-0, x<0) differs from -arctan2(0, x<0) only on the branch cut
        cut = band(K.b_eq0(yv), K.b_lt0(xv))
        if cut.op != "F":
            r = K.padd(r, K.pmul(K.ind(cut), K.pscale(K.P_PI, Fr(2))))
        return SF(r, nan)
    return SF(K.fn_poly("atan2", yv, xv), nan)


arctan2 = ufunc("arctan2", lambda y, x: Num("f", atan2_sf(_need_real(mk(y)).re, _need_real(mk(x)).re)), _ftype, nin=2)
arctan = ufunc("arctan", lambda y: Num("f", atan2_sf(mk(y).re, E.SF1)), _ftype)


def _opaque(name, f, lo=None, hi=None):
    def g(a):
        a = _need_real(mk(a)).re
        c = a.v.const() if a.plain() else None
        if c is not None:
            return mk(f(float(c)))
        K.FN_EVAL.setdefault(name, f)
        return Num("f", SF(K.fn_poly(name, a.v), bnot(a.fin())))
    return g


arcsin = ufunc("arcsin", _opaque("asin", lambda x: math.asin(max_(-1, min_(1, x)))), _ftype)
arccos = ufunc("arccos", _opaque("acos", lambda x: math.acos(max_(-1, min_(1, x)))), _ftype)
max_, min_ = builtins.max, builtins.min


def _erf_eval(x):
    return math.erf(x)


erf = ufunc("erf", _opaque("erf", math.erf), _ftype)

floor = ufunc("floor", lambda a: Num("f", E.sf_floor(mk(a).re)), _ftype)
ceil = ufunc("ceil", lambda a: Num("f", E.sf_neg(E.sf_floor(E.sf_neg(mk(a).re)))), _ftype)
trunc = fix = ufunc("trunc", lambda a: Num("f", E.num_trunc(mk(a)).re), _ftype)
rint = ufunc("rint", lambda a: Num("f", E.num_round(mk(a)).re), _ftype)


def around(a, decimals=0, out=None):
    n = int(decimals)
    return ufunc("around", lambda x: E.num_round(mk(x), n))(a)


round = round_ = around


def _sign(a):
    x = mk(a).re
    return Num(mk(a).k, SF(K.psub(K.ind(E.sf_pos(x)), K.ind(E.sf_neg_b(x))), x.nan))


sign = ufunc("sign", _sign)
conj = conjugate = ufunc("conjugate", _n1(E.num_conj))
deg2rad = radians = ufunc("radians", lambda a: Num("f", E.sf_mul(mk(a).re, SF(K.pscale(K.P_PI, Fr(1, 180))))), _ftype)
rad2deg = degrees = ufunc("degrees", lambda a: Num("f", E.sf_mul(mk(a).re, SF(K.pscale(K.pinv(K.P_PI), Fr(180))))), _ftype)
hypot = ufunc("hypot", lambda a, b: Num("f", E.sf_sqrt(E.sf_add(E.sf_mul(mk(a).re, mk(a).re), E.sf_mul(mk(b).re, mk(b).re)))), _ftype, nin=2)


def _angle1(a):
    a = mk(a)
    if a.k != "c":
        a = num_cast(a, C16)
    return Num("f", atan2_sf(a.im, a.re))


def angle(z, deg=False):
    r = ufunc("angle", _angle1, lambda d: _ftype(_real_dt(d)))(z)
    return degrees(r) if deg else r


# comparisons
def _cmpf(name, f):
    def g(a, b):
        if isinstance(a, Num) or isinstance(b, Num) or is_scalar(a) and is_scalar(b):
            return mkbool(f(mk(a), mk(b)))
        if name == "equal":
            return a == b
        if name == "not_equal":
            return a != b
        raise TypeError("comparison of %r and %r" % (type(a), type(b)))
    return ufunc(name, g, BOOL, nin=2)


less = _cmpf("less", E.num_lt_b)
less_equal = _cmpf("less_equal", E.num_le_b)
greater = _cmpf("greater", lambda a, b: E.num_lt_b(b, a))
greater_equal = _cmpf("greater_equal", lambda a, b: E.num_le_b(b, a))
equal = _cmpf("equal", E.num_eq_b)
not_equal = _cmpf("not_equal", lambda a, b: bnot(E.num_eq_b(a, b)))


def _tb(x):
    return as_b(x)


logical_and = ufunc("logical_and", lambda a, b: mkbool(band(_tb(a), _tb(b))), BOOL, nin=2)
logical_or = ufunc("logical_or", lambda a, b: mkbool(bor(_tb(a), _tb(b))), BOOL, nin=2)
logical_xor = ufunc("logical_xor", lambda a, b: mkbool(bnot(K.biff(_tb(a), _tb(b)))), BOOL, nin=2)
logical_not = ufunc("logical_not", lambda a: mkbool(bnot(_tb(a))), BOOL)


def _bitop(f):
    def g(a, b):
        if isinstance(a, (bool, SBool, rnp.bool_)) and isinstance(b, (bool, SBool, rnp.bool_)):
            return mkbool(f(as_b(a), as_b(b)))
        a, b = concrete_scalar(a), concrete_scalar(b)
        if a is None or b is None:
            raise Unsupported("bit operation on symbolic integers")
        raise Unsupported("bit operation on integers")
    return g


bitwise_and = ufunc("bitwise_and", _bitop(band), nin=2)
bitwise_or = ufunc("bitwise_or", _bitop(bor), nin=2)
bitwise_xor = ufunc("bitwise_xor", _bitop(lambda a, b: bnot(K.biff(a, b))), nin=2)


def _inv1(a):
    if isinstance(a, (bool, SBool, rnp.bool_)):
        return mkbool(bnot(as_b(a)))
    a = mk(a)
    if a.k != "i":
        raise TypeError("ufunc 'invert' not supported for the input types")
    return E.num_sub(mk(-1), a)


invert = bitwise_not = ufunc("invert", _inv1)
isnan = ufunc("isnan", lambda a: mkbool(E.isnan_b(a)), BOOL)
isinf = ufunc("isinf", lambda a: mkbool(E.isinf_b(a)), BOOL)
isfinite = ufunc("isfinite", lambda a: mkbool(bnot(bor(E.isnan_b(a), E.isinf_b(a)))), BOOL)
isposinf = ufunc("isposinf", lambda a: mkbool(mk(a).re.pi), BOOL)
isneginf = ufunc("isneginf", lambda a: mkbool(mk(a).re.ni), BOOL)
signbit = ufunc("signbit", lambda a: mkbool(E.sf_neg_b(mk(a).re)), BOOL)


def _maxi(a, b, lt, nanprop):
    a, b = mk(a), mk(b)
    c = lt(a, b)
    r = num_ite(c, b, a)
    na, nb = E.isnan_b(a), E.isnan_b(b)
    if nanprop:
        if na.op != "F" or nb.op != "F":
            n = bor(na, nb)
            r = num_ite(n, mk(math.nan), r)
    else:
        if na.op != "F":
            r = num_ite(na, b, r)
        if nb.op != "F":
            r = num_ite(band(nb, bnot(na)), a, r)
    return r


def _ltb(a, b):
    return E.sf_lt(a.re, b.re)


def _gtb(a, b):
    return E.sf_lt(b.re, a.re)


maximum = ufunc("maximum", lambda a, b: _maxi(a, b, _ltb, True), nin=2)
minimum = ufunc("minimum", lambda a, b: _maxi(a, b, _gtb, True), nin=2)
fmax = ufunc("fmax", lambda a, b: _maxi(a, b, _ltb, False), nin=2)
fmin = ufunc("fmin", lambda a, b: _maxi(a, b, _gtb, False), nin=2)


def fmod(a, b):
    a, b = asarr(a), asarr(b)
    return subtract(a, multiply(b, trunc(divide(a, b))))


def heaviside(x, h):
    return ufunc("heaviside", lambda a, b: num_ite(K.b_eq0(mk(a).re.v), mk(b), num_ite(K.b_lt0(mk(a).re.v), mk(0.0), mk(1.0))), _ftype, nin=2)(x, h)


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(a):
        if isinstance(a, (bool, SBool)):
            return a
        a = mk(a)

        def g(s):
            s2 = E.sf_ite(s.nan, E.sf_const(nan), SF(s.v, FALSE, s.pi, s.ni)) if s.nan.op != "F" else s
            if s2.pi.op != "F":
                s2 = E.sf_ite(s2.pi, E.sf_const(1.7976931348623157e308 if posinf is None else posinf), SF(s2.v, s2.nan, FALSE, s2.ni))
            if s2.ni.op != "F":
                s2 = E.sf_ite(s2.ni, E.sf_const(-1.7976931348623157e308 if neginf is None else neginf), SF(s2.v, s2.nan, FALSE, FALSE))
            return s2
        if a.k == "c":
            return Num("c", g(a.re), g(a.im))
        return Num(a.k, g(a.re))
    r = ufunc("nan_to_num", f)(x)
    if not copy and isinstance(x, SymArray):
        x.a[...] = r.a
        return x
    return r


def real(x):
    x = _prep(x)
    if isinstance(x, SymArray):
        return x.real
    return mk(x).real


def imag(x):
    x = _prep(x)
    if isinstance(x, SymArray):
        return x.imag
    return mk(x).imag


def iscomplexobj(x):
    if isinstance(x, (SymArray, Num)):
        return x.dtype.kind == "c"
    return rnp.iscomplexobj(x)


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplex(x):
    return ufunc("iscomplex", lambda a: mkbool(bnot(K.b_eq0(mk(a).im.v))) if mk(a).k == "c" else False, BOOL)(x)


def isreal(x):
    return logical_not(iscomplex(x))


def isscalar(x):
    return is_scalar(x) or isinstance(x, str)


# ---- reductions ---------------------------------------------------------------
def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    axis = int(axis)
    if not -nd <= axis < nd:
        raise rnp.AxisError(axis, nd) if hasattr(rnp, "AxisError") else ValueError("axis out of bounds")
    return (axis % nd,)


def _reduce_lists(x, axis):
    """yield (index, list of elements) over the non-reduced axes"""
    nd = x.a.ndim
    ax = _axes(axis, nd) if nd else ()
    keep = [i for i in range(nd) if i not in ax]
    m = rnp.transpose(x.a, keep + list(ax)) if nd else x.a
    sh = tuple(x.a.shape[i] for i in keep)
    n = 1
    for i in ax:
        n *= x.a.shape[i]
    m = m.reshape(sh + (n,))
    return m, sh, ax


def _red(x, axis, f, dt, keepdims=False):
    m, sh, ax = _reduce_lists(x, axis)
    o = _objarr(sh)
    for ix in rnp.ndindex(*sh):
        v = f(list(m[ix]))
        o[ix] = v if dt.kind == "O" else _elem(v, dt)
    if keepdims:
        o = o.reshape(tuple(1 if i in ax else s for i, s in enumerate(x.a.shape)))
        return SymArray(o, dt)
    return _unsc(o, dt)


def _reduce_generic(x, axis, f, keepdims, dtf=None):
    def g(l):
        r = l[0]
        for y in l[1:]:
            r = f(r, y)
        return r
    dt = x.dtype
    if dtf is not None:
        dt = dtf(dt) if callable(dtf) else dtf
    return _red(x, axis, g, dt, keepdims)


def _wh(l, w):
    return l


def _sumlist(l):
    r = mk(0)
    for y in l:
        r = E.num_add(r, mk(y))
    return r


def _where_pre(x, where, fillv):
    if where is True or where is None:
        return x
    return asarr(globals()["where"](where, x, fillv))


def _outret(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


def sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    x = _where_pre(asarr(a), where, 0)
    dt = parse_dtype(dtype) or (I8 if x.dtype.kind in "biu" else x.dtype)
    r = _red(x, axis, _sumlist, dt, keepdims)
    if initial is not None:
        r = add(r, initial)
    return _outret(r, out)


def nansum(a, axis=None, dtype=None, out=None, keepdims=False):
    return sum(_nanfill(a, 0.0), axis, dtype, out, keepdims)


def _nanfill(a, v):
    x = asarr(a)
    if x.dtype.kind not in "fc":
        return x
    return asarr(where(isnan(x), v, x))


def prod(a, axis=None, dtype=None, keepdims=False, out=None, **k):
    x = asarr(a)

    def f(l):
        r = mk(1)
        for y in l:
            r = E.num_mul(r, mk(y))
        return r
    return _red(x, axis, f, parse_dtype(dtype) or _numdt(x.dtype), keepdims)


product = prod


def nanprod(a, **k):
    return prod(_nanfill(a, 1.0), **k)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    x = asarr(a)
    if where is not True:
        s = sum(x, axis, keepdims=keepdims, where=where)
        n = sum(asarr(globals()["where"](where, 1, 0)), axis, keepdims=keepdims)
        return true_divide(s, n)
    n = 1
    for i in _axes(axis, x.a.ndim):
        n *= x.a.shape[i]
    s = sum(cast_arr(x, _ftype(x.dtype)), axis, keepdims=keepdims)
    return _outret(true_divide(s, n), out)


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        r = mean(a, axis, keepdims=keepdims)
        return (r, None) if returned else r
    w = asarr(weights)
    x = asarr(a)
    if w.a.shape != x.a.shape:
        sh = [1] * x.a.ndim
        sh[axis] = w.a.size
        w = SymArray(rnp.broadcast_to(w.a.reshape(sh), x.a.shape), w.dtype)
    sw = sum(w, axis, keepdims=keepdims)
    r = true_divide(sum(multiply(x, w), axis, keepdims=keepdims), sw)
    return (r, sw) if returned else r


def nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = asarr(a)
    s = nansum(x, axis, keepdims=keepdims)
    n = sum(logical_not(isnan(x)), axis, keepdims=keepdims)
    return true_divide(s, n)


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = asarr(a)
    m = mean(x, axis, keepdims=True)
    d = absolute(subtract(x, m)) if x.dtype.kind == "c" else subtract(x, m)
    n = 1
    for i in _axes(axis, x.a.ndim):
        n *= x.a.shape[i]
    return true_divide(sum(square(d), axis, keepdims=keepdims), n - ddof)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return sqrt(var(a, axis, ddof=ddof, keepdims=keepdims))


def nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = asarr(a)
    m = nanmean(x, axis, keepdims=True)
    n = sum(logical_not(isnan(x)), axis, keepdims=keepdims)
    d = square(subtract(x, m))
    return true_divide(nansum(d, axis, keepdims=keepdims), subtract(n, ddof))


def nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return sqrt(nanvar(a, axis, ddof=ddof, keepdims=keepdims))


def _decide_nan(l):
    """drop NaN elements, forking on undecided ones"""
    out = []
    for i, y in enumerate(l):
        b = E.isnan_b(y)
        if b.op == "F" or not (b.op == "T" or bool(mkbool(b))):
            y = mk(y)
            if b.op != "F":
                y = Num(y.k, SF(y.re.v, FALSE, y.re.pi, y.re.ni), y.im if y.k != "c" else SF(y.im.v, FALSE, y.im.pi, y.im.ni))
            out.append((i, y))
    return out


def _anynan(l):
    for i, y in enumerate(l):
        b = E.isnan_b(y)
        if b.op != "F" and bool(mkbool(b)):
            return i
    return None


def _strip(y):
    y = mk(y)
    if y.k == "c":
        return Num("c", SF(y.re.v, FALSE, y.re.pi, y.re.ni), SF(y.im.v, FALSE, y.im.pi, y.im.ni))
    return Num(y.k, SF(y.re.v, FALSE, y.re.pi, y.re.ni))


def _extval(items, gt):
    """extreme value of the items (lazy when several candidates remain)"""
    d = _dominant(items, gt)
    if d is not None:
        return d[1]
    if builtins.any(y.k == "c" for _, y in items):
        return _argext(items, gt)[1]
    k = "f" if builtins.any(y.k == "f" for _, y in items) else "i"
    return E.LazyExt(k, [y for _, y in items], gt is _cgt, lambda: _argext(items, gt)[1])


def _argext(items, gt):
    """items: list of (index, Num without NaN); first extreme wins; forks"""
    d = _dominant(items, gt)
    if d is not None:
        return d
    bi, bv = items[0]
    for i, y in items[1:]:
        if bool(mkbool(gt(y, bv))):
            bi, bv = i, y
    return bi, bv


def _dominant(items, gt):
    if len(items) == 1:
        return items[0]
    if 1 < len(items) <= 16:
        for k, (i, y) in enumerate(items):
            for q, (j, z) in enumerate(items):
                if q == k:
                    continue
                g = E.CTX.simp(gt(y, z)) if q < k else bnot(E.CTX.simp(gt(z, y)))
                if g.op != "T":
                    break
            else:
                return i, y
    return None


def _ext(l, gt, what, nanmode):
    if not l:
        raise ValueError("zero-size array to reduction operation which has no identity")
    if builtins.all(isinstance(y, (bool, SBool)) for y in l):
        l = [mk(y) for y in l]
    if nanmode == "prop":
        i = _anynan(l)
        if i is not None:
            return mk(i) if what == "arg" else mk(math.nan)
        items = [(i, _strip(y)) for i, y in enumerate(l)]
    else:
        items = _decide_nan(l)
        if not items:
            if what == "arg":
                raise ValueError("All-NaN slice encountered")
            return mk(math.nan)
    return mk(_argext(items, gt)[0]) if what == "arg" else _extval(items, gt)


def _cgt(a, b):
    return _clt(b, a)


def _clt(a, b):
    if a.k == "c" or b.k == "c":
        # numpy orders complex numbers lexicographically
        l = E.sf_lt(a.re, b.re)
        if l.op == "T":
            return l
        return bor(l, band(bnot(E.sf_lt(b.re, a.re)), E.sf_lt(E._im(a), E._im(b))))
    return E.sf_lt(a.re, b.re)


def _mkext(gt, what, nanmode):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
        x = asarr(a)
        dt = I8 if what == "arg" else x.dtype
        r = _red(x, axis, lambda l: _ext(l, gt, what, nanmode), dt, keepdims)
        return _outret(r, out)
    return f


amax = max = _mkext(_cgt, "val", "prop")
amin = min = _mkext(_clt, "val", "prop")
nanmax = _mkext(_cgt, "val", "skip")
nanmin = _mkext(_clt, "val", "skip")
argmax = _mkext(_cgt, "arg", "prop")
argmin = _mkext(_clt, "arg", "prop")
nanargmax = _mkext(_cgt, "arg", "skip")
nanargmin = _mkext(_clt, "arg", "skip")


def ptp(a, axis=None, **k):
    return subtract(max(a, axis), min(a, axis))


def all(a, axis=None, out=None, keepdims=False, where=True):
    return _red(asarr(a), axis, lambda l: mkbool(band(*[as_b(y) for y in l])), BOOL, keepdims)


def any_(a, axis=None, out=None, keepdims=False, where=True):
    return _red(asarr(a), axis, lambda l: mkbool(bor(*[as_b(y) for y in l])), BOOL, keepdims)


def count_nonzero(a, axis=None, keepdims=False):
    x = asarr(a)
    return _red(x, axis, lambda l: _sumlist([SBool(as_b(y)).num() for y in l]), I8, keepdims)


def _sorted_idx(l):
    """stable insertion sort, NaN last; forks on comparisons"""
    good, bad = [], []
    for i, y in enumerate(l):
        b = E.isnan_b(y)
        if b.op == "T" or b.op != "F" and bool(mkbool(b)):
            bad.append((i, mk(y)))
        else:
            good.append((i, _strip(y)))
    out = []
    for it in good:
        j = len(out)
        while j > 0 and bool(mkbool(_clt(it[1], out[j - 1][1]))):
            j -= 1
        out.insert(j, it)
    return out, bad


def _map_axis(x, axis, f, dt):
    if axis is None:
        x = x.ravel()
        axis = 0
    m = rnp.moveaxis(x.a, axis, -1)
    o = _objarr(m.shape)
    for ix in rnp.ndindex(*m.shape[:-1]):
        o[ix] = f(list(m[ix]))
    return SymArray(rnp.moveaxis(o, -1, axis), dt)


def _aslist(vals):
    o = _objarr((len(vals),))
    for i, v in enumerate(vals):
        o[i] = v
    return o


def sort(a, axis=-1, kind=None, **k):
    x = asarr(a)

    def f(l):
        g, b = _sorted_idx(l)
        return _aslist([v for _, v in g + b])
    return _map_axis(x.copy(), axis, f, x.dtype)


def argsort(a, axis=-1, kind=None, **k):
    x = asarr(a)

    def f(l):
        g, b = _sorted_idx(l)
        return _aslist([mk(i) for i, _ in g + b])
    return _map_axis(x, axis, f, I8)


def lexsort(keys, axis=-1):
    raise Unsupported("lexsort")


def _median_list(l, skip):
    if len(l) > 2 and not builtins.all(not E._unforced(mk(v)) and mk(v).isconst() is not None for v in l):
        return E.LazyNum("f", lambda: _median_now(l, skip))
    return _median_now(l, skip)


def _median_now(l, skip):
    g, b = _sorted_idx(l)
    if b and not skip or not g:
        return mk(math.nan)
    n = len(g)
    if n % 2:
        return Num("f", g[n // 2][1].re)
    return E.num_mul(mk(0.5), E.num_add(g[n // 2 - 1][1], g[n // 2][1]))


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    x = asarr(a)
    return _red(x, axis, lambda l: _median_list(l, False), _ftype(x.dtype), keepdims)


def nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    x = asarr(a)
    return _red(x, axis, lambda l: _median_list(l, True), _ftype(x.dtype), keepdims)


def _pct(l, q, skip):
    g, b = _sorted_idx(l)
    if b and not skip or not g:
        return mk(math.nan)
    q = concrete_scalar(q)
    pos = Fr(K._q(q)) / 100 * (len(g) - 1)
    i = math.floor(pos)
    t = pos - i
    if t == 0:
        return Num("f", g[i][1].re)
    return E.num_add(E.num_mul(mk(1 - t), g[i][1]), E.num_mul(mk(t), g[i + 1][1]))


def _mkpct(skip, scale):
    def f(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
        x = asarr(a)
        if isinstance(q, (list, tuple, SymArray, rnp.ndarray)):
            return stack([asarr(f(a, y, axis)) for y in q])
        qq = mk(q) * scale
        return _red(x, axis, lambda l: _pct(l, qq, skip), _ftype(x.dtype), keepdims)
    return f


percentile, nanpercentile = _mkpct(False, 1), _mkpct(True, 1)
quantile, nanquantile = _mkpct(False, 100), _mkpct(True, 100)


def cumsum(a, axis=None, dtype=None, out=None):
    x = asarr(a)

    def f(l):
        r, o = mk(0), []
        for y in l:
            r = E.num_add(r, mk(y))
            o.append(r)
        return _aslist(o)
    return _map_axis(x, axis, f, I8 if x.dtype.kind == "b" else x.dtype)


def nancumsum(a, axis=None, **k):
    return cumsum(_nanfill(a, 0.0), axis)


def cumprod(a, axis=None, dtype=None, out=None):
    x = asarr(a)

    def f(l):
        r, o = mk(1), []
        for y in l:
            r = E.num_mul(r, mk(y))
            o.append(r)
        return _aslist(o)
    return _map_axis(x, axis, f, x.dtype)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    x = asarr(a)
    if prepend is not None:
        x = concatenate([atleast_1d(prepend), x], axis)
    if append is not None:
        x = concatenate([x, atleast_1d(append)], axis)
    for _ in range(n):
        m = rnp.moveaxis(x.a, axis, 0)
        r = asarr(subtract(SymArray(m[1:], x.dtype), SymArray(m[:-1], x.dtype)))
        x = SymArray(rnp.moveaxis(r.a, 0, axis), r.dtype)
    return x


def ediff1d(a):
    return diff(ravel(a))


def gradient(f, *varargs, axis=None, edge_order=1):
    x = asarr(f)
    x = cast_arr(x, _ftype(x.dtype))
    axes = range(x.a.ndim) if axis is None else _axes(axis, x.a.ndim)
    axes = list(axes)
    if len(varargs) == 0:
        dx = [1.0] * len(axes)
    elif len(varargs) == 1:
        dx = [varargs[0]] * len(axes)
    else:
        dx = list(varargs)
    outs = []
    for ax, h in zip(axes, dx):
        m = rnp.moveaxis(x.a, ax, 0)
        n = len(m)
        W = lambda i: SymArray(m[i], x.dtype) if isinstance(m[i], rnp.ndarray) else m[i]
        res = []
        coords = None
        if isinstance(h, (SymArray, list, rnp.ndarray)) and asarr(h).a.ndim:
            hh = asarr(h)
            coords = diff(hh)
        for i in range(n):
            if i == 0:
                r = (W(1) - W(0)) / (h if coords is None else coords[0])
            elif i == n - 1:
                r = (W(n - 1) - W(n - 2)) / (h if coords is None else coords[n - 2])
            elif coords is None:
                r = (W(i + 1) - W(i - 1)) / (mk(2.0) * h if not isinstance(h, SymArray) else h * 2.0)
            else:
                h1, h2 = coords[i - 1], coords[i]
                r = (-(h2) / (h1 * (h1 + h2))) * W(i - 1) + ((h2 - h1) / (h1 * h2)) * W(i) + (h1 / (h2 * (h1 + h2))) * W(i + 1)
            res.append(asarr(r).a)
        o = rnp.stack(res) if res[0].ndim else _aslist([r[()] for r in res])
        outs.append(SymArray(rnp.moveaxis(o, 0, ax), x.dtype))
    return outs[0] if len(outs) == 1 else outs


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = dx if x is None else diff(x)
    m = rnp.moveaxis(y.a, axis, -1)
    avg = (SymArray(m[..., 1:], y.dtype) + SymArray(m[..., :-1], y.dtype)) / 2.0
    return sum(multiply(d, avg), -1)


trapezoid = trapz


# ---- creation -----------------------------------------------------------------
def _shape(s):
    s = _ints(s)
    if isinstance(s, SymArray):
        return tuple(_ints(x) for x in s)
    if isinstance(s, rnp.ndarray):
        return tuple(int(x) for x in s)
    if isinstance(s, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return s


def full(shape, fill_value, dtype=None, order="C"):
    dt = parse_dtype(dtype) or (sc_dtype(fill_value) if is_scalar(fill_value) else asarr(fill_value).dtype)
    if dt.kind in "SU":
        return rnp.full(_shape(shape), fill_value, dt)
    o = _objarr(_shape(shape))
    r = SymArray(o, dt)
    if is_scalar(fill_value):
        e = _elem(fill_value, dt)
        for ix in rnp.ndindex(*o.shape):
            o[ix] = e
    else:
        r[...] = fill_value
    return r


def zeros(shape, dtype=None, order="C"):
    dt = parse_dtype(dtype) or F8
    if dt.kind in "SUV":
        return rnp.zeros(_shape(shape), dt)
    return full(shape, False if dt.kind == "b" else 0, dt)


def ones(shape, dtype=None, order="C"):
    dt = parse_dtype(dtype) or F8
    return full(shape, True if dt.kind == "b" else 1, dt)


_UNINIT = [0]


def empty(shape, dtype=None, order="C"):
    """uninitialised memory: arbitrary values (fresh unconstrained symbols)"""
    dt = parse_dtype(dtype) or F8
    if dt.kind in "SUV":
        return rnp.empty(_shape(shape), dt)
    o = _objarr(_shape(shape))
    for ix in rnp.ndindex(*o.shape):
        if dt.kind == "O":
            o[ix] = None
            continue
        if dt.kind == "b":
            o[ix] = False
            continue
        _UNINIT[0] += 1

        def fresh():
            _UNINIT[0] += 1
            n = "uninit%d" % _UNINIT[0]
            return SF(K.patom(K.atom(("var", n), "var", n)))
        o[ix] = Num("c", fresh(), fresh()) if dt.kind == "c" else Num("i" if dt.kind in "iu" else "f", fresh())
    return SymArray(o, dt)


def _like(f):
    def g(a, *args, dtype=None, **k):
        x = asarr(a)
        k.pop("order", None)
        k.pop("subok", None)
        sh = k.pop("shape", None)
        return f(x.a.shape if sh is None else sh, *args, dtype=parse_dtype(dtype) or x.dtype, **k)
    return g


zeros_like, ones_like, full_like, empty_like = _like(zeros), _like(ones), _like(full), _like(empty)


def _has_str(x):
    if isinstance(x, str):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_str(y) for y in x)
    if isinstance(x, rnp.ndarray):
        return x.dtype.kind in "SUVM"
    return False


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    dt = parse_dtype(dtype)
    if _has_str(x):
        if dt is not None and dt.kind in "fciu":
            return asarr(rnp.array(x).astype(dt))
        return rnp.array(x, dtype=dt)
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
    else:
        r = asarr(x)
        if isinstance(x, rnp.ndarray) or True:
            r = SymArray(r.a, r.dtype)
    if dt is not None and r.dtype != dt:
        r = cast_arr(r, dt)
    while r.a.ndim < ndmin:
        r = SymArray(r.a[None], r.dtype)
    return r


def asarray(x, dtype=None, **k):
    return array(x, dtype, copy=False)


asanyarray = asarray
ascontiguousarray = asfortranarray = asarray
require = asarray


def asarray_chkfinite(x, dtype=None):
    return asarray(x, dtype)


def copy(x, **k):
    return array(x)


def arange(*args, dtype=None, **k):
    a = list(args)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) >= 2:
        start, stop = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    start, stop, step = k.get("start", start), k.get("stop", stop), k.get("step", step)
    s, e, d = mk(_s0(start)), mk(_s0(stop)), mk(_s0(step))
    kind = "i" if s.k == e.k == d.k == "i" else "f"
    q = E.sf_div(E.sf_sub(e.re, s.re), d.re)
    n = Num("i", E.sf_neg(E.sf_floor(E.sf_neg(q))))
    n = builtins.max(0, n.__index__())
    vals = [Num(kind, E.sf_add(s.re, E.sf_mul(d.re, SF(K.pconst(i))))) for i in range(n)]
    r = SymArray(_aslist(vals), I8 if kind == "i" else F8)
    dt = parse_dtype(dtype)
    return cast_arr(r, dt) if dt is not None else r


def _s0(x):
    if isinstance(x, SymArray):
        return x._one()
    if isinstance(x, rnp.ndarray):
        return x.item()
    return x


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num) if not isinstance(num, Num) else num.__index__()
    a, b = _prep(start), _prep(stop)
    a, b = (_s0(a) if not isinstance(a, SymArray) or a.a.ndim == 0 else a), (_s0(b) if not isinstance(b, SymArray) or b.a.ndim == 0 else b)
    div = num - 1 if endpoint else num
    step = true_divide(subtract(b, a), div) if div > 0 else mk(math.nan)
    vals = []
    for i in range(num):
        if i == 0:
            v = multiply(a, 1.0)
        elif endpoint and i == num - 1:
            v = multiply(b, 1.0)
        else:
            v = add(a, multiply(step, i))
        vals.append(asarr(v).a)
    if vals and vals[0].ndim:
        r = SymArray(rnp.stack(vals, axis), F8)
    else:
        r = SymArray(_aslist([v[()] for v in vals]), F8)
    dt = parse_dtype(dtype)
    if dt is not None:
        r = cast_arr(floor(r) if dt.kind in "iu" else r, dt)
    elif vals and builtins.any(isinstance(v, Num) and v.k == "c" for v in r.a.reshape(-1)):
        r = cast_arr(r, C16)
    return (r, step) if retstep else r


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    return power(base, linspace(start, stop, num, endpoint))


def geomspace(start, stop, num=50, endpoint=True, dtype=None):
    return exp(linspace(log(start), log(stop), num, endpoint))


def eye(n, m=None, k=0, dtype=None):
    return asarr(rnp.eye(int(n), None if m is None else int(m), k, dtype=parse_dtype(dtype) or float))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def meshgrid(*xs, indexing="xy", **k):
    xs = [asarr(x) for x in xs]
    gs = rnp.meshgrid(*[x.a for x in xs], indexing=indexing)
    return [SymArray(g, x.dtype) for g, x in zip(gs, xs)]


def indices(dims, dtype=int, sparse=False):
    r = rnp.indices(_shape(dims))
    return asarr(r)


class _Grid:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, k):
        def f(s):
            return slice(*[to_real(v) for v in (s.start, s.stop, s.step)]) if isinstance(s, slice) else s
        k = tuple(f(s) for s in k) if isinstance(k, tuple) else f(k)
        return from_real(self.g[k])


mgrid, ogrid = _Grid(rnp.mgrid), _Grid(rnp.ogrid)


class _R_:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        parts = []
        for x in k:
            if isinstance(x, slice):
                st = x.start if x.start is not None else 0
                sp = x.step if x.step is not None else 1
                if isinstance(sp, complex):
                    parts.append(linspace(st, x.stop, int(builtins.abs(sp))))
                else:
                    parts.append(arange(st, x.stop, sp))
            elif isinstance(x, str):
                raise Unsupported("np.r_ directive")
            else:
                parts.append(atleast_1d(x))
        return concatenate(parts)


r_ = _R_()


class _C_:
    def __getitem__(self, k):
        return column_stack(k if isinstance(k, tuple) else (k,))


c_ = _C_()
s_ = rnp.s_
index_exp = rnp.index_exp


# ---- structure ------------------------------------------------------------------
def _struct1(name):
    f = getattr(rnp, name)

    def g(x, *a, **k):
        x = asarr(x)
        r = f(x.a, *[_ints(y) for y in a], **{n: _ints(v) for n, v in k.items()})
        if isinstance(r, (list, tuple)):
            return [SymArray(y, x.dtype) for y in r]
        if isinstance(r, rnp.ndarray):
            return SymArray(r, x.dtype)
        return r
    g.__name__ = name
    return g


for _n in ("reshape", "ravel", "squeeze", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims",
           "rot90", "flip", "fliplr", "flipud", "roll", "tile", "broadcast_to", "diagonal",
           "triu", "tril", "atleast_2d", "atleast_3d", "split", "array_split", "hsplit", "vsplit", "dsplit"):
    globals()[_n] = _struct1(_n)


def repeat(x, n, axis=None):
    x = asarr(x)
    return SymArray(rnp.repeat(x.a, _as_index_array(asarr(n)) if not isinstance(n, int) else n, axis), x.dtype)


def diag(x, k=0):
    x = asarr(x)
    if x.a.ndim == 1:
        n = x.a.size + builtins.abs(k)
        r = zeros((n, n), x.dtype)
        for i in range(x.a.size):
            r.a[i + builtins.max(0, -k), i + builtins.max(0, k)] = x.a[i]
        return r
    return SymArray(rnp.diag(x.a, k), x.dtype)


def trace(x):
    return sum(diag(x))


def atleast_1d(*xs):
    r = [SymArray(rnp.atleast_1d(asarr(x).a), asarr(x).dtype) if asarr(x).a.ndim else SymArray(asarr(x).a.reshape(1), asarr(x).dtype) for x in xs]
    return r[0] if len(r) == 1 else r


def _joiner(name):
    f = getattr(rnp, name)

    def g(xs, *a, **k):
        if builtins.any(_has_str(x) for x in xs):
            return f([to_real(x) for x in xs], *a, **k)
        xs = [asarr(x) for x in xs]
        dt = _promote([x.dtype for x in xs])
        r = f([cast_arr(x, dt).a for x in xs], *[_ints(y) for y in a], **{n: _ints(v) for n, v in k.items() if n in ("axis",)})
        return SymArray(r, dt)
    return g


for _n in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"):
    globals()[_n] = _joiner(_n)
row_stack = globals()["vstack"]


def append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis)


def delete(arr, obj, axis=None):
    x = asarr(arr)
    if isinstance(obj, (SymArray, list)):
        o = _as_index_array(asarr(obj))
    else:
        o = _norm1(obj)
    return SymArray(rnp.delete(x.a, o, axis), x.dtype)


def insert(arr, obj, values, axis=None):
    x = asarr(arr)
    if axis is None:
        x = x.ravel()
        axis = 0
    i = _ints(obj)
    if not isinstance(i, int):
        raise Unsupported("np.insert with many indices")
    if i < 0:
        i += x.a.shape[axis]
    m = rnp.moveaxis(x.a, axis, 0)
    v = asarr(values)
    v = cast_arr(v, x.dtype)
    va = rnp.broadcast_to(v.a, m.shape[1:])[None] if v.a.ndim < m.ndim else rnp.moveaxis(v.a, axis, 0)
    return SymArray(rnp.moveaxis(rnp.concatenate([m[:i], va, m[i:]]), 0, axis), x.dtype)


def pad(arr, width, mode="constant", constant_values=0, **k):
    x = asarr(arr)
    if mode != "constant":
        return SymArray(rnp.pad(x.a, _ints(width), mode=mode, **k), x.dtype)
    if not is_scalar(constant_values):
        raise Unsupported("pad values")
    w = _ints(width)
    if isinstance(w, int):
        w = ((w, w),) * x.a.ndim
    elif isinstance(w[0], int):
        w = (tuple(w),) * x.a.ndim if len(w) == 2 else ((w[0], w[0]),) * x.a.ndim
    sh = tuple(n + a + b for n, (a, b) in zip(x.a.shape, w))
    r = full(sh, constant_values, x.dtype)
    r.a[tuple(slice(a, a + n) for n, (a, b) in zip(x.a.shape, w))] = x.a
    return r


def take(x, idx, axis=None, **k):
    x = asarr(x)
    i = _as_index_array(asarr(idx)) if not isinstance(idx, int) else idx
    r = rnp.take(x.a, i, axis)
    return SymArray(r, x.dtype) if isinstance(r, rnp.ndarray) else r


def take_along_axis(x, idx, axis):
    x = asarr(x)
    return SymArray(rnp.take_along_axis(x.a, _as_index_array(asarr(idx)), axis), x.dtype)


def put_along_axis(x, idx, values, axis):
    v = values if not isinstance(values, SymArray) else values.a
    rnp.put_along_axis(x.a, _as_index_array(asarr(idx)), v if isinstance(v, rnp.ndarray) else _aslist([_elem(v, x.dtype)]), axis)


def choose(i, choices):
    raise Unsupported("choose")


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def ix_(*a):
    return rnp.ix_(*[_as_index_array(asarr(x)) for x in a])


def shape(x):
    return asarr(x).a.shape if not isinstance(x, rnp.ndarray) else x.shape


def ndim(x):
    return len(shape(x))


def size(x, axis=None):
    s = shape(x)
    if axis is not None:
        return s[axis]
    n = 1
    for v in s:
        n *= v
    return n


def unravel_index(i, sh, order="C"):
    if is_scalar(i):
        r = rnp.unravel_index(_ints(i), _ints(sh), order)
        return tuple(mk(int(x)) for x in r)
    return tuple(asarr(x) for x in rnp.unravel_index(_as_index_array(asarr(i)), _ints(sh), order))


def ravel_multi_index(m, dims, **k):
    return from_real(rnp.ravel_multi_index(tuple(to_real(x) for x in m), _ints(dims), **k))


def broadcast_arrays(*xs, **k):
    xs = [asarr(x) for x in xs]
    return [SymArray(r, x.dtype) for r, x in zip(rnp.broadcast_arrays(*[x.a for x in xs]), xs)]


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = _prep(ab[0]), _prep(ab[1])
    if isinstance(a, str) or isinstance(b, str):
        cc = to_real(c)
        return rnp.where(cc, to_real(a), to_real(b))
    cc = asarr(c)
    dt = _res_dtype([x for x in (a, b)])
    if is_scalar(a) and is_scalar(b):
        dt = _promote([sc_dtype(a), sc_dtype(b)])
    xs = []
    for x in (a, b):
        if isinstance(x, SymArray):
            xs.append(x.a)
        else:
            t = _objarr(())
            t[()] = x
            xs.append(t)
    bs = rnp.broadcast_arrays(cc.a, *xs)
    o = _objarr(bs[0].shape)
    for ix in rnp.ndindex(*o.shape):
        p, q = bs[1][ix], bs[2][ix]
        bb = as_b(bs[0][ix])
        if bb.op == "T":
            r = p
        elif bb.op == "F":
            r = q
        else:
            r = num_ite(bb, p, q)
        o[ix] = r if dt.kind == "O" else _elem(r, dt)
    return _unsc(o, dt) if o.ndim == 0 and is_scalar(c) else SymArray(o, dt)


def nonzero(a):
    x = asarr(a)
    m = rnp.empty(x.a.shape, dtype=bool)
    for ix in rnp.ndindex(*x.a.shape):
        m[ix] = bool(x.a[ix])
    return tuple(asarr(i) for i in rnp.nonzero(m))


def flatnonzero(a):
    return nonzero(ravel(a))[0]


def argwhere(a):
    nz = nonzero(a)
    return transpose(stack(nz)) if nz else None


def extract(c, a):
    return asarr(a).ravel()[asarr(c).ravel()]


def compress(c, a, axis=None):
    x = asarr(a)
    return SymArray(rnp.compress(_as_index_array(asarr(c)), x.a, axis), x.dtype)


def place(arr, mask, vals):
    raise Unsupported("place")


def copyto(dst, src, casting="same_kind", where=True):
    r = broadcast_to(asarr(src), dst.a.shape)
    if where is True:
        dst[...] = r
    else:
        dst[...] = globals()["where"](where, r, dst)


def putmask(a, mask, values):
    a[...] = where(mask, values, a)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    x = asarr(a).ravel()
    c = concrete_array(x)
    if c is None:
        if x.dtype.kind in "bi":
            c = rnp.array([bool(v) if isinstance(v, SBool) else mk(v).__index__() for v in x.a.reshape(-1)], dtype=x.dtype)
        elif not (return_index or return_inverse or return_counts):
            g, b = _sorted_idx(list(x.a.reshape(-1)))
            out = []
            for _, v in g:
                if not out or not bool(mkbool(E.num_eq_b(mk(out[-1]), mk(v)))):
                    out.append(v)
            return cast_arr(_aslist(out + [v for _, v in b[:1]]), x.dtype)
        else:
            raise Unsupported("unique of symbolic values")
    return from_real(rnp.unique(c, return_index, return_inverse, return_counts))


def searchsorted(a, v, side="left", sorter=None):
    x = asarr(a)

    def f(t):
        n = 0
        for y in x.a.reshape(-1):
            lt = E.sf_lt(mk(y).re, mk(t).re) if side == "left" else E.sf_le(mk(y).re, mk(t).re)
            if bool(mkbool(lt)):
                n += 1
            else:
                break
        return mk(n)
    if is_scalar(v):
        return f(v)
    v = asarr(v)
    return ufunc("searchsorted", f, I8)(v)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise-linear interpolation for increasing xp (as numpy assumes)"""
    if period is not None:
        raise Unsupported("periodic interp")
    xp, fp = asarr(xp), asarr(fp)
    xs, fs = [mk(v) for v in xp.a.reshape(-1)], [mk(v) for v in fp.a.reshape(-1)]
    n = len(xs)
    if n == 0:
        raise ValueError("array of sample points is empty")
    if len(fs) != n:
        raise ValueError("fp and xp are not of the same length.")

    def f(t):
        t = mk(t)
        if bool(mkbool(E.isnan_b(t))):
            return mk(math.nan)
        if bool(mkbool(E.sf_lt(xs[-1].re, t.re))):
            return mk(right) if right is not None else fs[-1]
        if bool(mkbool(E.sf_lt(t.re, xs[0].re))):
            return mk(left) if left is not None else fs[0]
        j = 0
        while j < n - 1 and bool(mkbool(E.sf_le(xs[j + 1].re, t.re))):
            j += 1
        if j == n - 1:
            return fs[-1]
        if bool(mkbool(K.b_eq0(K.psub(t.re.v, xs[j].re.v)))):
            return fs[j]
        sl = (fs[j + 1] - fs[j]) / (xs[j + 1] - xs[j])
        return sl * (t - xs[j]) + fs[j]
    if is_scalar(x):
        return f(x)
    return ufunc("interp", f, F8 if fp.dtype.kind != "c" else C16)(asarr(x))


class poly1d:
    def __init__(self, c, r=False, **k):
        self.coeffs = self.c = asarr(c)
        self.order = self.o = self.c.a.size - 1

    def __call__(self, x):
        return polyval(self.c, x)


def polyval(p, x):
    p = list(p) if not isinstance(p, SymArray) else list(p)
    r = zeros_like(x) if not is_scalar(x) else mk(0.0)
    for c in p:
        r = r * x + c
    return r


# ---- linear algebra -------------------------------------------------------------
def dot(a, b, out=None):
    if is_scalar(a) or is_scalar(b):
        return multiply(a, b)
    a, b = asarr(a), asarr(b)
    if a.a.ndim == 0 or b.a.ndim == 0:
        return multiply(a, b)
    r = rnp.dot(a.a, b.a)
    dt = _promote([a.dtype, b.dtype])
    if isinstance(r, rnp.ndarray):
        return cast_arr(SymArray(r, OBJ), dt)
    return _elem(r, dt)


def matmul(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.a.ndim <= 2 and b.a.ndim <= 2:
        return dot(a, b)
    x, y = a.a, b.a
    if x.ndim == 1:
        return squeeze(matmul(SymArray(x[None], a.dtype), b), -2)
    if y.ndim == 1:
        return squeeze(matmul(a, SymArray(y[:, None], b.dtype)), -1)
    r = sum(multiply(SymArray(x[..., :, :, None], a.dtype), SymArray(y[..., None, :, :], b.dtype)), -2)
    return r


def vdot(a, b):
    return dot(conj(ravel(a)), ravel(b))


def inner(a, b):
    a, b = asarr(a), asarr(b)
    return dot(a, transpose(b) if b.a.ndim > 1 else b)


def outer(a, b, out=None):
    a, b = ravel(a), ravel(b)
    return multiply(SymArray(a.a[:, None], a.dtype), SymArray(b.a[None, :], b.dtype))


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    return cast_arr(asarr(rnp.tensordot(a.a, b.a, axes)), _promote([a.dtype, b.dtype]))


def einsum(spec, *ops, **k):
    xs = [asarr(x) for x in ops]
    dt = _promote([x.dtype for x in xs])
    ins, _, outp = spec.replace(" ", "").partition("->")
    terms = ins.split(",")
    if "." in spec:
        raise Unsupported("einsum with ellipsis")
    if "->" not in spec:
        al = "".join(terms)
        outp = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for t, x in zip(terms, xs):
        for c, n in zip(t, x.a.shape):
            dims[c] = n
    red = [c for c in dims if c not in outp]
    o = _objarr(tuple(dims[c] for c in outp))
    for ix in rnp.ndindex(*o.shape):
        env = dict(zip(outp, ix))
        acc = mk(0)
        for jx in rnp.ndindex(*[dims[c] for c in red]):
            env.update(zip(red, jx))
            v = mk(1)
            for t, x in zip(terms, xs):
                v = E.num_mul(v, mk(x.a[tuple(env[c] for c in t)]))
            acc = E.num_add(acc, v)
        o[ix] = _elem(acc, dt)
    return _unsc(o, dt)


def cross(a, b):
    raise Unsupported("cross")


def convolve(a, v, mode="full"):
    a, v = asarr(a), asarr(v)
    n, m = a.a.size, v.a.size
    outl = [mk(0) for _ in range(n + m - 1)]
    for i in range(n):
        for j in range(m):
            outl[i + j] = E.num_add(outl[i + j], E.num_mul(mk(a.a[i]), mk(v.a[j])))
    dt = _promote([a.dtype, v.dtype])
    r = cast_arr(SymArray(_aslist(outl), OBJ), dt)
    if mode == "full":
        return r
    L = builtins.max(n, m)
    if mode == "same":
        s = (n + m - 1 - L) // 2
        return r[s:s + L]
    s = builtins.min(n, m) - 1
    return r[s:L]


def vander(x, N=None, increasing=False):
    x = asarr(x)
    N = x.a.size if N is None else int(N)
    cols = [power(x, i) for i in range(N)]
    if not increasing:
        cols = cols[::-1]
    return stack(cols, axis=1)


# ---- predicates --------------------------------------------------------------------
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = less_equal(absolute(subtract(a, b)), add(atol, multiply(rtol, absolute(b))))
    if equal_nan:
        d = logical_or(d, logical_and(isnan(a), isnan(b)))
    return d


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.a.shape != b.a.shape:
        return False
    e = equal(a, b)
    if equal_nan:
        e = logical_or(e, logical_and(isnan(a), isnan(b)))
    return all(e)


def isin(a, b, **k):
    b = asarr(b).ravel()
    return ufunc("isin", lambda t: mkbool(bor(*[E.num_eq_b(mk(t), mk(y)) for y in b.a])), BOOL)(a)


in1d = isin


def may_share_memory(a, b):
    return rnp.may_share_memory(a.a, b.a)


shares_memory = may_share_memory


# ---- types ---------------------------------------------------------------------------
class _TMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __eq__(cls, o):
        if cls is o:
            return True
        try:
            return cls._rdtype is not None and cls._rdtype == parse_dtype(o)
        except TypeError:
            return False

    def __hash__(cls):
        return hash(cls.__name__)


def _mktype(name, rdt, pred):
    class T(metaclass=_TMeta):
        _rdtype = rdt
        _check = staticmethod(pred)

        def __new__(cls, x=0, *a):
            if rdt is None:
                raise TypeError("abstract type")
            if isinstance(x, (SymArray, list, tuple)):
                r = cast_arr(asarr(x), rdt, True)
                return r
            if isinstance(x, rnp.ndarray):
                return cast_arr(asarr(x), rdt)
            if isinstance(x, str):
                x = rdt.type(x)
            if rdt.kind == "b":
                return mkbool(as_b(x)) if is_scalar(x) else builtins.bool(x)
            return num_cast(x if isinstance(x, SBool) else mk(x), rdt)
    T.__name__ = T.__qualname__ = name
    return T


def _kcheck(kinds):
    def f(x):
        if isinstance(x, Num):
            return x.k in kinds
        if isinstance(x, rnp.generic):
            return x.dtype.kind in kinds
        return False
    return f


for _n in ("float16", "float32", "float64", "longdouble"):
    globals()[_n] = _mktype(_n, DT(_n), _kcheck("f"))
for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp"):
    globals()[_n] = _mktype(_n, DT(_n), _kcheck("iu"))
for _n in ("complex64", "complex128"):
    globals()[_n] = _mktype(_n, DT(_n), _kcheck("c"))
single, double, half = float32, float64, float16
float_, int_, complex_, cdouble, csingle = float64, int64, complex128, complex128, complex64
bool_ = _mktype("bool_", BOOL, lambda x: isinstance(x, (builtins.bool, SBool, rnp.bool_)))
integer = _mktype("integer", None, _kcheck("iu"))
signedinteger = integer
unsignedinteger = _mktype("unsignedinteger", None, lambda x: False)
floating = inexact = _mktype("floating", None, _kcheck("f"))
inexact = _mktype("inexact", None, _kcheck("fc"))
complexfloating = _mktype("complexfloating", None, _kcheck("c"))
number = _mktype("number", None, lambda x: _kcheck("iufc")(x))
generic = _mktype("generic", None, lambda x: isinstance(x, (Num, SBool, rnp.generic)))
object_ = rnp.object_
str_ = rnp.str_
bytes_ = rnp.bytes_
character = rnp.character
void = rnp.void
ndarray = SymArray


class _DTypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, DT)


class dtype(metaclass=_DTypeMeta):
    def __new__(cls, x=None, *a, **k):
        return parse_dtype(x) if not a and not k else rnp.dtype(x, *a, **k)


def issubdtype(a, b):
    b = getattr(b, "_rdtype", None) or getattr(rnp, getattr(b, "__name__", ""), b)
    return rnp.issubdtype(parse_dtype(a) if not isinstance(a, type) or hasattr(a, "_rdtype") else a, b)


def result_type(*a):
    return rnp.result_type(*[x.dtype if isinstance(x, (SymArray, Num)) else parse_dtype(x) for x in a])


promote_types = lambda a, b: rnp.promote_types(parse_dtype(a), parse_dtype(b))
can_cast = lambda a, b, **k: rnp.can_cast(parse_dtype(a), parse_dtype(b), **k)
finfo = lambda t: rnp.finfo(parse_dtype(t))
iinfo = lambda t: rnp.iinfo(parse_dtype(t))

pi = PI_NUM
e = Num("f", SF(K.exp_poly(K.ONE)))
nan = NaN = NAN = math.nan
inf = Inf = infty = PINF = math.inf
NINF = -math.inf
newaxis = None
euler_gamma = rnp.euler_gamma


class errstate(contextlib.ContextDecorator):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def geterr():
    return {}


def set_printoptions(**k):
    pass


def ndindex(*s):
    return rnp.ndindex(*_ints(s if not (len(s) == 1 and isinstance(s[0], tuple)) else s[0]))


def ndenumerate(a):
    x = asarr(a)
    for ix in rnp.ndindex(*x.a.shape):
        yield ix, x.a[ix]


def nditer(a, **k):
    if isinstance(a, SymArray) and not k:
        for ix in rnp.ndindex(*a.a.shape):
            yield a.a[ix]
        return
    raise Unsupported("nditer")


def apply_along_axis(f, axis, arr, *a, **k):
    x = asarr(arr)
    m = rnp.moveaxis(x.a, axis, -1)
    sh = m.shape[:-1]
    o = None
    for ix in rnp.ndindex(*sh):
        r = asarr(f(SymArray(m[ix], x.dtype), *a, **k))
        if o is None:
            o = _objarr(sh + r.a.shape)
            dt = r.dtype
        o[ix] = r.a if r.a.ndim else r.a[()]
    if o.ndim > len(sh):
        o = rnp.moveaxis(o, -1, axis)
    return SymArray(o, dt)


def vectorize(f, **k):
    def g(*a):
        return ufunc("vectorized", f, nin=len(a))(*a)
    return g


class MaskedArray(SymArray):
    pass


class _Ma:
    """Masked arrays: data plus explicit mask (only the operations the code uses)."""
    class _MaskedConst:
        """numpy.ma.masked: comparisons and arithmetic give masked again, which is falsy"""

        def _same(self, *a):
            return self

        __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _same
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __abs__ = __neg__ = _same
        __hash__ = object.__hash__

        def __bool__(self):
            return False

    masked = _MaskedConst()

    class MArr:
        def __init__(self, data, mask):
            self.data, self.mask = data, mask

        ndim = property(lambda s: s.data.ndim)
        shape = property(lambda s: s.data.shape)
        dtype = property(lambda s: s.data.dtype)

        def __abs__(self):
            return _Ma.MArr(absolute(self.data), self.mask)

        def __getitem__(self, k):
            d = self.data[k]
            m = self.mask[k]
            if isinstance(d, SymArray):
                return _Ma.MArr(d, m)
            return d

        def filled(self, v):
            return where(self.mask, v, self.data)

        def compressed(self):
            return self.data[logical_not(self.mask)]

        def _nan(self):
            return where(self.mask, math.nan, self.data)

        def _unm(self):
            idx, items = [], []
            d, m = self.data.a.reshape(-1), self.mask.a.reshape(-1)
            for i in range(d.size):
                if not bool(m[i]):
                    items.append((i, mk(d[i])))
            return items

        def max(self, axis=None):
            return _Ma._x(self, _cgt, "val", axis)

        def min(self, axis=None):
            return _Ma._x(self, _clt, "val", axis)

        def argmax(self, axis=None):
            return _Ma._x(self, _cgt, "arg", axis)

        def argmin(self, axis=None):
            return _Ma._x(self, _clt, "arg", axis)

        def sum(self, axis=None):
            return self._lanes(lambda l: _sumlist(l), axis)

        def mean(self, axis=None):
            return self._lanes(lambda l: E.num_div(_sumlist(l), mk(len(l))), axis)

        def std(self, axis=None, ddof=0):
            def f(l):
                m = E.num_div(_sumlist(l), mk(len(l)))
                v = E.num_div(_sumlist([E.num_mul(E.num_sub(x, m), E.num_sub(x, m)) for x in l]), mk(len(l) - ddof))
                return sqrt(v)
            return self._lanes(f, axis)

        def var(self, axis=None, ddof=0):
            r = self.std(axis, ddof)
            return r * r

        def median(self, axis=None):
            return self._lanes(lambda l: _median_list(l, False), axis)

        def count(self, axis=None):
            return sum(logical_not(self.mask), axis)

        def flatten(self):
            return _Ma.MArr(ravel(self.data), ravel(self.mask))

        ravel = flatten

        def _lanes(self, f, axis):
            d, m = self.data.a, self.mask.a
            if axis is None:
                d, m = d.reshape(-1, 1), m.reshape(-1, 1)
            else:
                axis = concrete_scalar(axis)
                d, m = rnp.moveaxis(d, axis, 0), rnp.moveaxis(m, axis, 0)
            sh = d.shape[1:]
            w = 1
            for q in sh:
                w *= q
            d, m = d.reshape(d.shape[0], w), m.reshape(m.shape[0], w)
            o, mo = _objarr((d.shape[1],)), _objarr((d.shape[1],))
            for j in range(d.shape[1]):
                l = [mk(d[i, j]) for i in range(d.shape[0]) if not bool(m[i, j])]
                o[j] = f(l) if l else mk(math.nan)
                mo[j] = not l
            if axis is None or sh == ():
                return _Ma.masked if mo[0] else o[0]
            return _Ma.MArr(SymArray(o.reshape(sh), F8), SymArray(mo.reshape(sh), BOOL))

        def _bin(self, o, f, rev=False):
            if o is _Ma.masked:
                return _Ma.MArr(self.data, ones(self.shape, bool))
            od = o.data if isinstance(o, _Ma.MArr) else o
            a, b = (od, self.data) if rev else (self.data, od)
            d = asarr(f(a, b))
            m = self.mask if not isinstance(o, _Ma.MArr) else logical_or(self.mask, o.mask)
            m = asarr(m)
            if m.a.shape != d.a.shape:
                m = SymArray(rnp.broadcast_to(m.a, d.a.shape).copy(), BOOL)
            return _Ma.MArr(d, m)

        def __add__(self, o):
            return self._bin(o, add)

        def __radd__(self, o):
            return self._bin(o, add, True)

        def __sub__(self, o):
            return self._bin(o, subtract)

        def __rsub__(self, o):
            return self._bin(o, subtract, True)

        def __mul__(self, o):
            return self._bin(o, multiply)

        __rmul__ = __mul__

        def __truediv__(self, o):
            return self._bin(o, true_divide)

        def __pow__(self, o):
            return self._bin(o, power)

        def __neg__(self):
            return _Ma.MArr(negative(self.data), self.mask)

        def __ne__(self, o):
            return self._bin(o, not_equal)

        def __eq__(self, o):
            return self._bin(o, equal)

        __hash__ = None

    @staticmethod
    def _x(m, gt, what, axis=None):
        if axis is not None and m.data.ndim != 1:
            raise Unsupported("masked reduction along one of several axes")
        items = m._unm()
        if not items:
            return mk(0) if what == "arg" else _Ma.masked
        i = _anynan([v for _, v in items])
        if i is not None:
            # numpy.ma fills masked entries and lets NaN propagate
            if what == "arg":
                return mk(items[i][0])
            return mk(math.nan)
        items = [(i, _strip(v)) for i, v in items]
        return mk(_argext(items, gt)[0]) if what == "arg" else _extval(items, gt)

    def array(self, data, mask=False, **k):
        d = asarr(data)
        m = asarr(mask)
        if m.a.shape != d.a.shape:
            m = SymArray(rnp.broadcast_to(m.a, d.a.shape), BOOL)
        return _Ma.MArr(d, cast_arr(m, BOOL))

    masked_array = array

    def masked_where(self, c, a):
        if isinstance(c, _Ma.MArr):
            c = c.filled(False)     # numpy.ma compares masked entries with themselves: never different
        if isinstance(a, _Ma.MArr):
            return self.array(a.data, logical_or(c, a.mask))
        return self.array(a, c)

    def masked_invalid(self, a):
        return self.array(a, logical_not(isfinite(a)))

    def abs(self, m):
        if isinstance(m, _Ma.MArr):
            return _Ma.MArr(absolute(m.data), m.mask)
        return _Ma.MArr(absolute(m), zeros(asarr(m).shape, bool_))

    absolute = abs

    def fabs(self, m):
        return self.abs(m)

    def _m(self, m):
        return m if isinstance(m, _Ma.MArr) else self.array(m)

    def median(self, m, axis=None, out=None, overwrite_input=False, keepdims=False):
        return self._keep(self._m(m), self._m(m).median(axis), axis, keepdims)

    def std(self, m, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return self._keep(self._m(m), self._m(m).std(axis, ddof), axis, keepdims)

    def var(self, m, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return self._keep(self._m(m), self._m(m).var(axis, ddof), axis, keepdims)

    def _keep(self, m, r, axis, keepdims):
        if not keepdims:
            return r
        sh = [1] * m.data.ndim if axis is None else list(m.data.shape)
        if axis is not None:
            sh[axis] = 1
        if r is _Ma.masked:
            return self.array(zeros(tuple(sh)), ones(tuple(sh), bool_))
        if isinstance(r, _Ma.MArr):
            return _Ma.MArr(reshape(r.data, tuple(sh)), reshape(r.mask, tuple(sh)))
        return self.array(reshape(asarr(r), tuple(sh)))

    def swapaxes(self, m, a, b):
        m = self._m(m)
        return _Ma.MArr(swapaxes(m.data, a, b), swapaxes(m.mask, a, b))

    def transpose(self, m, *a):
        m = self._m(m)
        return _Ma.MArr(transpose(m.data, *a), transpose(m.mask, *a))

    def is_masked(self, m):
        return m is _Ma.masked or isinstance(m, _Ma.MArr) and bool(any(m.mask))

    def isMaskedArray(self, m):
        return m is _Ma.masked or isinstance(m, _Ma.MArr)

    def getmask(self, m):
        return m.mask

    def compressed(self, m):
        return self._m(m).compressed()

    def count(self, m, axis=None):
        return self._m(m).count(axis)

    def max(self, m, axis=None):
        return self._m(m).max(axis)

    def min(self, m, axis=None):
        return self._m(m).min(axis)

    def argmax(self, m, axis=None):
        return self._m(m).argmax(axis)

    def sum(self, m, axis=None):
        return self._m(m).sum(axis)

    def mean(self, m, axis=None):
        return self._m(m).mean(axis)

    def filled(self, m, v):
        return m.filled(v)

    def getmaskarray(self, m):
        return m.mask

    def __getattr__(self, n):
        raise Unsupported("np.ma." + n)


ma = _Ma()


def _mareduce(name, f):
    @functools.wraps(f)
    def g(a, axis=None, *r, **k):
        if isinstance(a, _Ma.MArr):
            if r or builtins.any(v not in (None, False) for v in k.values()):
                raise Unsupported("np.%s of a masked array with options" % name)
            return getattr(a, name)(axis)
        return f(a, axis, *r, **k)
    return g


std, mean, sum, var = (_mareduce(n, f) for n, f in (("std", std), ("mean", mean), ("sum", sum), ("var", var)))
max = amax = _mareduce("max", max)
min = amin = _mareduce("min", min)
argmax, argmin = _mareduce("argmax", argmax), _mareduce("argmin", argmin)


class _Linalg:
    LinAlgError = rnp.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None):
        x = asarr(x)
        if ord not in (None, 2):
            raise Unsupported("norm order")
        return sqrt(sum(square(absolute(x)), axis))

    def det(self, a):
        a = asarr(a)
        n = a.a.shape[0]
        return _det([[mk(a.a[i, j]) for j in range(n)] for i in range(n)])

    def inv(self, a):
        a = asarr(a)
        n = a.a.shape[0]
        M = [[mk(a.a[i, j]) for j in range(n)] for i in range(n)]
        d = _det(M)
        o = _objarr((n, n))
        for i in range(n):
            for j in range(n):
                minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                cof = _det(minor) if n > 1 else mk(1.0)
                o[i, j] = (cof if (i + j) % 2 == 0 else -cof) / d
        return SymArray(o, F8)

    def solve(self, a, b):
        return matmul(self.inv(a), b)

    def __getattr__(self, n):
        return _fallback(getattr(rnp.linalg, n), "linalg." + n)


def _det(M):
    n = len(M)
    if n == 0:
        return mk(1)
    if n == 1:
        return M[0][0]
    r = mk(0)
    for j in range(n):
        c = M[0][j] * _det([[M[i][k] for k in range(n) if k != j] for i in range(1, n)])
        r = r + c if j % 2 == 0 else r - c
    return r


linalg = _Linalg()


class _Fft:
    def fftshift(self, x, axes=None):
        x = asarr(x)
        return SymArray(rnp.fft.fftshift(x.a, axes), x.dtype)

    def ifftshift(self, x, axes=None):
        x = asarr(x)
        return SymArray(rnp.fft.ifftshift(x.a, axes), x.dtype)

    def __getattr__(self, n):
        return _fallback(getattr(rnp.fft, n), "fft." + n)


fft = _Fft()


class _Random:
    """Random draws are arbitrary reals supplied by the harness (hook)."""
    hook = None

    def normal(self, loc=0.0, scale=1.0, size=None):
        if _Random.hook is None:
            raise Unsupported("np.random.normal without a stub")
        return _Random.hook(loc, scale, size)

    def randn(self, *s):
        return self.normal(size=s)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("np.random." + n)


random = _Random()

FILEHOOKS = {}


def loadtxt(*a, **k):
    if "loadtxt" in FILEHOOKS:
        return FILEHOOKS["loadtxt"](*a, **k)
    return from_real(rnp.loadtxt(*a, **{n: parse_dtype(v) if n == "dtype" else v for n, v in k.items()}))


def genfromtxt(*a, **k):
    if "genfromtxt" in FILEHOOKS:
        return FILEHOOKS["genfromtxt"](*a, **k)
    return from_real(rnp.genfromtxt(*a, **k))


def savetxt(fn, X, *a, **k):
    if "savetxt" in FILEHOOKS:
        return FILEHOOKS["savetxt"](fn, X, *a, **k)
    raise Unsupported("savetxt")


def _fallback(f, name):
    if not callable(f) or isinstance(f, type) and issubclass(f, BaseException):
        return f

    def g(*a, **k):
        if builtins.any(is_symbolic(x) for x in a) or builtins.any(is_symbolic(x) for x in k.values()):
            raise Unsupported("numpy.%s on symbolic values" % name)
        k = {n: (parse_dtype(v) if n == "dtype" else to_real(v)) for n, v in k.items()}
        return from_real(f(*[to_real(x) for x in a], **k))
    g.__name__ = name
    return g


# operators on arrays
def _binop(u):
    def f(self, o):
        if o is ma.masked and u in (less, less_equal, greater, greater_equal, equal, not_equal):
            return zeros(self.shape, bool)       # masked everywhere: selects nothing
        if isinstance(o, str) or o is None:
            return NotImplemented
        if not (isinstance(o, (SymArray, list, tuple, rnp.ndarray)) or is_scalar(o)):
            return NotImplemented
        return u(self, o)
    return f


def _rbinop(u):
    def f(self, o):
        if isinstance(o, str) or o is None:
            return NotImplemented
        if not (isinstance(o, (SymArray, list, tuple, rnp.ndarray)) or is_scalar(o)):
            return NotImplemented
        return u(o, self)
    return f


def _iop(u):
    def f(self, o):
        r = u(self, o)
        rdt = r.dtype
        if rdt.kind == "c" and self.dtype.kind != "c" or rdt.kind == "f" and self.dtype.kind in "iub":
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (rdt, self.dtype))
        ra = asarr(r)
        if rnp.broadcast_shapes(ra.a.shape, self.a.shape) != self.a.shape:
            raise ValueError("non-broadcastable output operand")
        self.a[...] = cast_arr(ra, self.dtype).a
        return self
    return f


for _n, _u in (("add", add), ("sub", subtract), ("mul", multiply), ("truediv", true_divide),
               ("floordiv", floor_divide), ("mod", mod), ("pow", power), ("and", bitwise_and),
               ("or", bitwise_or), ("xor", bitwise_xor)):
    setattr(SymArray, "__%s__" % _n, _binop(_u))
    setattr(SymArray, "__r%s__" % _n, _rbinop(_u))
    setattr(SymArray, "__i%s__" % _n, _iop(_u))
for _n, _u in (("lt", less), ("le", less_equal), ("gt", greater), ("ge", greater_equal)):
    setattr(SymArray, "__%s__" % _n, _binop(_u))


def _eqm(u, dflt):
    def f(self, o):
        if o is None:
            # numpy compares elementwise with None
            return full(self.a.shape, dflt)
        if isinstance(o, str):
            return dflt
        try:
            return u(self, o)
        except ValueError:
            raise
    return f


SymArray.__eq__ = _eqm(equal, False)
SymArray.__ne__ = _eqm(not_equal, True)

for _n, _f in (("sum", sum), ("prod", prod), ("mean", mean), ("std", std), ("var", var), ("max", max), ("min", min),
               ("argmax", argmax), ("argmin", argmin), ("argsort", argsort), ("cumsum", cumsum), ("cumprod", cumprod),
               ("all", all), ("any", any_), ("clip", clip), ("round", around), ("ptp", ptp), ("diagonal", diagonal),
               ("searchsorted", searchsorted), ("trace", trace), ("compress", None)):
    if _f is not None:
        setattr(SymArray, _n, (lambda f: lambda self, *a, **k: f(self, *a, **k))(_f))

any = any_
alltrue, sometrue = all, any_


# Num as left operand with arrays: Num.__add__(array) must defer
def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if not hasattr(rnp, name):
        raise AttributeError("module 'numpy' has no attribute %r" % name)
    v = getattr(rnp, name)
    return _fallback(v, name)
