"""In-memory files for the symbolic world: FITS images (subset of astropy.io.fits used by
the tools) and text files, plus the os/glob views of them.

Header and HDU behaviour follow the astropy documentation: headers are ordered and
case-insensitive, missing keywords raise KeyError, the structural keywords of an HDU
are rewritten from its data when it is created or written, every reader gets its own copy.
"""
import builtins
import fnmatch
import io
import json as _json
import os
import posixpath
import re as _re
import types

import numpy as rnp

from . import engine as E
from . import npshim as S
from .core import Unsupported

ROOT = "/symfs/"


def is_mem(p):
    return isinstance(p, str) and p.startswith(ROOT)


class Header:
    def __init__(self, cards=()):
        self._d = {}          # key -> [value, comment], insertion ordered
        self._hist = []
        if isinstance(cards, Header):
            self._d = {k: list(v) for k, v in cards._d.items()}
            self._hist = list(cards._hist)
        else:
            for c in (cards.items() if isinstance(cards, dict) else cards):
                self[c[0]] = c[1] if len(c) == 2 else (c[1], c[2])

    @staticmethod
    def _k(k):
        if not isinstance(k, str):
            raise Unsupported("header access by %r" % (k,))
        return k.upper()

    def __getitem__(self, k):
        k = self._k(k)
        if k in ("HISTORY", "COMMENT"):
            return [v for kk, v in self._hist if kk == k]
        try:
            return self._d[k][0]
        except KeyError:
            raise KeyError("Keyword %r not found." % k)

    def __setitem__(self, k, v):
        k = self._k(k)
        com = None
        if isinstance(v, tuple):
            if len(v) == 2:
                v, com = v
            else:
                v = v[0]
        if k in ("HISTORY", "COMMENT", ""):
            self._hist.append((k, v))
            return
        if isinstance(v, S.SymArray):
            if v.ndim:
                raise ValueError("Illegal value")
            v = v._one()
        if isinstance(v, (list, dict, rnp.ndarray)):
            raise ValueError("Illegal value")
        if isinstance(v, rnp.generic):
            v = v.item()
        if k in self._d:
            self._d[k][0] = v
            if com is not None:
                self._d[k][1] = com
        else:
            self._d[k] = [v, com or ""]

    def set(self, k, value=None, comment=None, before=None, after=None):
        k = self._k(k)
        if (before is not None or after is not None) and k not in ("HISTORY", "COMMENT"):
            old = self._d.pop(k, None)
            ref = before if before is not None else after
            keys = list(self._d)
            if isinstance(ref, str):
                ref = self._k(ref)
                if ref not in self._d:
                    raise KeyError("Keyword %r not found." % ref)
                pos = keys.index(ref)
            else:
                pos = int(ref)
            if before is None:
                pos += 1
            new = [value if value is not None or old is None else old[0], comment if comment is not None else (old[1] if old else "")]
            items = list(self._d.items())
            items.insert(pos, (k, new))
            self._d = dict(items)
            return
        self[k] = (value, comment) if comment is not None else value

    def insert(self, key, card, useblanks=True, after=False):
        keys = list(self._d)
        pos = keys.index(self._k(key)) if isinstance(key, str) else int(key)
        if not isinstance(key, str) and pos < 0:
            pos += len(keys)
        k = self._k(card[0])
        if k in self._d:
            raise Unsupported("duplicate header card " + k)
        self[k] = card[1] if len(card) == 2 else (card[1], card[2])
        new = self._d.pop(k)
        items = list(self._d.items())
        items.insert(pos + (1 if after else 0), (k, new))
        self._d = dict(items)

    def append(self, card=None, *a, **k):
        if card is None:
            self._hist.append(("", ""))
        else:
            self.insert(len(self._d), card)

    def __delitem__(self, k):
        k = self._k(k)
        if k in ("HISTORY", "COMMENT"):
            self._hist = [h for h in self._hist if h[0] != k]
            return
        if k not in self._d:
            raise KeyError("Keyword %r not found." % k)
        del self._d[k]

    def remove(self, k, ignore_missing=False, remove_all=False):
        if self._k(k) not in self._d:
            if ignore_missing:
                return
            raise KeyError("Keyword %r not found." % k)
        del self[k]

    def pop(self, k, *d):
        k = self._k(k)
        if k in self._d:
            return self._d.pop(k)[0]
        if d:
            return d[0]
        raise KeyError("Keyword %r not found." % k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def __contains__(self, k):
        k = self._k(k)
        return k in self._d or any(h[0] == k for h in self._hist)

    def keys(self):
        return list(self._d)

    def values(self):
        return [v[0] for v in self._d.values()]

    def items(self):
        return [(k, v[0]) for k, v in self._d.items()]

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d) + len(self._hist)

    def copy(self, strip=False):
        return Header(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return Header(self)

    def update(self, *a, **k):
        for o in a:
            for c in (o.items() if hasattr(o, "items") else o):
                self[c[0]] = c[1] if len(c) == 2 else (c[1], c[2])
        for n, v in k.items():
            self[n] = v

    def index(self, k):
        return list(self._d).index(self._k(k))

    def rename_keyword(self, a, b, force=False):
        a, b = self._k(a), self._k(b)
        if b in self._d and not force:
            raise ValueError("Intended keyword %s already exists in header." % b)
        self._d = {(b if k == a else k): v for k, v in self._d.items()}

    def add_history(self, v, *a):
        self._hist.append(("HISTORY", v))

    def add_comment(self, v, *a):
        self._hist.append(("COMMENT", v))

    @property
    def comments(self):
        return {k: v[1] for k, v in self._d.items()}

    def tostring(self, *a, **k):
        n = (len(self) + 1) * 80
        return " " * (-(-n // 2880) * 2880)

    def tofile(self, fn, overwrite=False, **k):
        sh = tuple(S._ints(self["NAXIS%d" % i]) if not isinstance(self["NAXIS%d" % i], int) else self["NAXIS%d" % i]
                   for i in range(self["NAXIS"], 0, -1))
        FS.write(fn, [ImageHDU(S.zeros(sh), self)], overwrite)


def _shape_to_header(h, data):
    if data is None:
        if "NAXIS" not in h:
            h["NAXIS"] = 0
        return
    n = data.ndim
    old = h._d
    for k in [k for k in old if k.startswith("NAXIS") and k[5:].isdigit() and int(k[5:]) > n]:
        del h[k]
    if "SIMPLE" not in old and "XTENSION" not in old:
        h.set("SIMPLE", True, before=0)
    if "BITPIX" not in h:
        h.set("BITPIX", -32, before=1)
    d = data.dtype
    h["BITPIX"] = {("f", 4): -32, ("f", 8): -64, ("i", 8): 64, ("i", 4): 32, ("i", 2): 16, ("b", 1): 8, ("u", 1): 8}.get((d.kind, d.itemsize), -64)
    if d.kind == "c":
        raise KeyError("complex data cannot be stored in a FITS image")
    if "NAXIS" not in h:
        h.set("NAXIS", n, after="BITPIX")
    h["NAXIS"] = n
    prev = "NAXIS"
    for i in range(n):
        k = "NAXIS%d" % (i + 1)
        if k in h:
            h[k] = data.shape[n - 1 - i]
        else:
            h.set(k, data.shape[n - 1 - i], after=prev)
        prev = k


class ImageHDU:
    def __init__(self, data=None, header=None, name=None, **kw):
        if data is not None and not isinstance(data, S.SymArray):
            if isinstance(data, rnp.ndarray):
                data = S.from_real(data)
            else:
                raise TypeError("data object %r could not be coerced into numpy array" % type(data))
        if data is not None and data.dtype.kind == "c":
            raise KeyError("complex data cannot be stored in a FITS image")
        self.data = data
        self.header = Header(header) if header is not None else Header()
        if data is not None:
            _shape_to_header(self.header, data)
        self.name = name or ("PRIMARY" if isinstance(self, PrimaryHDU) else "")

    @property
    def shape(self):
        return self.data.shape

    def copy(self):
        h = type(self)(None, self.header)
        h.data = None if self.data is None else self.data.copy()
        return h

    def writeto(self, fn, output_verify="exception", overwrite=False, checksum=False):
        HDUList([self]).writeto(fn, output_verify, overwrite)


class PrimaryHDU(ImageHDU):
    pass


class HDUList(list):
    def __init__(self, hdus=(), file=None, mode=None):
        super().__init__(hdus if isinstance(hdus, (list, tuple)) else [hdus])
        self._file, self._mode = file, mode

    def writeto(self, fn, output_verify="exception", overwrite=False, checksum=False):
        for h in self:
            if h.data is not None:
                _shape_to_header(h.header, h.data)
        FS.write(fn, [h.copy() for h in self], overwrite)

    def flush(self, *a, **k):
        if self._mode == "update":
            FS.write(self._file, [h.copy() for h in self], True)

    def close(self, *a, **k):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def info(self, *a, **k):
        return None


class _FS:
    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}
        self.dirs = {ROOT.rstrip("/"), ROOT + "work"}
        if getattr(E, "TOKENS", None) is not None:
            E.TOKENS = []

    def norm(self, fn):
        if not isinstance(fn, str):
            fn = os.fspath(fn)
        fn = posixpath.normpath(fn)
        if not fn.startswith(ROOT):
            raise Unsupported("file outside the modelled directory: " + fn)
        return fn

    def write(self, fn, obj, overwrite=True):
        fn = self.norm(fn)
        if fn in self.files and not overwrite:
            raise OSError("File %r already exists." % fn)
        if not self.isdir(posixpath.dirname(fn)):
            raise FileNotFoundError(2, "No such file or directory", fn)
        self.files[fn] = obj

    def isdir(self, p):
        p = posixpath.normpath(str(p))
        if not is_mem(p + "/"):
            return os.path.isdir(p)
        return p in self.dirs or any(f.startswith(p + "/") for f in self.files)

    def mkdir(self, p, mode=0o777):
        p = self.norm(p)
        if self.exists(p):
            raise FileExistsError(17, "File exists", p)
        if not self.isdir(posixpath.dirname(p)):
            raise FileNotFoundError(2, "No such file or directory", p)
        self.dirs.add(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = self.norm(p)
        if self.exists(p):
            if not exist_ok:
                raise FileExistsError(17, "File exists", p)
            return
        if not self.isdir(posixpath.dirname(p)):
            self.makedirs(posixpath.dirname(p), exist_ok=True)
        self.dirs.add(p)

    def read(self, fn):
        fn = self.norm(fn)
        if fn not in self.files:
            raise FileNotFoundError(2, "No such file or directory", fn)
        return self.files[fn]

    def exists(self, p):
        if not is_mem(posixpath.normpath(str(p))):
            if str(p).startswith(ROOT.rstrip("/")):
                return True
            return os.path.exists(p)
        p = self.norm(p)
        return p in self.files or self.isdir(p)


FS = _FS()


def fopen(name, mode="readonly", memmap=None, **k):
    hd = FS.read(name)
    if not isinstance(hd, builtins.list):
        raise OSError("Empty or corrupt FITS file")
    return HDUList([h.copy() for h in hd], name, mode)


def getdata(fn, ext=0, header=False, **k):
    h = fopen(fn)[ext]
    if h.data is None:
        raise IndexError("No data in HDU")
    return (h.data, h.header) if header else h.data


def getheader(fn, ext=0, **k):
    return fopen(fn)[ext].header


def fwriteto(fn, data, header=None, output_verify="exception", overwrite=False, **k):
    PrimaryHDU(data, header).writeto(fn, output_verify, overwrite)


class _File:
    """text file in memory"""

    def __init__(self, fn, mode):
        self.fn, self.mode = FS.norm(fn), mode
        if "r" in mode:
            t = FS.read(fn)
            if "b" in mode or not isinstance(t, str):
                self.buf = None            # opaque handle (FITS resized in place)
                return
            self.buf = io.StringIO(t)
        else:
            self.buf = io.StringIO()
            if "a" in mode and self.fn in FS.files:
                self.buf.write(FS.read(fn))
            elif "w" in mode:
                FS.files[self.fn] = ""

    def write(self, s):
        if self.buf is None:
            return len(s)
        n = self.buf.write(s)
        if "w" in self.mode or "a" in self.mode:
            FS.files[self.fn] = self.buf.getvalue()   # flushed at the latest when the handle is dropped
        return n

    def seek(self, *a):
        return self.buf.seek(*a) if self.buf is not None else 0

    def __getattr__(self, n):
        if self.__dict__.get("buf") is None:
            raise AttributeError(n)
        return getattr(self.buf, n)

    def __iter__(self):
        return iter(self.buf)

    def close(self):
        if self.buf is not None and ("w" in self.mode or "a" in self.mode) and not self.buf.closed:
            FS.files[self.fn] = self.buf.getvalue()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def mopen(fn, mode="r", *a, **k):
    if is_mem(fn):
        return _File(fn, mode)
    if "w" in mode or "a" in mode or "+" in mode:
        raise Unsupported("write outside the modelled directory")
    return builtins.open(fn, mode, *a, **k)


def mglob(pat, *a, **k):
    pat = posixpath.normpath(pat)
    return [f for f in FS.files if fnmatch.fnmatchcase(f, pat) and f.count("/") == pat.count("/")]


class WCS:
    """linear world coordinates: world = CRVAL + (pixel - CRPIX) * CDELT per axis (FITS paper I without rotation)"""

    def __init__(self, header=None, naxis=None, **k):
        n = header["NAXIS"]
        ax = list(range(1, n + 1)) if naxis is None else (list(range(1, naxis + 1)) if isinstance(naxis, int) else list(naxis))
        if any(kw[:2] in ("PC", "CD") and "_" in kw for kw in header.keys()):
            raise Unsupported("WCS with rotation")
        self.header, self.ax = header, ax
        self.wcs = types.SimpleNamespace(crpix=[header.get("CRPIX%d" % i, 0.0) for i in ax], crval=[header.get("CRVAL%d" % i, 0.0) for i in ax],
                                         cdelt=[header.get("CDELT%d" % i, 1.0) for i in ax], ctype=[header.get("CTYPE%d" % i, "") for i in ax])
        self.naxis = len(ax)
        self.array_shape = tuple(header["NAXIS%d" % i] for i in reversed(ax))
        self.pixel_shape = self.array_shape[::-1]

    @property
    def spectral(self):
        ax = [i for i in self.ax if str(self.header.get("CTYPE%d" % i, "")).upper().startswith("FREQ")]
        if len(ax) != 1 or self.header.get("CUNIT%d" % ax[0], "Hz") != "Hz":
            raise Unsupported("spectral axis other than one FREQ axis in Hz")
        return WCS(self.header, naxis=ax)

    def _lin(self):
        for c in self.wcs.ctype:
            if str(c)[4:5] == "-":
                raise Unsupported("celestial projection " + str(c))

    def _map(self, a, origin, f):
        self._lin()
        if len(a) == 1 and self.naxis > 1:
            t = S.asarr(a[0])
            cols = [t[:, j] for j in range(self.naxis)]
        else:
            t, cols = None, [S.asarr(x) for x in a]
        out = [f(x, j, origin) for j, x in enumerate(cols)]
        if t is not None:
            return S.stack(out, axis=1)
        return out

    def _p2w(self, x, j, o):
        return self.wcs.crval[j] + (x + (1 - o) - self.wcs.crpix[j]) * self.wcs.cdelt[j]

    def _w2p(self, x, j, o):
        return (x - self.wcs.crval[j]) / self.wcs.cdelt[j] + self.wcs.crpix[j] - (1 - o)

    def wcs_pix2world(self, *a, **k):
        return self._map(a[:-1], a[-1], self._p2w)

    def wcs_world2pix(self, *a, **k):
        return self._map(a[:-1], a[-1], self._w2p)

    all_pix2world, all_world2pix = wcs_pix2world, wcs_world2pix

    def pixel_to_world_values(self, *a):
        r = self._map(a, 0, self._p2w)
        return r[0] if len(r) == 1 else r

    def world_to_pixel_values(self, *a):
        r = self._map(a, 0, self._w2p)
        return r[0] if len(r) == 1 else r


def _fits():
    m = types.ModuleType("astropy.io.fits")
    m.Header, m.PrimaryHDU, m.ImageHDU, m.HDUList = Header, PrimaryHDU, ImageHDU, HDUList
    m.open, m.getdata, m.getheader, m.writeto = fopen, getdata, getheader, fwriteto
    m.header = types.ModuleType("astropy.io.fits.header")
    m.header.Header = Header
    return m


class _OsPath(types.ModuleType):
    def __getattr__(self, n):
        return getattr(os.path, n)


class _Os(types.ModuleType):
    def __getattr__(self, n):
        if n in ("remove", "unlink", "rmdir", "rename", "replace", "makedirs", "mkdir", "removedirs", "system", "chdir", "listdir"):
            raise Unsupported("os." + n)
        return getattr(os, n)


def _osmods():
    p = _OsPath("os.path")
    p.exists = FS.exists
    p.isfile = lambda f: FS.exists(f) and not FS.isdir(f)
    p.isdir = FS.isdir
    o = _Os("os")
    o.path = p
    o.mkdir, o.makedirs = FS.mkdir, FS.makedirs
    return o, p


# ---- text tables and json -------------------------------------------------------
def _handle(fn, mode):
    if isinstance(fn, str):
        return _File(fn, mode), True
    return fn, False


def savetxt(fn, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    X = S.asarr(X)
    if X.ndim == 0 or X.ndim > 2:
        raise ValueError("Expected 1D or 2D array, got %dD array instead" % X.ndim)
    if X.dtype.kind == "c":
        raise Unsupported("savetxt of complex values")
    if fmt not in ("%.18e", "%s", "%r"):
        raise Unsupported("savetxt format " + str(fmt))
    if X.ndim == 1:
        X = X[:, None]
    f, own = _handle(fn, "w")
    if header:
        f.write(comments + header.replace("\n", "\n" + comments) + newline)
    for r in X.a:
        f.write(delimiter.join(E.token(E.mk(v)) for v in r) + newline)
    if footer:
        f.write(comments + footer + newline)
    if own:
        f.close()


def loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0, max_rows=None, **k):
    if converters is not None:
        raise Unsupported("loadtxt converters")
    if isinstance(fname, str) and not is_mem(fname):
        return S.from_real(rnp.loadtxt(fname, dtype=S.parse_dtype(dtype), comments=comments, delimiter=delimiter, skiprows=skiprows,
                                       usecols=usecols, unpack=unpack, ndmin=ndmin, max_rows=max_rows))
    if isinstance(fname, builtins.list):
        lines = fname
    else:
        lines = [l for l in _handle(fname, "r")[0]]
    rows = []
    for l in lines[skiprows:]:
        l = l.split(comments)[0].strip() if comments else l.strip()
        if not l:
            continue
        w = [x for x in (l.split(delimiter) if delimiter else l.split())]
        if usecols is not None:
            w = [w[i] for i in ([usecols] if isinstance(usecols, int) else usecols)]
        rows.append(w)
        if max_rows is not None and len(rows) == max_rows:
            break
    if any(len(r) != len(rows[0]) for r in rows):
        raise ValueError("the number of columns changed; use `usecols` to select a subset and avoid this error")
    out = []
    for r in rows:
        row = []
        for x in r:
            t = E.untoken(x)
            row.append(E.Num("f", t.re) if t is not None else E.mk(float(x)))
        out.append(row)
    a = S.array(out) if out else S.zeros((0,))
    a = a.astype(dtype if dtype is not None else float)
    while a.ndim > max(ndmin, 0) and 1 in a.shape and a.ndim > ndmin:
        a = S.squeeze(a)
    if ndmin == 2 and a.ndim == 2 and False:
        pass
    return a.T if unpack else a


def genfromtxt(fname, dtype=float, comments="#", delimiter=None, encoding=None, unpack=False, **k):
    if k:
        raise Unsupported("genfromtxt options")
    return loadtxt(fname, float if dtype is None else dtype, comments, delimiter, unpack=unpack)


def _jwrite(o):
    if isinstance(o, E.Num):
        c = o.isconst()
        if o.k == "c" or (o.k == "i" and o.dt is not None) or (o.k == "f" and o.dt is not None and o.dtype != rnp.dtype("float64")):
            raise TypeError("Object of type %s is not JSON serializable" % o.dtype)
        return E.token(o)
    if isinstance(o, dict):
        for k in o:
            if not isinstance(k, (str, int, float, bool, type(None))):
                raise TypeError("keys must be str, int, float, bool or None")
        return "{" + ", ".join("%s: %s" % (_json.dumps(k if isinstance(k, str) else _json.dumps(k)), _jwrite(v)) for k, v in o.items()) + "}"
    if isinstance(o, (builtins.list, tuple)):
        return "[" + ", ".join(_jwrite(v) for v in o) + "]"
    if isinstance(o, (S.SymArray, E.SBool)):
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
    return _json.dumps(o)


def _jread(s):
    def up(o):
        if isinstance(o, dict):
            return {k: up(v) for k, v in o.items()}
        if isinstance(o, builtins.list):
            return [up(v) for v in o]
        if isinstance(o, str):
            t = E.untoken(o)
            return o if t is None else E.Num(t.k, t.re)
        return o
    return up(_json.loads(_re.sub("(\u27e6\\d+\u27e7)", r'"\1"', s)))


def _jmod():
    m = types.ModuleType("json")
    m.dumps = lambda o, **k: _jwrite(o)
    m.dump = lambda o, f, **k: f.write(_jwrite(o)) and f.flush()
    m.loads = lambda s, **k: _jread(s)
    m.load = lambda f, **k: _jread(f.read())
    m.JSONDecodeError = _json.JSONDecodeError
    m.JSONEncoder = _json.JSONEncoder
    return m


def install(loader):
    FS.reset()
    E.TOKENS = []
    loader.stubs["json"] = _jmod()
    S.FILEHOOKS.update(savetxt=savetxt, loadtxt=loadtxt, genfromtxt=genfromtxt)
    st = loader.stubs
    st["astropy.io.fits"] = _fits()
    st["astropy.io.fits.header"] = st["astropy.io.fits"].header
    st["astropy.io"].fits = st["astropy.io.fits"]
    w = types.ModuleType("astropy.wcs")
    w.WCS = WCS
    w.wcs = types.ModuleType("astropy.wcs.wcs")
    w.wcs.WCS = WCS
    st["astropy.wcs"], st["astropy.wcs.wcs"], st["astropy"].wcs = w, w.wcs, w
    o, p = _osmods()
    st["os"], st["os.path"] = o, p
    g = types.ModuleType("glob")
    g.glob = mglob
    st["glob"] = g
    loader.open = mopen
