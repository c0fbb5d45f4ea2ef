"""Symbolic scalars, boolean formulas, path exploration and solver queries.

Values are elements of a canonical commutative algebra: finite sums of rational
coefficients times monomials over *atoms* (input variables, reciprocals,
square roots, indicators of conditions, exponentials, unit phases and other
opaque functions).  Canonical form makes algebraically equal programs produce
equal terms; every decision (branch feasibility, assertion validity) is then
made by z3 over the translated terms.
"""
import functools
import math
import random
import time
from fractions import Fraction as Fr

import z3

# ----------------------------------------------------------------------------
class Unsupported(Exception):
    """The code under test used something the encoder does not model."""


class PathAbort(BaseException):
    """This path is infeasible or was cut by an explicit bound."""


class Bound(Exception):
    """A stated bound (paths, values, unrollings) was exceeded."""


# ----------------------------------------------------------------------------
# Atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "pos", "nonneg", "integer",
                 "lo", "hi", "val", "key", "_z3", "_ax", "deps")

    def __init__(self, kind, name, args=(), pos=False, nonneg=False,
                 integer=False, lo=None, hi=None, val=None, key=None):
        self.kind, self.name, self.args = kind, name, args
        self.pos, self.nonneg, self.integer = pos, nonneg or pos, integer
        self.lo, self.hi, self.val, self.key = lo, hi, val, key
        self._z3 = None
        self._ax = None
        self.deps = None
        self.id = len(ATOMS)
        ATOMS.append(self)


ATOMS = []
ATOMKEY = {}


def atom(key, *a, **k):
    t = ATOMKEY.get(key)
    if t is None:
        t = Atom(*a, key=key, **k)
        ATOMKEY[key] = t
    return t


A_I = atom(("I",), "I", "i")


def A_const(name, val):
    return atom(("const", name), "const", name, pos=val > 0, val=val)


A_PI = A_const("pi", math.pi)


# ----------------------------------------------------------------------------
# Polynomials
def _q(x):
    """Exact rational of a python number; floats are read as the decimal they print as."""
    if isinstance(x, Fr):
        return x
    if isinstance(x, bool):
        return Fr(int(x))
    if isinstance(x, int):
        return Fr(x)
    x = float(x)
    if x.is_integer() and abs(x) < 1e22:
        return Fr(int(x))
    r = repr(x)
    return Fr(r)


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=_mkey))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def const(self):
        """Fraction value when this is a rational constant, else None."""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1:
            return self.t.get(())
        return None

    def __repr__(self):
        return pstr(self)


def _mkey(it):
    m = it[0]
    return (len(m), tuple((a, float(e)) for a, e in m))


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def pconst(x):
    x = _q(x)
    return Poly({(): x}) if x else ZERO


def patom(a, e=1):
    return Poly({((a.id, e),): Fr(1)})


P_I = patom(A_I)
P_PI = patom(A_PI)
HALF = Fr(1, 2)


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)


def pscale(a, c):
    if c == 1:
        return a
    if not c:
        return ZERO
    return Poly({m: v * c for m, v in a.t.items()})


def pneg(a):
    return Poly({m: -v for m, v in a.t.items()})


def psub(a, b):
    return padd(a, pneg(b))


MUL_LIMIT = 200000


def _mmul(m1, m2):
    """Product of monomials -> (sign, monomial, extra Poly or None)."""
    if not m1:
        return 1, m2, None
    if not m2:
        return 1, m1, None
    d = dict(m1)
    special = False
    for a, e in m2:
        v = d.get(a)
        if v is None:
            d[a] = e
        else:
            k = ATOMS[a].kind
            if k == "ind":
                continue
            v = v + e
            if v == 0:
                del d[a]
            else:
                d[a] = v
            if k in ("I", "sqrt", "const", "phase", "inv"):
                special = True
    if not special:
        return 1, tuple(sorted(d.items())), None
    return _mnorm(d)


def _mnorm(d):
    sign = 1
    extra = None
    for a in list(d):
        if a not in d:
            continue
        e = d[a]
        A = ATOMS[a]
        k = A.kind
        if k == "I":
            e = e % 4
            if e in (2, 3):
                sign = -sign
            if e in (1, 3):
                d[a] = 1
            else:
                del d[a]
        elif k == "sqrt":
            if e not in (0, 1):
                q, r = divmod(e, 2)
                if q:
                    p = ppow(A.args[0], int(q)) if q > 0 else ppow(pinv(A.args[0]), int(-q))
                    extra = p if extra is None else pmul(extra, p)
                if r:
                    d[a] = r
                else:
                    del d[a]
        elif k == "const" and A.name.startswith("sqrt"):
            n = int(A.name[4:])
            q, r = divmod(e, 2)
            if q:
                p = pconst(Fr(n) ** int(q))
                extra = p if extra is None else pmul(extra, p)
            if r:
                d[a] = r
            else:
                del d[a]
        elif k == "phase" and A.args == ((A_PI.id, 1),):
            # exp(i*pi*e), reduce to e in [0,1/2)
            e = Fr(e) % 2
            if e >= 1:
                sign = -sign
                e -= 1
            if e >= HALF:
                e -= HALF
                extra = P_I if extra is None else pmul(extra, P_I)
            if e:
                d[a] = e
            else:
                del d[a]
        elif k == "inv" and e < 0:
            n = -((e.numerator) // e.denominator) if isinstance(e, Fr) else -e
            r = e + n   # inv**e = p**n * inv**r with 0 <= r < 1
            if r:
                d[a] = r
            else:
                del d[a]
            p = ppow(A.args[0], int(n))
            extra = p if extra is None else pmul(extra, p)
    return sign, tuple(sorted(d.items())), extra


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca = a.const()
    if ca is not None:
        return pscale(b, ca)
    cb = b.const()
    if cb is not None:
        return pscale(a, cb)
    if len(a.t) * len(b.t) > MUL_LIMIT:
        raise Bound("term too large")
    t = {}
    extras = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            s, m, ex = _mmul(m1, m2)
            c = c1 * c2
            if s < 0:
                c = -c
            if ex is not None:
                extras.append((m, c, ex))
                continue
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v += c
                if v:
                    t[m] = v
                else:
                    del t[m]
    r = Poly(t)
    for m, c, ex in extras:
        r = padd(r, pmul(Poly({m: c}), ex))
    return r


def ppow(a, n):
    assert n >= 0
    r = ONE
    b = a
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pconj_free(p):
    """True when no imaginary unit or phase occurs."""
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind in ("I", "phase"):
                return False
    return True


def lead(p):
    """Deterministic leading coefficient."""
    m = min(p.t, key=lambda m: (-len(m), tuple((a, float(e)) for a, e in m)))
    return p.t[m]


def has_kind(p, kinds):
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind in kinds:
                return True
    return False


def pinv(p):
    """1/p (p assumed non-zero; callers track the zero case)."""
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        d = {}
        ok = True
        for a, e in m:
            k = ATOMS[a].kind
            if k in ("ind",):
                ok = False
                break
            d[a] = -e
        if ok:
            s, mm, ex = _mnorm(d)
            r = Poly({mm: Fr(s) / c})
            return r if ex is None else pmul(r, ex)
    c = lead(p)
    p0 = pscale(p, 1 / c)
    # pull out common monomial factors of plain atoms
    common = None
    for m in p0.t:
        d = {a: e for a, e in m if ATOMS[a].kind not in ("ind", "I", "phase", "sqrt")}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        if not common:
            break
    out = pconst(1 / c)
    if common:
        cm = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in cm)
        p0 = pmul(p0, Poly({inv: Fr(1)}))
        out = pmul(out, Poly({inv: Fr(1)}))
        c2 = lead(p0)
        p0 = pscale(p0, 1 / c2)
        out = pscale(out, 1 / c2)
        if len(p0.t) == 1:
            return pmul(out, pinv(p0))
    a = atom(("inv", p0), "inv", "inv", (p0,), pos=(psign(p0) == 1))
    return pmul(out, patom(a))


def psign(p):
    """Cheap syntactic sign: 1 (>0), -1 (<0), 0 (==0), 2 (>=0), -2 (<=0), None unknown."""
    if not p.t:
        return 0
    strict = False
    s = None
    for m, c in p.t.items():
        ms = True
        for a, e in m:
            A = ATOMS[a]
            if A.pos:
                continue
            if A.nonneg or (isinstance(e, int) and e % 2 == 0 and A.kind not in ("I", "phase")):
                ms = False
                continue
            return None
        ts = 1 if c > 0 else -1
        if s is None:
            s = ts
        elif s != ts:
            return _psign_num(p)
        if ms:
            strict = True
    return s if strict else 2 * s


def _psign_num(p):
    """Sign of an expression in constant atoms only, numerically."""
    for m in p.t:
        for a, _ in m:
            if not is_num_atom(ATOMS[a]):
                return None
    try:
        v = peval(p, {})
    except NumFail:
        return None
    if isinstance(v, complex):
        v = v.real
    scale = sum(abs(float(c)) * 1.0 for c in p.t.values())
    if abs(v) > 1e-9 * scale:
        return 1 if v > 0 else -1
    return None


def is_num_atom(A):
    """Atom that depends on no input."""
    if A.kind in ("const", "I"):
        return True
    if A.kind in ("var", "ind", "bvar"):
        return False
    return not atom_vars(A)


def atom_vars(A):
    """Set of input-variable atom ids (and boolean variables as ('b',name)) below an atom."""
    if A.deps is None:
        s = set()
        if A.kind == "var":
            s.add(A.id)
        elif A.kind == "ind":
            s |= A.args[0].vars()
        elif A.kind in ("exp", "phase"):
            for a, _ in A.args:
                s |= atom_vars(ATOMS[a])
        else:
            for x in A.args:
                if isinstance(x, Poly):
                    s |= pvars(x)
        A.deps = frozenset(s)
    return A.deps


def pvars(p):
    s = set()
    for m in p.t:
        for a, _ in m:
            s |= atom_vars(ATOMS[a])
    return s


def pstr(p, depth=2):
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:12]:
        f = []
        if c != 1 or not m:
            f.append(str(c) if c.denominator == 1 else "%.12g" % float(c))
        for a, e in m:
            s = astr(ATOMS[a], depth)
            f.append(s if e == 1 else "%s^%s" % (s, e))
        out.append("*".join(f))
    return " + ".join(out) + (" + ..." if len(p.t) > 12 else "")


def astr(A, depth=2):
    if A.kind in ("var", "const", "I"):
        return A.name
    if depth <= 0:
        return A.kind + "#%d" % A.id
    if A.kind == "ind":
        return "[%s]" % A.args[0].str(depth - 1)
    if A.kind in ("exp", "phase"):
        return "%s(%s)" % ("exp" if A.kind == "exp" else "cis", pstr(Poly({A.args: Fr(1)}), depth - 1))
    return "%s(%s)" % (A.name, ", ".join(pstr(x, depth - 1) if isinstance(x, Poly) else str(x) for x in A.args))


# ---- numeric evaluation ------------------------------------------------------
class NumFail(Exception):
    pass


def aeval(A, env, memo):
    v = memo.get(A.id)
    if v is not None:
        return v
    k = A.kind
    if k == "I":
        v = 1j
    elif k == "const":
        v = A.val
    elif k == "var":
        try:
            v = float(env[A.name])
        except KeyError:
            raise NumFail(A.name)
    elif k == "ind":
        v = 1.0 if A.args[0].eval(env, memo) else 0.0
    elif k == "inv":
        x = _real(peval(A.args[0], env, memo))
        if x == 0:
            raise NumFail("1/0")
        v = 1.0 / x
    elif k == "sqrt":
        x = _real(peval(A.args[0], env, memo))
        v = math.sqrt(x) if x >= 0 else 0.0
    elif k == "exp":
        x = _real(peval(Poly({A.args: Fr(1)}), env, memo))
        v = math.exp(min(x, 700))
    elif k == "phase":
        x = _real(peval(Poly({A.args: Fr(1)}), env, memo))
        v = ("phase", x)
    elif k == "fn":
        v = FN_EVAL[A.name](*[_real(peval(x, env, memo)) if isinstance(x, Poly) else x for x in A.args])
    else:
        raise NumFail(k)
    memo[A.id] = v
    return v


FN_EVAL = {}


def _real(x):
    return x.real if isinstance(x, complex) else x


def peval(p, env, memo=None):
    if memo is None:
        memo = {}
    s = 0.0
    for m, c in p.t.items():
        try:
            t = float(c)
        except OverflowError:
            raise NumFail("overflow")
        ph = 0.0
        isph = False
        for a, e in m:
            v = aeval(ATOMS[a], env, memo)
            if isinstance(v, tuple):
                ph += float(e) * v[1]
                isph = True
                continue
            try:
                t = t * (v if e == 1 else v ** (int(e) if Fr(e).denominator == 1 else float(e)))
            except (ZeroDivisionError, OverflowError):
                raise NumFail("pow")
        if isph:
            t = t * complex(math.cos(ph), math.sin(ph))
        s = s + t
    if isinstance(s, complex) and pself_real(p):
        return s.real
    return s


def pself_real(p):
    return True


def pmag(p, env, memo):
    """Sum of absolute term values: the scale against which cancellation is judged."""
    s = 0.0
    for m, c in p.t.items():
        t = abs(float(c))
        for a, e in m:
            v = aeval(ATOMS[a], env, memo)
            if isinstance(v, tuple):
                continue
            try:
                t = t * abs(v) ** float(e)
            except (ZeroDivisionError, OverflowError):
                raise NumFail("pow")
        s += t
    return s


# ----------------------------------------------------------------------------
# Boolean formulas
class B:
    __slots__ = ("op", "a", "_h", "_z3", "_vars")

    def __init__(self, op, a=()):
        self.op, self.a = op, a
        self._h = hash((op, a))
        self._z3 = None
        self._vars = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and self._h == o._h and self.op == o.op and self.a == o.a)

    def vars(self):
        if self._vars is None:
            s = set()
            if self.op in ("lt", "eq"):
                s = pvars(self.a[0])
            elif self.op == "var":
                s = {("b", self.a[0])}
            else:
                for x in self.a:
                    s = s | x.vars()
            self._vars = frozenset(s)
        return self._vars

    def str(self, depth=2):
        if self.op == "T":
            return "true"
        if self.op == "F":
            return "false"
        if self.op == "var":
            return self.a[0]
        if self.op == "lt":
            return "(%s < 0)" % pstr(self.a[0], depth)
        if self.op == "eq":
            return "(%s == 0)" % pstr(self.a[0], depth)
        if self.op == "not":
            return "!" + self.a[0].str(depth)
        return "(" + (" & " if self.op == "and" else " | ").join(x.str(depth) for x in self.a) + ")"

    __repr__ = str

    def eval(self, env, memo, tol=0.0):
        op = self.op
        if op == "T":
            return True
        if op == "F":
            return False
        if op == "var":
            if self.a[0] not in env:
                raise NumFail(self.a[0])
            return bool(env[self.a[0]])
        if op == "not":
            return not self.a[0].eval(env, memo, tol)
        if op == "and":
            return all(x.eval(env, memo, tol) for x in self.a)
        if op == "or":
            return any(x.eval(env, memo, tol) for x in self.a)
        p = self.a[0]
        v = _real(peval(p, env, memo))
        if op == "lt":
            return v < 0
        sc = pmag(p, env, memo)
        return abs(v) <= max(tol, 1e-11) * max(sc, 1e-300)


TRUE = B("T")
FALSE = B("F")


def bnot(x):
    if x.op == "T":
        return FALSE
    if x.op == "F":
        return TRUE
    if x.op == "not":
        return x.a[0]
    return B("not", (x,))


def _bflat(op, xs):
    out = []
    seen = set()
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    for x in xs:
        if x.op == unit.op:
            continue
        if x.op == zero.op:
            return zero
        items = x.a if x.op == op else (x,)
        for y in items:
            if y in seen:
                continue
            if bnot(y) in seen:
                return zero
            seen.add(y)
            out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return B(op, tuple(out))


def band(*xs):
    return _bflat("and", xs)


def bor(*xs):
    return _bflat("or", xs)


def bimp(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if a == b:
        return TRUE
    return band(bimp(a, b), bimp(b, a))


def bvar(name):
    return B("var", (name,))


def _norm_sign(p):
    """Divide by positive content and positive denominators; returns p' with the same sign."""
    if not p.t:
        return p
    # multiply out reciprocal atoms known positive
    for _ in range(8):
        worst = None
        for m in p.t:
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "inv" and A.pos:
                    if worst is None or a > worst[0]:
                        worst = (a, e)
                    elif a == worst[0]:
                        worst = (a, max(e, worst[1]))
        if worst is None:
            break
        p = _clear_inv(p, worst[0], worst[1])
    # positive plain atoms: multiply/divide by common exponents
    ex = {}
    n = 0
    for m in p.t:
        d = dict(m)
        n += 1
        for a, e in d.items():
            if ATOMS[a].pos and ATOMS[a].kind in ("var", "const", "exp", "fn"):
                ex.setdefault(a, []).append(e)
    adj = {}
    for a, es in ex.items():
        lo = min(es)
        if len(es) < n:
            lo = min(lo, 0)
        if lo:
            adj[a] = -lo
    if adj:
        p = pmul(p, Poly({tuple(sorted(adj.items())): Fr(1)}))
    if not p.t:
        return p
    c = abs(lead(p))
    if c != 1:
        p = pscale(p, 1 / c)
    return p


def _clear_inv(p, aid, k):
    """Multiply p by args[0]^k of reciprocal atom aid."""
    p0 = ATOMS[aid].args[0]
    k = max(k, 0)
    r = ZERO
    by = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for a, x in m:
            if a == aid:
                e = x
            else:
                rest.append((a, x))
        by.setdefault(e, {})[tuple(rest)] = c
    for e, t in by.items():
        r = padd(r, pmul(Poly(t), ppow(p0, int(k - e))))
    return r


def clear_all(p, drop=0.0):
    """Multiply out all reciprocals (zero test only)."""
    for _ in range(30):
        worst = None
        for m in p.t:
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "inv":
                    if worst is None or a > worst[0]:
                        worst = (a, e)
                    elif a == worst[0]:
                        worst = (a, max(e, worst[1]))
        if worst is None:
            break
        p = _clear_inv(p, worst[0], worst[1])
        if not p.t:
            return p
    # negative exponents of plain atoms
    ex = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and ATOMS[a].kind in ("var", "const", "fn", "sqrt"):
                ex[a] = min(ex.get(a, 0), e)
    if ex:
        p = pmul(p, Poly({tuple(sorted((a, -e) for a, e in ex.items())): Fr(1)}))
    return p


_BND = {}
_NOB = (None, None)


def _abound(A):
    if A.kind == "var":
        lo, hi = A.lo, A.hi
        if lo is None and A.nonneg:
            lo = Fr(0)
        return lo, hi
    if A.kind == "ind":
        return Fr(0), Fr(1)
    if A.nonneg:
        return Fr(0), None
    return _NOB


def pbounds(p):
    """Interval enclosure from the declared ranges of the inputs (None = unbounded)."""
    if len(p.t) > 12:
        return _NOB
    r = _BND.get(p)
    if r is not None:
        return r
    L = H = Fr(0)
    for m, c in p.t.items():
        l = h = c
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                al, ah = (Fr(0), None) if ATOMS[a].nonneg else _NOB
                e = 1
            else:
                al, ah = _abound(ATOMS[a])
            if e % 2 == 0:
                if al is None or ah is None:
                    al, ah = Fr(0), None
                elif al >= 0:
                    al, ah = al ** e, ah ** e
                else:
                    al, ah = (Fr(0) if ah >= 0 else ah ** e), builtins_max(al ** e, ah ** e)
            elif e > 1:
                al = None if al is None else al ** e
                ah = None if ah is None else ah ** e
            if l is not None and h is not None and al is not None and ah is not None:
                v = (l * al, l * ah, h * al, h * ah)
                l, h = min(v), max(v)
            elif l is not None and l >= 0 and al is not None and al >= 0:
                l, h = l * al, (h * ah if h is not None and ah is not None else None)
            elif h is not None and h <= 0 and al is not None and al >= 0:
                l, h = (l * ah if l is not None and ah is not None else None), h * al
            else:
                l = h = None
            if l is None and h is None:
                break
        L = None if L is None or l is None else L + l
        H = None if H is None or h is None else H + h
        if L is None and H is None:
            break
    r = (L, H)
    _BND[p] = r
    return r


builtins_max = max


def _square_out(p):
    """a - b with a, b >= 0 and square roots: the sign of a^2 - b^2"""
    if len(p.t) < 2 or not has_kind(p, ("sqrt",)):
        return None
    P, N = {}, {}
    for m, c in p.t.items():
        for a, e in m:
            A = ATOMS[a]
            if not (A.pos or A.nonneg) and not (isinstance(e, int) and e % 2 == 0 and A.kind not in ("I", "phase")):
                return None
        (P if c > 0 else N)[m] = c
    if not P or not N:
        return None
    P, N = Poly(P), pneg(Poly(N))
    for q in (P, N):
        if len(q.t) > 1 and has_kind(q, ("sqrt",)):
            return None
    r = psub(pmul(P, P), pmul(N, N))
    return None if len(r.t) > 400 else r


def b_lt0(p):
    q = _square_out(p)
    if q is not None:
        return b_lt0(q)
    s = psign(p)
    if s is None and not pvars_any(p):
        s = _psign_num(p)
    if s is None:
        lo, hi = pbounds(p)
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    if s == -1:
        return TRUE
    if s in (0, 1, 2):
        return FALSE
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    p = _norm_sign(p)
    s = psign(p)
    if s == -1:
        return TRUE
    if s in (0, 1, 2):
        return FALSE
    return B("lt", (p,))


def pvars_any(p):
    return bool(pvars(p))


def b_eq0(p):
    q = _square_out(p)
    if q is not None:
        return b_eq0(q)
    s = psign(p)
    if s in (1, -1):
        return FALSE
    if s == 0:
        return TRUE
    lo, hi = pbounds(p)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return FALSE
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = _norm_sign(p)
    if not p.t:
        return TRUE
    if has_kind(p, ("inv",)):
        try:
            q = clear_all(p)
            if not q.t:
                return TRUE
        except Bound:
            pass
    if lead(p) < 0:
        p = pneg(p)
    s = psign(p)
    if s in (1, -1):
        return FALSE
    if s == 0:
        return TRUE
    if s in (2, -2):
        # a sum of non-negative terms vanishes exactly when each of them does
        ok = True
        parts = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                A = ATOMS[a]
                if A.pos:
                    continue
                if not isinstance(e, int) or e < 0 or A.kind in ("I", "phase", "inv"):
                    ok = False
                    break
                q = patom(A)
                fs.append(B("eq", (q,)) if len(p.t) > 1 or len(m) > 1 or e > 1 else None)
            if not ok:
                break
            parts.append(fs)
        if ok and not any(f is None for fs in parts for f in fs):
            return band(*[bor(*fs) for fs in parts])
    return B("eq", (p,))


# indicator polynomials ---------------------------------------------------------
_IND_MEMO = {}


def ind(b):
    """0/1 polynomial of a formula, multilinear in the indicators of its literals."""
    if b.op == "T":
        return ONE
    if b.op == "F":
        return ZERO
    r = _IND_MEMO.get(b)
    if r is not None:
        return r
    if b.op == "not":
        r = psub(ONE, ind(b.a[0]))
    elif b.op in ("and", "or"):
        r = ONE
        for x in b.a:
            y = ind(x)
            r = pmul(r, y if b.op == "and" else psub(ONE, y))
            if len(r.t) > 300:
                r = None
                break
        if r is None:
            r = patom(atom(("ind", b), "ind", "ind", (b,), nonneg=True))
        elif b.op == "or":
            r = psub(ONE, r)
    elif b.op == "lt":
        # [p<0] with p of negative leading sign:  [p<0] = 1-[q<0]-[q==0], q=-p
        p = b.a[0]
        if lead(p) < 0:
            q = pneg(p)
            r = psub(psub(ONE, _ind_atom(B("lt", (q,)))), _ind_atom(B("eq", (q,))))
        else:
            r = _ind_atom(b)
    else:
        r = _ind_atom(b)
    _IND_MEMO[b] = r
    return r


def _ind_atom(b):
    return patom(atom(("ind", b), "ind", "ind", (b,), nonneg=True))


# ----------------------------------------------------------------------------
# translation to z3
_FRESH = [0]


def zq(fr):
    fr = Fr(fr)
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


class Tr:
    """One translation session: collects side axioms of the atoms used."""

    def __init__(self):
        self.az = {}
        self.ax = []
        self.pz = {}
        self.phz = {}
        self.bz = {}

    def atom(self, A):
        z = self.az.get(A.id)
        if z is not None:
            return z
        k = A.kind
        nm = "a%d_%s" % (A.id, A.name)
        if k == "var":
            if A.integer:
                zi = z3.Int(A.name)
                z = z3.ToReal(zi)
            else:
                z = z3.Real(A.name)
            if A.pos:
                self.ax.append(z > 0)
            elif A.nonneg:
                self.ax.append(z >= 0)
            if A.lo is not None:
                self.ax.append(z >= zq(A.lo))
            if A.hi is not None:
                self.ax.append(z <= zq(A.hi))
        elif k == "const":
            z = z3.Real(nm)
            v = Fr(A.val)
            self.ax.append(z > zq(v - Fr(1, 10 ** 14)))
            self.ax.append(z < zq(v + Fr(1, 10 ** 14)))
            if A.name.startswith("sqrt"):
                self.ax.append(z * z == int(A.name[4:]))
        elif k == "ind":
            z = z3.If(self.bool(A.args[0]), z3.RealVal(1), z3.RealVal(0))
        elif k == "inv":
            z = z3.Real(nm)
            self.az[A.id] = z
            d = self.poly(A.args[0])
            self.ax.append(z3.Implies(d != 0, z * d == 1))
            if A.pos:
                self.ax.append(z > 0)
        elif k == "sqrt":
            z = z3.Real(nm)
            self.az[A.id] = z
            d = self.poly(A.args[0])
            self.ax.append(z >= 0)
            self.ax.append(z3.Implies(d >= 0, z * z == d))
        elif k == "exp":
            z = z3.Real(nm)
            self.az[A.id] = z
            self.ax.append(z > 0)
            x = self.poly(Poly({A.args: Fr(1)}))
            self.ax.append(z >= 1 + x)
            self.ax.append((z == 1) == (x == 0))
            self.ax.append((z < 1) == (x < 0))
        elif k == "fn":
            z = z3.Real(nm)
            self.az[A.id] = z
            args = [self.poly(x) if isinstance(x, Poly) else x for x in A.args]
            if A.integer:
                zi = z3.Int(nm + "_i")
                z = z3.ToReal(zi)
                self.az[A.id] = z
            f = FN_AXIOM.get(A.name)
            if f:
                self.ax.extend(f(z, *args))
            if A.pos:
                self.ax.append(z > 0)
            elif A.nonneg:
                self.ax.append(z >= 0)
        else:
            raise Unsupported("atom kind " + k)
        self.az[A.id] = z
        return z

    def phase(self, pm):
        """pm: tuple of (phase atom id, exponent); returns (cos, sin)."""
        neg = pm[0][1] < 0
        key = tuple((a, -e) for a, e in pm) if neg else pm
        cs = self.phz.get(key)
        if cs is None:
            n = len(self.phz)
            c, s = z3.Real("cos_%s" % _phname(key)), z3.Real("sin_%s" % _phname(key))
            self.ax.append(c * c + s * s == 1)
            cs = (c, s)
            self.phz[key] = cs
        return (cs[0], -cs[1]) if neg else cs

    def poly(self, p):
        z = self.pz.get(p)
        if z is not None:
            return z
        terms = []
        for m, c in p.t.items():
            fs = []
            ph = []
            im = 0
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "I":
                    im = 1
                    continue
                if A.kind == "phase":
                    ph.append((a, e))
                    continue
                x = self.atom(A)
                fe = Fr(e)
                if fe.denominator != 1:
                    x = self.root(A, x, fe)
                    n = 1
                else:
                    n = int(fe)
                if n < 0:
                    x = self.recip(A, x)
                    n = -n
                fs.extend([x] * n)
            if ph:
                cz, sz = self.phase(tuple(ph))
                fs.append(-sz if im else cz)
            elif im:
                continue  # purely imaginary term: cancels in a real expression
            t = zq(c)
            if fs:
                if c == 1:
                    t = fs[0]
                    fs = fs[1:]
                for f in fs:
                    t = t * f
            terms.append(t)
        if not terms:
            z = z3.RealVal(0)
        elif len(terms) == 1:
            z = terms[0]
        else:
            z = z3.Sum(*terms)
        self.pz[p] = z
        return z

    def recip(self, A, x):
        k = ("r", A.id)
        z = self.az.get(k)
        if z is None:
            z = z3.Real("r%d_%s" % (A.id, A.name))
            self.az[k] = z
            self.ax.append(z3.Implies(x != 0, z * x == 1))
            if A.pos:
                self.ax.append(z > 0)
        return z

    def root(self, A, x, fe):
        k = ("root", A.id, fe)
        z = self.az.get(k)
        if z is None:
            z = z3.Real("root%d_%d_%d" % (A.id, fe.numerator, fe.denominator))
            self.az[k] = z
            self.ax.append(z > 0)
            if fe.denominator <= 4 and abs(fe.numerator) <= 6:
                l = z
                for _ in range(fe.denominator - 1):
                    l = l * z
                r = x
                for _ in range(abs(fe.numerator) - 1):
                    r = r * x
                self.ax.append(l == r if fe.numerator > 0 else l * r == 1)
        return z

    def bool(self, b):
        z = self.bz.get(b)
        if z is not None:
            return z
        op = b.op
        if op == "T":
            z = z3.BoolVal(True)
        elif op == "F":
            z = z3.BoolVal(False)
        elif op == "var":
            z = z3.Bool(b.a[0])
        elif op == "not":
            z = z3.Not(self.bool(b.a[0]))
        elif op == "and":
            z = z3.And(*[self.bool(x) for x in b.a])
        elif op == "or":
            z = z3.Or(*[self.bool(x) for x in b.a])
        elif op == "lt":
            z = self.poly(b.a[0]) < 0
        else:
            z = self.poly(b.a[0]) == 0
        self.bz[b] = z
        return z


def _phname(key):
    return "_".join("%d.%s" % (a, e) for a, e in key)


FN_AXIOM = {}


# ----------------------------------------------------------------------------
# substitution (used to concretise transcendental arguments)
def psubst(p, env, known=None, memo=None):
    """Replace variables in env by rationals (and decided indicators by 0/1);
    functions whose arguments become constant are evaluated numerically."""
    if memo is None:
        memo = {}
    r = ZERO
    for m, c in p.t.items():
        t = pconst(c)
        ph = []
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "phase":
                x = asub_phase(A, env, known, memo)
                if x is None:
                    t = pmul(t, Poly({((a, e),): Fr(1)}))
                else:
                    t = pmul(t, cis_poly(pscale(x, Fr(e)), numeric=True))
                continue
            x = asubst(A, env, known, memo)
            if x is None:
                t = pmul(t, Poly({((a, e),): Fr(1)}))
            else:
                t = pmul(t, ppow_any(x, e))
            if not t.t:
                break
        r = padd(r, t)
    return r


def asub_phase(A, env, known, memo):
    if not any(ATOMS[v].name in env for v in atom_vars(A) if not isinstance(v, tuple)):
        return None
    return psubst(Poly({A.args: Fr(1)}), env, known, memo)


def ppow_any(x, e):
    fe = Fr(e)
    if fe.denominator == 1:
        n = int(fe)
        return ppow(x, n) if n >= 0 else ppow(pinv(x), -n)
    c = x.const()
    if c is not None and c > 0:
        return pconst(float(c) ** float(fe))
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c > 0:
            d = tuple((a, Fr(ee) * fe) for a, ee in m)
            return pscale(Poly({d: Fr(1)}), Fr(float(c) ** float(fe)))
    raise Unsupported("root of sum")


def asubst(A, env, known, memo):
    """New Poly for atom, or None if unchanged."""
    if A.id in memo:
        return memo[A.id]
    k = A.kind
    r = None
    if k == "var":
        if A.name in env:
            r = pconst(Fr(env[A.name]))
    elif k == "ind":
        b = bsubst(A.args[0], env, known, memo)
        if b is not A.args[0]:
            r = ind(b)
    elif k in ("const", "I"):
        r = None
    elif k == "exp":
        if env and any(not isinstance(v, tuple) and ATOMS[v].name in env for v in atom_vars(A)):
            x = psubst(Poly({A.args: Fr(1)}), env, known, memo)
            r = exp_poly(x, numeric=True)
    else:
        na = []
        ch = False
        for x in A.args:
            if isinstance(x, Poly):
                y = psubst(x, env, known, memo)
                ch = ch or y != x
                na.append(y)
            else:
                na.append(x)
        if ch:
            r = REBUILD[k](A, na)
    memo[A.id] = r
    return r


def bsubst(b, env, known=None, memo=None):
    if memo is None:
        memo = {}
    if known:
        v = known.get(b)
        if v is not None:
            return TRUE if v else FALSE
    op = b.op
    if op in ("T", "F"):
        return b
    if op == "var":
        if b.a[0] in env:
            return TRUE if env[b.a[0]] else FALSE
        return b
    if op in ("lt", "eq"):
        p = psubst(b.a[0], env, known, memo)
        if p == b.a[0]:
            return b
        return b_lt0(p) if op == "lt" else b_eq0(p)
    xs = [bsubst(x, env, known, memo) for x in b.a]
    if all(x is y for x, y in zip(xs, b.a)):
        return b
    if op == "not":
        return bnot(xs[0])
    return band(*xs) if op == "and" else bor(*xs)


# ----------------------------------------------------------------------------
# elementary functions on polynomials
def _split_ind(p):
    """Return (terms without indicator, [(ind-monomial, rest-poly)...])."""
    plain = {}
    by = {}
    for m, c in p.t.items():
        im = tuple((a, e) for a, e in m if ATOMS[a].kind == "ind")
        if im:
            rest = tuple((a, e) for a, e in m if ATOMS[a].kind != "ind")
            by.setdefault(im, {})[rest] = c
        else:
            plain[m] = c
    return Poly(plain), [(Poly({k: Fr(1)}), Poly(v)) for k, v in by.items()]


def exp_poly(p, numeric=False):
    if not p.t:
        return ONE
    plain, inds = _split_ind(p)
    if inds and len(inds) <= 6:
        # multilinear: handle each indicator monomial independently
        r = exp_poly(plain, numeric)
        for im, rest in inds:
            r = pmul(r, padd(ONE, pmul(im, psub(exp_poly(rest, numeric), ONE))))
        return r
    mono = {}
    scale = None
    power = ONE
    for m, c in p.t.items():
        if numeric and not m:
            scale = math.exp(float(c))
            continue
        # exp(c*log(x)) = x^c
        if len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.kind == "const" and A.name.startswith("ln"):
                n = int(A.name[2:])
                if c.denominator == 1:
                    scale = (scale or 1) * Fr(n) ** int(c)
                    continue
            if A.kind == "fn" and A.name == "log":
                x = A.args[0]
                if len(x.t) == 1:
                    (xm, xc), = x.t.items()
                    if xc == 1 and all(ATOMS[a].pos for a, _ in xm):
                        for a, e in xm:
                            mono[a] = mono.get(a, 0) + Fr(e) * c
                        continue
                if (2 * c).denominator == 1 and abs(c) <= 8:
                    # x > 0 wherever log(x) is finite
                    r = sqrt_poly(x) if (2 * c).numerator % 2 else ONE
                    k = abs(c) // 1
                    for _ in range(int(k)):
                        r = pmul(r, x)
                    power = pmul(power, r if c > 0 else pinv(r))
                    continue
        a = atom(("exp", m), "exp", "exp", m, pos=True)
        mono[a.id] = mono.get(a.id, 0) + c
    mono = {a: (int(e) if Fr(e).denominator == 1 else Fr(e)) for a, e in mono.items() if e}
    s, mm, ex = _mnorm(mono)
    r = Poly({mm: Fr(s)})
    if ex is not None:
        r = pmul(r, ex)
    if scale is not None:
        r = pscale(r, _q(scale))
    return pmul(r, power)


_SNAPS = {}


def _snap(i, c):
    """Phase coefficients that differ by rounding of the constants involved are taken as equal (1 part in 10^11)."""
    c = Fr(c)
    if c.denominator <= 1 << 20:
        return c
    seen = _SNAPS.setdefault(i, set())
    x = abs(c)
    if x in seen:
        return c
    for y in seen:
        if abs(x - y) <= y / 10**11:
            return y if c > 0 else -y
    seen.add(x)
    return c


def psnap(p):
    """the same snapping for phases put together by multiplication"""
    out = None
    for m, c in p.t.items():
        n = None
        for j, (a, e) in enumerate(m):
            if isinstance(e, Fr) and e.denominator > 1 << 20 and ATOMS[a].kind == "phase":
                x = _snap(a, e)
                if x != e:
                    if n is None:
                        n = list(m)
                    n[j] = (a, x)
        if n is not None:
            if out is None:
                out = dict(p.t)
            del out[m]
            k = tuple(n)
            v = out.get(k, 0) + c
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return p if out is None else Poly(out)


def cis_poly(p, numeric=False):
    """exp(i*p) as a polynomial in unit-phase atoms."""
    if not p.t:
        return ONE
    plain, inds = _split_ind(p)
    if inds and len(inds) <= 6:
        r = cis_poly(plain, numeric)
        for im, rest in inds:
            r = pmul(r, padd(ONE, pmul(im, psub(cis_poly(rest, numeric), ONE))))
        return r
    mono = {}
    extra = None
    for m, c in p.t.items():
        if numeric and not m:
            x = float(c)
            extra = padd(pconst(math.cos(x)), pscale(P_I, _q(math.sin(x))))
            continue
        a = atom(("phase", m), "phase", "cis", m)
        mono[a.id] = mono.get(a.id, 0) + _snap(a.id, c)
    mono = {a: (int(e) if Fr(e).denominator == 1 else Fr(e)) for a, e in mono.items() if e}
    s, mm, ex = _mnorm(mono)
    r = Poly({mm: Fr(s)})
    if ex is not None:
        r = pmul(r, ex)
    if extra is not None:
        r = pmul(r, extra)
    return r


def cis_neg(p):
    return cis_poly(pneg(p))


def cos_poly(p):
    return pscale(padd(cis_poly(p), cis_neg(p)), HALF)


def sin_poly(p):
    return pmul(pscale(psub(cis_poly(p), cis_neg(p)), -HALF), P_I)


@functools.lru_cache(100000)
def _sqfree(n):
    """n = s*s*r, r square free (n positive int); gives up on big factors."""
    s = 1
    d = 2
    while d * d <= n and d < 2000:
        while n % (d * d) == 0:
            n //= d * d
            s *= d
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


def sqrt_const(c):
    c = Fr(c)
    if c == 0:
        return ZERO
    # sqrt(n/d) = sqrt(n*d)/d
    n = c.numerator * c.denominator
    s, r = _sqfree(n)
    out = pconst(Fr(s, c.denominator))
    if r != 1:
        out = pmul(out, patom(A_const("sqrt%d" % r, math.sqrt(r))))
    return out


def sqrt_poly(p):
    """Square root of p (assumed >= 0)."""
    if not p.t:
        return ZERO
    c = p.const()
    if c is not None:
        return sqrt_const(c) if c > 0 else ZERO
    plainc = lead(p)
    pos = plainc > 0
    cc = abs(plainc)
    # common factor extraction: even powers / positive atoms
    n = len(p.t)
    ex = {}
    for m in p.t:
        for a, e in m:
            ex.setdefault(a, []).append(e)
    out = ONE
    adj = {}
    for a, es in ex.items():
        A = ATOMS[a]
        if A.kind in ("ind", "I", "phase", "sqrt"):
            continue
        if len(es) == n:
            lo = min(es) if min(es) > 0 else (max(es) if max(es) < 0 else 0)
        else:
            lo = min(min(es), 0)
        if not lo:
            continue
        if A.pos:
            adj[a] = lo
            h = Fr(lo) / 2
            if A.kind == "inv" and h.denominator == 2:
                # inv(D)**(k - 1/2) = sqrt(D)*inv(D)**k
                out = pmul(out, sqrt_poly(A.args[0]))
                h += HALF
            if h:
                out = pmul(out, Poly({((a, int(h) if h.denominator == 1 else h),): Fr(1)}))
        else:
            k = int(lo) // 2 * 2 if lo > 0 else -((-int(lo) + 1) // 2 * 2)
            if k:
                adj[a] = k
                h = k // 2
                x = patom(A, h)
                if h % 2:
                    x = pabs(x)
                out = pmul(out, x)
    if adj:
        p = pmul(p, Poly({tuple(sorted((a, -e) for a, e in adj.items())): Fr(1)}))
    c = p.const()
    if c is not None:
        return pmul(out, sqrt_const(c)) if c > 0 else ZERO
    # rational part of the leading coefficient
    cc = abs(lead(p))
    p0 = pscale(p, 1 / cc)
    if len(p0.t) == 1 and has_kind(p0, ("ind",)):
        (m, c), = p0.t.items()
        im = tuple(x for x in m if ATOMS[x[0]].kind == "ind")
        rest = tuple(x for x in m if ATOMS[x[0]].kind != "ind")
        return pmul(pmul(out, sqrt_const(cc)), pmul(Poly({im: Fr(1)}), sqrt_poly(Poly({rest: c}))))
    a = atom(("sqrt", p0), "sqrt", "sqrt", (p0,), nonneg=True, pos=(psign(p0) == 1))
    return pmul(pmul(out, sqrt_const(cc)), patom(a))


def pabs(p):
    s = psign(p)
    if s in (1, 2):
        return p
    if s in (-1, -2):
        return pneg(p)
    if s == 0:
        return ZERO
    n = ind(b_lt0(p))
    if not n.t:
        return p
    if n == ONE:
        return pneg(p)
    return psub(p, pscale(pmul(n, p), Fr(2)))


def ln_const(c):
    c = Fr(c)
    r = ZERO
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        k = 0
        while n % 10 == 0:
            n //= 10
            k += 1
        if k:
            r = padd(r, pscale(patom(A_const("ln10", math.log(10))), Fr(sg * k)))
        d = 2
        while n > 1 and d < 5000:
            e = 0
            while n % d == 0:
                n //= d
                e += 1
            if e:
                r = padd(r, pscale(patom(A_const("ln%d" % d, math.log(d))), Fr(sg * e)))
            d += 1
        if n > 1:
            r = padd(r, pscale(patom(A_const("ln%d" % n, math.log(n))), Fr(sg)))
    return r


def log_poly(p):
    c = p.const()
    if c is not None:
        return ln_const(c) if c > 0 else ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(ATOMS[a].pos for a, _ in m):
            r = ln_const(c)
            for a, e in m:
                A = ATOMS[a]
                if A.kind == "exp":
                    x = Poly({A.args: Fr(1)})
                elif A.kind == "sqrt":
                    x = pscale(log_poly(A.args[0]), HALF)
                elif A.kind == "inv":
                    x = pneg(log_poly(A.args[0]))
                else:
                    x = patom(atom(("fn", "log", patom(A)), "fn", "log", (patom(A),)))
                r = padd(r, pscale(x, Fr(e)))
            return r
    return patom(atom(("fn", "log", p), "fn", "log", (p,)))


def fn_poly(name, *args, **flags):
    k = ("fn", name) + tuple(args)
    return patom(atom(k, "fn", name, tuple(args), **flags))


def _mdiv(m, d):
    """monomial m / d when every exponent stays of the same sign, else None"""
    r = dict(m)
    for a, e in d:
        v = r.get(a)
        if v is None or ATOMS[a].kind in ("ind", "I", "phase", "sqrt") or v < e or e < 0:
            return None
        if v == e:
            del r[a]
        else:
            r[a] = v - e
    return tuple(sorted(r.items()))


def pcancel(p):
    """p with every q*inv(q) that was multiplied out put together again"""
    for aid in {a for m in p.t for a, e in m if ATOMS[a].kind == "inv" and e >= 1}:
        D = ATOMS[aid].args[0]
        if len(D.t) > 12:
            continue
        rest, q = {}, {}
        for m, c in p.t.items():
            e = dict(m).get(aid, 0)
            if e >= 1:
                r = dict(m)
                if e == 1:
                    del r[aid]
                else:
                    r[aid] = e - 1
                q[tuple(sorted(r.items()))] = c
            else:
                rest[m] = c
        lm = max(D.t)
        lc = D.t[lm]
        quo = {}
        rem = Poly(dict(q))
        for _ in range(len(q) + 1):
            if not rem.t:
                break
            for m in rem.t:
                d = _mdiv(m, lm)
                if d is not None and all(tuple(sorted(_mmul(d, x)[1])) in rem.t for x in D.t):
                    c = rem.t[m] / lc
                    break
            else:
                break
            t = Poly({d: c})
            quo[d] = quo.get(d, 0) + c
            rem = psub(rem, pmul(t, D))
        if quo and not rem.t:
            p = padd(Poly(rest), Poly(quo))
    return p


def floor_poly(p):
    p = pcancel(p)
    c = p.const()
    if c is not None:
        return pconst(math.floor(c))
    # pull out integer part of constant term and integer atoms
    t = {}
    out = ZERO
    for m, c in p.t.items():
        if c.denominator == 1 and all(ATOMS[a].integer and isinstance(e, int) and e > 0 or ATOMS[a].kind == "ind" for a, e in m):
            out = padd(out, Poly({m: c}))
        elif not m:
            f = Fr(math.floor(c))
            if f:
                out = padd(out, pconst(f))
            if c - f:
                t[m] = c - f
        else:
            t[m] = c
    if not t:
        return out
    q = Poly(t)
    if not pvars_any(q):
        v = peval(q, {})
        if abs(v - round(v)) > 1e-7:
            return padd(out, pconst(math.floor(v)))
    lo, hi = pbounds(q)
    if lo is not None and hi is not None and hi < math.floor(lo) + 1:
        return padd(out, pconst(math.floor(lo)))
    return padd(out, fn_poly("floor", q, integer=True))


FN_EVAL["floor"] = lambda x: float(math.floor(x))
FN_AXIOM["floor"] = lambda z, x: [z <= x, x < z + 1]
FN_EVAL["log"] = lambda x: math.log(x) if x > 0 else 0.0
FN_AXIOM["log"] = lambda z, x: [z <= x - 1, (z == 0) == (x == 1), (z > 0) == (x > 1)]
FN_EVAL["atan2"] = lambda y, x: math.atan2(y, x)
_PIHI, _PILO = Fr("3.14159265358980"), Fr("3.14159265358978")


def _ax_atan2(z, y, x):
    return [z <= zq(_PIHI), z >= -zq(_PIHI),
            z3.Implies(y > 0, z > 0), z3.Implies(y < 0, z < 0),
            z3.Implies(z3.And(y == 0, x > 0), z == 0)]


FN_AXIOM["atan2"] = _ax_atan2


def _rebuild_fn(A, args):
    if all(not isinstance(x, Poly) or x.const() is not None for x in args):
        try:
            return pconst(FN_EVAL[A.name](*[float(x.const()) if isinstance(x, Poly) else x for x in args]))
        except (NumFail, ValueError, OverflowError):
            pass
    if A.name == "floor":
        return floor_poly(args[0])
    if A.name == "log":
        return log_poly(args[0])
    return fn_poly(A.name, *args, nonneg=A.nonneg, pos=A.pos, integer=A.integer)


REBUILD = {
    "inv": lambda A, a: pinv(a[0]),
    "sqrt": lambda A, a: sqrt_poly(a[0]) if a[0].const() is None else pconst(math.sqrt(max(0.0, float(a[0].const())))),
    "fn": _rebuild_fn,
}
