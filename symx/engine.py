"""Path exploration, assertion checking and symbolic python scalars."""
import cmath
import math
import multiprocessing as mp
import numbers
import os
import random
import signal
import time
from fractions import Fraction as Fr

import numpy as rnp
import z3

from . import core as K
from .core import (B, FALSE, ONE, TRUE, ZERO, Bound, NumFail, PathAbort, Poly,
                   Unsupported, band, biff, bimp, bnot, bor, b_eq0, b_lt0,
                   ind, padd, pconst, pinv, pmul, pneg, pscale, psub)

CTX = None


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.goals = 0
        self.goals_trivial = 0
        self.cut = 0
        self.witnesses = 0
        self.validated = 0


class Failure:
    def __init__(self, label, env, detail="", kind="assert"):
        self.label, self.env, self.detail, self.kind = label, env, detail, kind


class Ctx:
    """One exploration of a harness: replays the harness once per path."""

    def __init__(self, stats=None, timeout_ms=20000, max_paths=4000, seed=1, deadline=None):
        self.st = stats or Stats()
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.seed = seed
        self.deadline = deadline
        self.qcache = {}
        self.feas_ms = 4000
        self.isolate = True
        self.pool = [{} for _ in range(24)]     # sample inputs, only used to show satisfiability
        self.rng = random.Random(seed)
        self.new_path([])

    def new_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []          # list of (bool, forced)
        self.path = []           # list of B
        self.known = {}
        self.inputs = {}         # name -> kind
        self.base = []           # assumptions on inputs
        self.env_hint = None
        self.alive = list(range(len(self.pool)))
        self.alive_n = 0

    def _alive(self):
        """sample inputs satisfying the path so far (numerically)"""
        while self.alive_n < len(self.path) and self.alive:
            f = self.path[self.alive_n]
            self.alive = [i for i in self.alive if self._samp(f, self.pool[i])]
            self.alive_n += 1
        return [self.pool[i] for i in self.alive]

    def _samp(self, f, env, tol=1e-7):
        for n, k in self.inputs.items():
            if n not in env:
                if k == "b":
                    env[n] = self.rng.random() < 0.3
                else:
                    v = _sample(K.ATOMKEY[("var", n)], self.rng)
                    env[n] = int(v) if k == "i" else v
        try:
            return f.eval(env, {}, tol)
        except (NumFail, OverflowError, ValueError, ZeroDivisionError):
            return False

    # -- formulas ---------------------------------------------------------
    def simp(self, b):
        if not self.known:
            return b
        return K.bsubst(b, {}, self.known)

    def simp_poly(self, p):
        if not self.known:
            return p
        return K.psubst(p, {}, self.known)

    def _learn(self, b, val=True):
        if b.op == "not":
            return self._learn(b.a[0], not val)
        if b.op == "and" and val or b.op == "or" and not val:
            for x in b.a:
                self._learn(x, val)
            return
        self.known[b] = val
        if b.op == "lt" and val:
            p = b.a[0]
            e = b_eq0(p)
            if e.op == "eq":
                self.known[e] = False
            n = b_lt0(pneg(p))
            if n.op == "lt":
                self.known[n] = False
        if b.op == "eq" and val:
            for q in (b.a[0], pneg(b.a[0])):
                n = b_lt0(q)
                if n.op == "lt":
                    self.known[n] = False

    def assume(self, b):
        b = as_b(b)
        b = self.simp(b)
        if b.op == "T":
            return
        if b.op == "F":
            raise PathAbort()
        self.path.append(b)
        self._learn(b)

    # -- solver -------------------------------------------------------------
    def check(self, forms, timeout=None, want_model=False, second=True):
        """sat / unsat / unknown of path-independent conjunction of formulas."""
        key = None
        if not want_model:
            key = frozenset(forms)
            r = self.qcache.get(key)
            if r is not None:
                return r, None
        if self.deadline and time.time() > self.deadline:
            raise Bound("time limit of the check reached")
        for f in forms:
            if f.op == "F":
                return "unsat", None
        t0 = time.time()
        tmo = int(timeout or self.timeout)
        if self.isolate and any(_hard(f) for f in forms):
            r, m = self._forked(forms, tmo, want_model, second)
        else:
            r, m = self._solve(forms, tmo, want_model, second)
        self.st.queries += 1
        self.st.solver_s += time.time() - t0
        setattr(self.st, r, getattr(self.st, r) + 1)
        if key is not None:
            self.qcache[key] = r
        return r, m

    def _solve(self, forms, tmo, want_model, second):
        tr = K.Tr()
        s = z3.Solver()
        s.set("timeout", tmo)
        s.set("random_seed", self.seed)
        zs = [tr.bool(f) for f in forms]
        if want_model:
            for n, k in self.inputs.items():
                if k != "b":
                    tr.poly(K.patom(K.ATOMKEY[("var", n)]))
        for z in zs + list(tr.ax):
            s.add(z)
        r = str(s.check())
        if r == "unknown" and second:
            s2 = z3.Then("simplify", "solve-eqs", "qfnra").solver()
            s2.set("timeout", tmo)
            for z in zs + list(tr.ax):
                s2.add(z)
            try:
                r2 = str(s2.check())
            except z3.Z3Exception:
                r2 = "unknown"
            if r2 != "unknown":
                r, s = r2, s2
        m = None
        if r == "sat" and want_model:
            m = self.model_env((s.model(), tr))
        return r, m

    def _forked(self, forms, tmo, want_model, second):
        """nonlinear query in a child process, so that its time limit is certain"""
        a, b = mp.Pipe(False)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                try:
                    out = self._solve(forms, tmo, want_model, second)
                except Unsupported as ex:
                    out = ("unsupported", str(ex))
                b.send(out)
                b.close()
            except BaseException:
                pass
            finally:
                os._exit(0)
        b.close()
        r, m = "unknown", None
        try:
            if a.poll(tmo / 1000.0 * (2 if second else 1) + 1.0):
                r, m = a.recv()
        except EOFError:
            pass
        finally:
            a.close()
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
        if r == "unsupported":
            raise Unsupported(m)
        return r, m

    def relevant(self, b):
        """Cone of influence: path formulas sharing variables with b."""
        need = set(b.vars())
        rest = list(self.path)
        out = []
        ch = True
        while ch:
            ch = False
            nxt = []
            for f in rest:
                v = f.vars()
                if not v or v & need:
                    need |= v
                    out.append(f)
                    ch = True
                else:
                    nxt.append(f)
            rest = nxt
        return out

    def _search(self, b, n=40, tol=1e-7):
        """local search around sample inputs satisfying the path (only ever shows satisfiability)"""
        al = self._alive()
        if not al or not self.inputs:
            return None
        names = sorted(x[1] if isinstance(x, tuple) else K.ATOMS[x].name for x in b.vars())
        names = [x for x in names if x in self.inputs] or list(self.inputs)
        rng = self.rng
        for t in range(n):
            env = dict(al[rng.randrange(len(al))])
            for nm in rng.sample(names, min(len(names), rng.randint(1, 3))):
                if self.inputs[nm] == "b":
                    env[nm] = not env.get(nm, False)
                else:
                    v = _sample(K.ATOMKEY[("var", nm)], rng)
                    env[nm] = int(v) if self.inputs[nm] == "i" else v
            if self._samp(b, env, tol) and all(self._samp(f, env) for f in self.path):
                self.pool.append(env)
                self.alive.append(len(self.pool) - 1)
                return env
        return None

    def feasible(self, b):
        for env in self._alive():
            if self._samp(b, env):
                return True
        if _hard(b) and self._search(b) is not None:
            return True
        r, _ = self.check(self.relevant(b) + [b], timeout=min(self.timeout, self.feas_ms), second=self.feas_ms >= 4000)
        return r != "unsat"

    def branch(self, b):
        b = as_b(b)
        b = self.simp(b)
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(v)
            f = b if v[0] else bnot(b)
            if not v[1]:
                self.path.append(f)
            self._learn(f)
            return v[0]
        ft = self.feasible(b)
        ff = self.feasible(bnot(b)) if ft else True
        self.pos += 1
        if ft and ff:
            v = (True, False)
        elif ft:
            v = (True, True)
        else:
            v = (False, True)
        self.prefix = self.prefix + [v]
        self.taken.append(v)
        f = b if v[0] else bnot(b)
        if not v[1]:
            self.path.append(f)
        self._learn(f)
        return v[0]

    def must(self, b):
        """True when the path implies b (no fork)."""
        b = self.simp(as_b(b))
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        for env in self._alive():
            if self._samp(bnot(b), env):
                return False
        r, _ = self.check(self.relevant(bnot(b)) + [bnot(b)], timeout=min(self.timeout, self.feas_ms), second=self.feas_ms >= 4000)
        return r == "unsat"

    def choose_int(self, p, lo=None, hi=None, maxn=64):
        """Concrete integer value of polynomial p on this path (forks over values)."""
        p = self.simp_poly(p)
        c = p.const()
        if c is not None:
            return int(c)
        for n in range(maxn):
            # candidate from the prefix is implicit: values are proposed deterministically
            v = self._propose(p)
            if v is None:
                raise PathAbort()
            if self.branch(b_eq0(psub(p, pconst(v)))):
                return int(v)
        raise Bound("more than %d integer values" % maxn)

    def _propose(self, p):
        # smallest value not yet excluded on this path, found by the solver
        key = ("prop", p, tuple(self.path))
        v = self.qcache.get(key)
        if v is not None:
            return v
        tr = K.Tr()
        t0 = time.time()
        o = z3.Solver()
        o.set("timeout", self.timeout)
        zp = tr.poly(p)
        rel = self.relevant(b_eq0(psub(p, K.patom(_TMP))))
        for f in rel:
            o.add(tr.bool(f))
        for a in tr.ax:
            o.add(a)
        best = None
        lo = None
        while True:
            r = o.check()
            self.st.queries += 1
            if str(r) != "sat":
                if str(r) == "unknown" and best is None:
                    raise Unsupported("cannot bound integer")
                break
            val = o.model().eval(zp, model_completion=True)
            best = _zval(val)
            if best.denominator != 1:
                raise Unsupported("non-integer index")
            o.add(zp < K.zq(best))
            if best < -1000:
                break
        self.st.solver_s += time.time() - t0
        if best is None:
            return None
        self.qcache[key] = int(best)
        return int(best)

    # -- goals ---------------------------------------------------------------
    def model_env(self, zm):
        m, tr = zm
        env = {}
        for name, kind in self.inputs.items():
            if kind == "b":
                v = m.eval(z3.Bool(name), model_completion=True)
                env[name] = bool(z3.is_true(v))
            elif kind == "i":
                v = m.eval(z3.Int(name), model_completion=True)
                env[name] = v.as_long()
            else:
                v = m.eval(z3.Real(name), model_completion=True)
                env[name] = _zval(v)
        return env

    def holds(self, forms, env, tol):
        memo = {}
        try:
            for f in forms:
                if not f.eval(env, memo, tol):
                    return False
        except (NumFail, OverflowError, ValueError, ZeroDivisionError):
            return None
        return True

    def find(self, extra, tries=24, tol=1e-6, timeout=None):
        """Find concrete input values satisfying path + extra, checked numerically
        with the true transcendental functions.  Returns (status, env)."""
        forms = self.path + [extra]
        for env in self._alive():
            if self._samp(extra, env, tol):
                return "sat", {k: v for k, v in env.items() if k in self.inputs}
        hints = self._soft_bounds()
        if self.alive and _hard(extra):
            env = self._search(extra, 60, tol)
            if env is not None:
                return "sat", {k: v for k, v in env.items() if k in self.inputs}
        r, m = self.check(forms + hints, want_model=True, timeout=timeout, second=timeout is None)
        if r != "sat":
            r, m = self.check(forms, want_model=True, timeout=timeout, second=timeout is None)
        if r == "unsat":
            return "unsat", None
        if r == "sat":
            env = dict(m)
            if self.holds(self.path, env, 1e-9) is not False and self.holds([extra], env, tol):
                return "sat", env
        # concretise transcendental arguments and let the solver find the rest
        rng = random.Random(self.seed)
        tv = set()
        for f in forms:
            _transc_vars(f, tv)
        allv = set(self.inputs)
        tv = [v for v in sorted(tv) if v in allv]
        base_env = dict(m) if m else {}
        for t in range(tries):
            env0 = {}
            names = list(tv) if t < tries * 2 // 3 else [n for n, k in self.inputs.items() if k != "b" and rng.random() < 0.8]
            for n in names:
                a = K.ATOMKEY.get(("var", n))
                env0[n] = _sample(a, rng, base_env.get(n) if t == 0 else None)
            try:
                fs = [K.bsubst(f, env0) for f in forms]
            except (NumFail, Unsupported, OverflowError, ZeroDivisionError, Bound):
                continue
            if any(f.op == "F" for f in fs):
                continue
            try:
                r2, m2 = self.check(fs, want_model=True, timeout=timeout or 5000)
            except (Unsupported,):
                continue
            if r2 != "sat":
                continue
            env = dict(m2)
            env.update(env0)
            if self.holds(self.path, env, 1e-9) is not False and self.holds([extra], env, tol):
                return "sat", env
        return "unknown" if r != "sat" else "abstract", base_env

    def _soft_bounds(self):
        out = []
        for n, k in self.inputs.items():
            if k == "f":
                a = K.ATOMKEY[("var", n)]
                if a.lo is None or a.lo < -50:
                    out.append(b_lt0(psub(pconst(-50), K.patom(a))))
                if a.hi is None or a.hi > 50:
                    if a.lo is None or a.lo < 50:
                        out.append(b_lt0(psub(K.patom(a), pconst(50))))
                if a.pos:
                    out.append(b_lt0(psub(pconst(Fr(1, 20)), K.patom(a)))) if (a.hi is None or a.hi > Fr(1, 10)) else None
        return out

    def prove(self, goal, label):
        """Discharge an assertion on the current path."""
        self.st.goals += 1
        g = self.simp(as_b(goal))
        if g.op == "T":
            self.st.goals_trivial += 1
            return None
        ng = bnot(g)
        r, _ = self.check(self.relevant(ng) + [ng])
        if r == "unsat":
            return None
        status, env = self.find(ng)
        if status == "unsat":
            return None
        return Failure(label, env, detail="%s: %s" % (status, g.str(2)[:400]), kind=status)


_TMP = K.atom(("tmp",), "const", "tmp0", val=0.0)


def _transc_vars(b, out):
    for p in _polys(b):
        _tv_poly(p, out)


def _polys(b):
    if b.op in ("lt", "eq"):
        yield b.a[0]
    elif b.op in ("and", "or", "not"):
        for x in b.a:
            yield from _polys(x)


def _tv_poly(p, out, seen=None):
    if seen is None:
        seen = set()
    for m in p.t:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            A = K.ATOMS[a]
            if A.kind in ("exp", "phase") or (A.kind == "fn" and A.name != "floor"):
                for v in K.atom_vars(A):
                    if not isinstance(v, tuple):
                        out.add(K.ATOMS[v].name)
            elif A.kind == "ind":
                for q in _polys(A.args[0]):
                    _tv_poly(q, out, seen)
            else:
                for x in A.args:
                    if isinstance(x, Poly):
                        _tv_poly(x, out, seen)


_HARD = {}


def _hard(f):
    r = _HARD.get(f)
    if r is None:
        if f.op in ("lt", "eq"):
            r = False
            for m in f.a[0].t:
                d = 0
                for a, e in m:
                    A = K.ATOMS[a]
                    d += abs(e) * (1 if A.kind in ("var", "ind", "I") else 0 if A.kind == "const" else 2)
                if d > 2:
                    r = True
                    break
        elif f.op in ("T", "F", "var"):
            r = False
        else:
            r = any(_hard(x) for x in f.a)
        _HARD[f] = r
    return r


def _sample(a, rng, near=None):
    if near is not None:
        return near
    if a.integer:
        lo = int(a.lo) if a.lo is not None else (1 if a.pos else -4)
        hi = int(a.hi) if a.hi is not None else lo + 6
        return rng.randint(lo, hi)
    lo = a.lo
    hi = a.hi
    if lo is None and hi is None:
        lo, hi = (Fr(1, 10), Fr(3)) if a.pos else (Fr(-3), Fr(3))
    elif lo is None:
        lo = hi - 3 if not a.pos else hi / 20
    elif hi is None:
        hi = lo + max(3, abs(lo) * 2)
    if a.pos and lo <= 0:
        lo = hi / 20
    return Fr(lo) + (Fr(hi) - Fr(lo)) * Fr(rng.randint(1, 997), 998)


def _zval(v):
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fr(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fr(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %s" % v)


def ctx():
    if CTX is None:
        raise Unsupported("symbolic decision outside an exploration")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ----------------------------------------------------------------------------
# extended reals
class SF:
    """Extended real: polynomial value with NaN / +inf / -inf conditions."""
    __slots__ = ("v", "nan", "pi", "ni")

    def __init__(self, v, nan=FALSE, pi=FALSE, ni=FALSE):
        self.v, self.nan, self.pi, self.ni = v, nan, pi, ni

    def plain(self):
        return self.nan.op == "F" and self.pi.op == "F" and self.ni.op == "F"

    def noinf(self):
        return self.pi.op == "F" and self.ni.op == "F"

    def fin(self):
        return bnot(bor(self.nan, self.pi, self.ni))

    def __repr__(self):
        s = repr(self.v)
        if not self.plain():
            s += " {nan:%s inf:%s/%s}" % (self.nan, self.pi, self.ni)
        return s


SF0 = SF(ZERO)
SF1 = SF(ONE)


def sf_const(x):
    if isinstance(x, (float, rnp.floating)):
        x = float(x)
        if x != x:
            return SF(ZERO, TRUE)
        if x == math.inf:
            return SF(ZERO, FALSE, TRUE)
        if x == -math.inf:
            return SF(ZERO, FALSE, FALSE, TRUE)
        # irrational constants that code reaches as floats
        s = _known_const(x)
        if s is not None:
            return SF(s)
        return SF(pconst(x))
    return SF(pconst(x))


def _known_const(x):
    return None


def sf_add(a, b):
    v = padd(a.v, b.v)
    if a.plain() and b.plain():
        return SF(v)
    nan = bor(a.nan, b.nan)
    if a.noinf() and b.noinf():
        return SF(v, nan)
    nan = bor(nan, band(a.pi, b.ni), band(a.ni, b.pi))
    ok = bnot(nan)
    return SF(v, nan, band(bor(a.pi, b.pi), ok), band(bor(a.ni, b.ni), ok))


def sf_neg(a):
    return SF(pneg(a.v), a.nan, a.ni, a.pi)


def sf_sub(a, b):
    return sf_add(a, sf_neg(b))


def sf_mul(a, b):
    v = pmul(a.v, b.v)
    if a.plain() and b.plain():
        return SF(v)
    nan = bor(a.nan, b.nan)
    if a.noinf() and b.noinf():
        return SF(v, nan)
    ai, bi = bor(a.pi, a.ni), bor(b.pi, b.ni)
    az = band(b_eq0(a.v), bnot(ai), bnot(a.nan))
    bz = band(b_eq0(b.v), bnot(bi), bnot(b.nan))
    nan = bor(nan, band(ai, bz), band(bi, az))
    apos, aneg = sf_pos(a), sf_neg_b(a)
    bpos, bneg = sf_pos(b), sf_neg_b(b)
    i = band(bor(ai, bi), bnot(nan))
    return SF(v, nan, band(i, bor(band(apos, bpos), band(aneg, bneg))),
              band(i, bor(band(apos, bneg), band(aneg, bpos))))


def sf_pos(a):
    return bor(a.pi, band(b_lt0(pneg(a.v)), bnot(a.ni), bnot(a.nan)))


def sf_neg_b(a):
    return bor(a.ni, band(b_lt0(a.v), bnot(a.pi), bnot(a.nan)))


def sf_zero(a):
    return band(b_eq0(a.v), a.fin())


def sf_div(a, b):
    z = b_eq0(b.v)
    if z.op != "F" and CTX is not None:
        z = CTX.simp(z)
        if z.op not in ("T", "F"):
            c = band(z, b.fin())
            if CTX.must(bnot(c)):
                z = FALSE
    if z.op == "F" and a.plain() and b.plain():
        return SF(pmul(a.v, pinv(b.v)))
    iv = pinv(b.v) if z.op != "T" else ZERO
    v = pmul(a.v, iv)
    z = band(z, b.fin())
    bi = bor(b.pi, b.ni)
    ai = bor(a.pi, a.ni)
    nan = bor(a.nan, b.nan, band(ai, bi), band(z, sf_zero(a)))
    nn = bnot(nan)
    apos, aneg = sf_pos(a), sf_neg_b(a)
    bneg = sf_neg_b(b)
    pi = band(nn, bor(band(z, apos), band(a.pi, bnot(bneg), bnot(z)), band(a.ni, bneg)))
    ni = band(nn, bor(band(z, aneg), band(a.ni, bnot(bneg), bnot(z)), band(a.pi, bneg)))
    if bi.op != "F":
        v = pmul(v, ind(bnot(bi)))
    return SF(v, nan, pi, ni)


def sf_lt(a, b):
    d = b_lt0(psub(a.v, b.v))
    if a.plain() and b.plain():
        return d
    if a.noinf() and b.noinf():
        return band(d, bnot(a.nan), bnot(b.nan))
    ok = band(bnot(a.nan), bnot(b.nan))
    afin, bfin = bnot(bor(a.pi, a.ni)), bnot(bor(b.pi, b.ni))
    return band(ok, bor(band(afin, bfin, d), band(a.ni, bnot(b.ni)), band(b.pi, bnot(a.pi))))


def sf_eq(a, b):
    d = b_eq0(psub(a.v, b.v))
    if a.plain() and b.plain():
        return d
    ok = band(bnot(a.nan), bnot(b.nan))
    if a.noinf() and b.noinf():
        return band(d, ok)
    afin, bfin = bnot(bor(a.pi, a.ni)), bnot(bor(b.pi, b.ni))
    return band(ok, bor(band(afin, bfin, d), band(a.pi, b.pi), band(a.ni, b.ni)))


def sf_le(a, b):
    return bor(sf_lt(a, b), sf_eq(a, b))


def sf_ite(c, a, b):
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if CTX is not None:
        c = CTX.simp(c)
        if c.op == "T":
            return a
        if c.op == "F":
            return b
    i = ind(c)
    v = b.v if a.v == b.v else padd(b.v, pmul(i, psub(a.v, b.v)))

    def bi(x, y):
        return x if x == y else bor(band(c, x), band(bnot(c), y))
    return SF(v, bi(a.nan, b.nan), bi(a.pi, b.pi), bi(a.ni, b.ni))


def sf_fn(a, f, pinf=None, ninf=None):
    """Apply polynomial function; infinite arguments give the stated limit or NaN."""
    if a.plain():
        return SF(f(a.v))
    nan = a.nan
    if a.noinf():
        return SF(f(a.v), nan)
    r = SF(f(a.v), nan)
    for flag, lim in ((a.pi, pinf), (a.ni, ninf)):
        if flag.op == "F":
            continue
        l = SF(ZERO, TRUE) if lim is None else sf_const(lim)
        r = sf_ite(flag, l, r)
    return r


def sf_sqrt(a):
    r = sf_fn(a, K.sqrt_poly, pinf=math.inf)
    neg = b_lt0(a.v)
    if neg.op != "F":
        if CTX is not None and CTX.must(bimp(a.fin(), bnot(neg))):
            return r
        r = SF(r.v, bor(r.nan, band(neg, a.fin())), r.pi, r.ni)
    return r


def sf_log(a):
    r = sf_fn(a, K.log_poly, pinf=math.inf)
    z = b_eq0(a.v)
    neg = b_lt0(a.v)
    if z.op == "F" and neg.op == "F":
        return r
    if CTX is not None and CTX.must(bimp(a.fin(), b_lt0(pneg(a.v)))):
        return r
    return SF(r.v, bor(r.nan, band(neg, a.fin())), r.pi, bor(r.ni, band(z, a.fin())))


def sf_abs(a):
    return SF(K.pabs(a.v), a.nan, bor(a.pi, a.ni), FALSE)


def sf_floor(a):
    return sf_fn(a, K.floor_poly, pinf=math.inf, ninf=-math.inf)


# ----------------------------------------------------------------------------
# python-level symbolic scalars
def as_b(x):
    if isinstance(x, B):
        return x
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, (bool, rnp.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, Num):
        return x.nonzero()
    if isinstance(x, (int, float)):
        return TRUE if x else FALSE
    raise Unsupported("bool of %r" % type(x))


class SBase:
    __array_ufunc__ = None
    __slots__ = ()

    def item(self, *a):
        return self

    def tolist(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def squeeze(self, *a, **k):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SBool(SBase):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().branch(self.b)

    def num(self):
        return Num("i", SF(ind(self.b)))

    def _b(self, o):
        if isinstance(o, SBool):
            return o.b
        if isinstance(o, (bool, rnp.bool_)):
            return TRUE if o else FALSE
        return None

    def __and__(self, o):
        y = self._b(o)
        return NotImplemented if y is None else SBool(band(self.b, y))

    __rand__ = __and__

    def __or__(self, o):
        y = self._b(o)
        return NotImplemented if y is None else SBool(bor(self.b, y))

    __ror__ = __or__

    def __xor__(self, o):
        y = self._b(o)
        return NotImplemented if y is None else SBool(bnot(biff(self.b, y)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(bnot(self.b))

    def __eq__(self, o):
        y = self._b(o)
        if y is not None:
            return mkbool(biff(self.b, y))
        return self.num() == o

    def __ne__(self, o):
        y = self._b(o)
        if y is not None:
            return mkbool(bnot(biff(self.b, y)))
        return self.num() != o

    __hash__ = None

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def astype(self, dt):
        if rnp.dtype(dt).kind == "b":
            return self
        return self.num().astype(dt)

    @property
    def dtype(self):
        return rnp.dtype(bool)

    def all(self, *a, **k):
        return self

    any = all

    def sum(self, *a, **k):
        return self.num()

    def __repr__(self):
        return "SBool(%s)" % self.b

    def __format__(self, spec):
        return "<sym>"


def _boolnum(name):
    def f(self, o):
        return getattr(self.num(), name)(o)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
           "__rtruediv__", "__lt__", "__le__", "__gt__", "__ge__", "__pow__", "__floordiv__", "__mod__"):
    setattr(SBool, _n, _boolnum(_n))


def mkbool(b):
    """python bool when decided, SBool otherwise"""
    if CTX is not None:
        b = CTX.simp(b)
    if b.op == "T":
        return True
    if b.op == "F":
        return False
    return SBool(b)


_KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


DISPLAY = False    # numbers shown with fewer digits stand for themselves (their rounding is for the reader)
TOKENS = None      # values written to modelled text files, while there is a file model


def token(x):
    """text standing for an exactly written value"""
    TOKENS.append(x)
    return "\u27e6%d\u27e7" % (len(TOKENS) - 1)


def untoken(s):
    s = s.strip()
    if s[:1] == "\u27e6" and s[-1:] == "\u27e7":
        return TOKENS[int(s[1:-1])]
    return None


class Num(SBase):
    __slots__ = ("k", "re", "im", "dt")

    def __init__(self, k, re, im=None, dt=None):
        self.k, self.re, self.im, self.dt = k, re, im, dt

    # -- queries ---------------------------------------------------------
    def isconst(self):
        """python number if decided, else None"""
        r = _sfconst(self.re)
        if r is None:
            return None
        if self.k == "c":
            i = _sfconst(self.im)
            if i is None:
                return None
            return complex(r, i)
        if self.k == "i":
            return int(r) if isinstance(r, Fr) or float(r).is_integer() else r
        return float(r)

    def nonzero(self):
        z = bnot(band(b_eq0(self.re.v), self.re.fin()))
        if self.k == "c":
            z = bor(z, bnot(band(b_eq0(self.im.v), self.im.fin())))
        return z

    def __bool__(self):
        return ctx().branch(self.nonzero())

    def __float__(self):
        c = self.isconst()
        if c is not None and not isinstance(c, complex):
            return float(c)
        v = _numeric(self)
        if v is not None:
            return v
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        c = self.isconst()
        if c is None:
            raise Unsupported("complex() of a symbolic value")
        return complex(c)

    def __int__(self):
        c = self.isconst()
        if c is not None:
            return int(c)
        return int(num_trunc(self).__index__())

    def __index__(self):
        if self.k not in ("i",):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().choose_int(self.re.v)

    def __hash__(self):
        c = self.isconst()
        if c is not None:
            return hash(c)
        return hash((self.k, self.re.v, None if self.im is None else self.im.v))

    def __round__(self, n=None):
        r = num_round(self, n or 0)
        if n is None:
            return Num("i", r.re)
        return r

    def __trunc__(self):
        return num_trunc(self)

    def __floor__(self):
        return Num("i", sf_floor(self.re))

    def __ceil__(self):
        return Num("i", sf_neg(sf_floor(sf_neg(self.re))))

    def __abs__(self):
        return num_abs(self)

    def __repr__(self):
        c = self.isconst()
        if c is not None:
            return repr(c)
        return "<%s %s%s>" % (self.k, self.re, "" if self.im is None else " + i*(%s)" % self.im)

    def __str__(self):
        if TOKENS is not None and self.isconst() is None:
            return token(self)
        return self.__repr__()

    def __format__(self, spec):
        c = self.isconst()
        if c is not None:
            try:
                return format(c, spec)
            except ValueError:
                return repr(c)
        if TOKENS is not None and (not spec or spec[-1] in ("sgef" if DISPLAY else "s")):
            return token(self)
        v = _numeric(self)
        return "<sym>" if v is None else format(v, spec)

    @property
    def real(self):
        return Num("f" if self.k == "c" else self.k, self.re)

    @property
    def imag(self):
        return Num("f", self.im) if self.k == "c" else Num(self.k, SF0)

    def conjugate(self):
        if self.k != "c":
            return self
        return Num("c", self.re, sf_neg(self.im))

    conj = conjugate

    def is_integer(self):
        return mkbool(b_eq0(psub(self.re.v, K.floor_poly(self.re.v))))

    @property
    def dtype(self):
        if self.dt is not None:
            return self.dt
        return rnp.dtype({"i": "int64", "f": "float64", "c": "complex128"}[self.k])

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def astype(self, dt, **k):
        return num_cast(self, rnp.dtype(dt))

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        return _arith(self, o, num_add)

    def __radd__(self, o):
        return _arith(o, self, num_add)

    def __sub__(self, o):
        return _arith(self, o, num_sub)

    def __rsub__(self, o):
        return _arith(o, self, num_sub)

    def __mul__(self, o):
        return _arith(self, o, num_mul)

    def __rmul__(self, o):
        return _arith(o, self, num_mul)

    def __truediv__(self, o):
        return _arith(self, o, num_div_py)

    def __rtruediv__(self, o):
        return _arith(o, self, num_div_py)

    def __floordiv__(self, o):
        return _arith(self, o, num_floordiv)

    def __rfloordiv__(self, o):
        return _arith(o, self, num_floordiv)

    def __mod__(self, o):
        return _arith(self, o, num_mod)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _arith(o, self, num_mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return _arith(self, o, num_pow)

    def __rpow__(self, o):
        return _arith(o, self, num_pow)

    def __neg__(self):
        return num_neg(self)

    def __pos__(self):
        return self

    def __lt__(self, o):
        return _cmp(self, o, num_lt_b)

    def __le__(self, o):
        return _cmp(self, o, num_le_b)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: num_lt_b(b, a))

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: num_le_b(b, a))

    def __eq__(self, o):
        if not _isnum(o):
            return False if o is None or isinstance(o, (str, tuple, list, dict)) else NotImplemented
        return _cmp(self, o, num_eq_b)

    def __ne__(self, o):
        if not _isnum(o):
            return True if o is None or isinstance(o, (str, tuple, list, dict)) else NotImplemented
        return _cmp(self, o, lambda a, b: bnot(num_eq_b(a, b)))


def _numeric(x):
    """float value of an expression in constants only (pi, sqrt(3), ...)"""
    if x.k == "c" or not x.re.plain():
        return None
    if K.pvars_any(x.re.v):
        return None
    return float(K._real(K.peval(x.re.v, {})))


def _sfconst(s):
    if s.nan.op == "T":
        return math.nan
    if s.pi.op == "T":
        return math.inf
    if s.ni.op == "T":
        return -math.inf
    if not s.plain():
        return None
    return s.v.const()


def _isnum(o):
    return isinstance(o, (Num, SBool, numbers.Number, rnp.generic)) and not isinstance(o, rnp.ndarray)


def mk(o):
    """Convert a python/numpy scalar to Num."""
    if isinstance(o, Num):
        return o
    if isinstance(o, SBool):
        return o.num()
    if isinstance(o, (bool, rnp.bool_)):
        return Num("i", SF1 if o else SF0)
    if isinstance(o, (int, rnp.integer)):
        return Num("i", SF(pconst(int(o))))
    if isinstance(o, Fr):
        return Num("f", SF(pconst(o)))
    if isinstance(o, (float, rnp.floating)):
        return Num("f", sf_const(o))
    if isinstance(o, (complex, rnp.complexfloating)):
        return Num("c", sf_const(o.real), sf_const(o.imag))
    raise Unsupported("number from %r" % type(o))


def _arith(a, b, f):
    if not (_isnum(a) and _isnum(b)):
        return NotImplemented
    r = f(mk(a), mk(b))
    da = a.dt if isinstance(a, Num) else None
    return r


class LazyExt(Num):
    """largest/smallest of several numbers, resolved (forking) only when its value is needed"""
    __slots__ = ("items", "big", "pick", "val")

    def __init__(self, k, items, big, pick):
        self.k, self.im, self.dt = k, None, None
        self.items, self.big, self.pick, self.val = items, big, pick, None

    @property
    def re(self):
        if self.val is None:
            self.val = self.pick().re
        return self.val


def _lazy(a):
    if type(a) is not LazyExt or a.val is not None:
        return False
    # already decided by the path?
    best = a.items[0]
    for y in a.items[1:]:
        g = CTX.simp(sf_lt(best.re, y.re) if a.big else sf_lt(y.re, best.re))
        if g.op == "T":
            best = y
        elif g.op != "F":
            return True
    a.val = best.re
    return False


class LazyNum(Num):
    """a real number computed (forking) only when its value is needed"""
    __slots__ = ("thunk", "val")

    def __init__(self, k, thunk):
        self.k, self.im, self.dt = k, None, None
        self.thunk, self.val = thunk, None

    @property
    def re(self):
        if self.val is None:
            self.val = self.thunk().re
        return self.val

    def __deepcopy__(self, memo):
        return self


def _unforced(a):
    return type(a) is LazyNum and a.val is None


def num_lt_b(a, b):
    if _lazy(a):
        return (band if a.big else bor)(*[num_lt_b(x, b) for x in a.items])
    if _lazy(b):
        return (bor if b.big else band)(*[num_lt_b(a, x) for x in b.items])
    return sf_lt(a.re, b.re)


def num_le_b(a, b):
    if _lazy(a):
        return (band if a.big else bor)(*[num_le_b(x, b) for x in a.items])
    if _lazy(b):
        return (bor if b.big else band)(*[num_le_b(a, x) for x in b.items])
    return sf_le(a.re, b.re)


def _cmp(a, b, f):
    if not _isnum(b):
        return NotImplemented
    return mkbool(f(mk(a), mk(b)))


def _kk(a, b):
    return a.k if _KORD[a.k] >= _KORD[b.k] else b.k


def _im(a):
    return a.im if a.k == "c" else SF0


def num_add(a, b):
    if (_unforced(a) or _unforced(b)) and a.k != "c" and b.k != "c":
        return LazyNum(_kk(a, b), lambda: num_add(_forced(a), _forced(b)))
    k = _kk(a, b)
    if k == "c":
        return Num("c", sf_add(a.re, b.re), sf_add(_im(a), _im(b)))
    return Num(k, sf_add(a.re, b.re))


def _forced(a):
    return Num(a.k, a.re) if _unforced(a) else a


def num_neg(a):
    if _unforced(a):
        return LazyNum(a.k, lambda: num_neg(_forced(a)))
    return Num(a.k, sf_neg(a.re), None if a.im is None else sf_neg(a.im))


def num_sub(a, b):
    if (_unforced(a) or _unforced(b)) and a.k != "c" and b.k != "c":
        return LazyNum(_kk(a, b), lambda: num_sub(_forced(a), _forced(b)))
    return num_add(a, num_neg(b))


def num_mul(a, b):
    if (_unforced(a) or _unforced(b)) and a.k != "c" and b.k != "c":
        return LazyNum(_kk(a, b), lambda: num_mul(_forced(a), _forced(b)))
    k = _kk(a, b)
    if k == "c":
        ai, bi = _im(a), _im(b)
        return Num("c", sf_sub(sf_mul(a.re, b.re), sf_mul(ai, bi)),
                   sf_add(sf_mul(a.re, bi), sf_mul(ai, b.re)))
    return Num(k, sf_mul(a.re, b.re))


def num_div(a, b):
    """numpy division (no exception on zero)"""
    if (_unforced(a) or _unforced(b)) and a.k != "c" and b.k != "c":
        return LazyNum("f", lambda: num_div(_forced(a), _forced(b)))
    k = _kk(a, b)
    if k == "c":
        if b.k != "c":
            return Num("c", sf_div(a.re, b.re), sf_div(_im(a), b.re))
        d = sf_add(sf_mul(b.re, b.re), sf_mul(b.im, b.im))
        n = num_mul(a, num_conj(b))
        return Num("c", sf_div(n.re, d), sf_div(_im(n), d))
    return Num("f", sf_div(a.re, b.re))


def num_conj(a):
    return a.conjugate()


def num_div_py(a, b):
    # Scalars in the code under test are numpy scalars almost everywhere; numpy
    # semantics (inf/nan on division by zero) are used for all of them.
    return num_div(a, b)


def num_floordiv(a, b):
    q = sf_div(a.re, b.re)
    return Num(_kk(a, b), sf_floor(q))


def num_mod(a, b):
    q = sf_floor(sf_div(a.re, b.re))
    return Num(_kk(a, b), sf_sub(a.re, sf_mul(b.re, q)))


def num_pow(a, b):
    n = b.isconst()
    if n is not None and not isinstance(n, complex):
        fn = Fr(n) if isinstance(n, int) else K._q(n) if n == n and abs(n) != math.inf else None
        if fn is not None:
            k = a.k if (a.k != "i" or (b.k == "i" and fn >= 0)) else "f"
            if b.k == "f" and a.k == "i":
                k = "f"
            if fn.denominator == 1 and abs(fn) <= 40:
                e = int(fn)
                r = mk(1)
                x = a
                for _ in range(abs(e)):
                    r = num_mul(r, x)
                if e < 0:
                    r = num_div(mk(1), r)
                if e == 0:
                    r = mk(1)
                return Num(k, r.re, r.im if k == "c" else None) if r.k != "c" else r
            if a.k != "c" and fn.denominator == 2:
                s = Num("f", sf_sqrt(a.re))
                return num_pow(s, mk(int(fn * 2)))
    if a.k == "c" or b.k == "c":
        raise Unsupported("complex power")
    # a**b = exp(b*log a), a>0; 0**b -> handled for b>0
    z = b_eq0(a.re.v)
    r = Num("f", sf_exp(sf_mul(b.re, sf_log(a.re))))
    return r


def sf_exp(a):
    return sf_fn(a, K.exp_poly, pinf=math.inf, ninf=0.0)


def num_eq_b(a, b):
    r = sf_eq(a.re, b.re)
    if a.k == "c" or b.k == "c":
        r = band(r, sf_eq(_im(a), _im(b)))
    return r


def num_abs(a):
    if _unforced(a):
        return LazyNum(a.k, lambda: num_abs(_forced(a)))
    if a.k == "c":
        # a sum of squares is never negative
        return Num("f", sf_fn(sf_add(sf_mul(a.re, a.re), sf_mul(a.im, a.im)), K.sqrt_poly, pinf=math.inf))
    return Num(a.k, sf_abs(a.re))


def num_trunc(a):
    """int(): towards zero"""
    if a.k == "i":
        return a
    x = a.re
    neg = sf_lt(x, SF0)
    fl = sf_floor(x)
    if neg.op == "F":
        return Num("i", fl)
    ce = sf_neg(sf_floor(sf_neg(x)))
    return Num("i", sf_ite(neg, ce, fl))


def num_round(a, n=0):
    """round half to even"""
    s = Fr(10) ** n if not isinstance(n, Num) else None
    x = sf_mul(a.re, SF(pconst(s)))
    c = x.v.const() if x.plain() else None
    if c is not None:
        return Num(a.k, SF(pconst(Fr(round(c)) / s)))
    f = sf_floor(sf_add(x, SF(pconst(K.HALF))))
    # tie: x+1/2 is an integer and that integer is odd -> f-1
    tie = b_eq0(psub(padd(x.v, pconst(K.HALF)), f.v))
    if tie.op != "F":
        odd = bnot(b_eq0(psub(f.v, pscale(K.floor_poly(pscale(f.v, K.HALF)), Fr(2)))))
        f = sf_ite(band(tie, odd), sf_sub(f, SF1), f)
    return Num(a.k, sf_mul(f, SF(pconst(1 / s))))


def num_cast(x, dt):
    if isinstance(x, (SBool,)):
        if dt.kind == "b":
            return x
        x = x.num()
    if isinstance(x, (bool, rnp.bool_)) and dt.kind == "b":
        return bool(x)
    x = mk(x)
    k = dt.kind
    if k == "b":
        return mkbool(x.nonzero())
    if k in "iu":
        if x.k == "c":
            x = x.real
        r = num_trunc(x)
        return Num("i", r.re, dt=dt)
    if k == "f":
        if _unforced(x):
            return x
        return Num("f", x.re, dt=dt)
    if k == "c":
        return Num("c", x.re, _im(x), dt=dt)
    if k == "O":
        return x
    raise Unsupported("cast to %s" % dt)


def num_ite(c, a, b):
    """c is a B; a, b scalars"""
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if isinstance(a, (SBool, bool, rnp.bool_)) and isinstance(b, (SBool, bool, rnp.bool_)):
        x, y = as_b(a), as_b(b)
        return mkbool(bor(band(c, x), band(bnot(c), y)))
    a, b = mk(a), mk(b)
    k = _kk(a, b)
    if k == "c":
        return Num("c", sf_ite(c, a.re, b.re), sf_ite(c, _im(a), _im(b)))
    return Num(k, sf_ite(c, a.re, b.re))


def isnan_b(x):
    if isinstance(x, (SBool, bool)):
        return FALSE
    x = mk(x)
    r = x.re.nan
    if x.k == "c":
        r = bor(r, x.im.nan)
    return r


def isinf_b(x):
    if isinstance(x, (SBool, bool)):
        return FALSE
    x = mk(x)
    r = bor(x.re.pi, x.re.ni)
    if x.k == "c":
        r = bor(r, x.im.pi, x.im.ni)
    return r


# ----------------------------------------------------------------------------
# agreement of two values up to coefficient rounding
def _drop_small(d, a, b, rel=1e-9):
    if not d.t:
        return d
    t = {}
    for m, c in d.t.items():
        ca, cb = a.t.get(m), b.t.get(m)
        if ca is not None and cb is not None and abs(c) <= Fr(rel) * max(abs(ca), abs(cb)):
            continue
        t[m] = c
    return Poly(t) if len(t) != len(d.t) else d


def sf_close(a, b, rel=1e-9):
    """Formula: the two extended reals are the same (NaN equals NaN)."""
    va, vb = a.v, b.v
    if CTX is not None:
        va, vb = CTX.simp_poly(va), CTX.simp_poly(vb)
    va, vb = K.psnap(va), K.psnap(vb)
    d = _drop_small(psub(va, vb), va, vb, rel)
    if d.t and K.has_kind(d, ("inv",)):
        # clear the same denominators on both sides (told apart by a mark) so that rounding can be judged
        try:
            mark = K.patom(K.atom(("var", "#lhs"), "var", "#lhs", (), pos=True))
            d2 = K.clear_all(psub(K.pmul(va, mark), vb))
            if d2.t:
                mid = next(iter(mark.t))[0][0]
                l, r = {}, {}
                for m, c in d2.t.items():
                    k = tuple(x for x in m if x[0] != mid)
                    if len(k) != len(m):
                        l[k] = c
                    else:
                        r[k] = -c
                l, r = Poly(l), Poly(r)
                d = _drop_small(psub(l, r), l, r, rel)
            else:
                d = d2
        except Bound:
            pass
    if d.t and not K.pvars_any(d) and not K.pvars_any(va) and not K.pvars_any(vb):
        # constants (pi, sqrt 3, ...): compared as numbers
        try:
            x, y = (float(K._real(K.peval(v, {}))) for v in (va, vb))
            size = max(abs(K.peval(Poly({m: c}), {})) for v in (va, vb) for m, c in v.t.items())
            veq = TRUE if abs(x - y) <= rel * max(abs(x), abs(y)) + 1e-14 * size else FALSE
        except (ArithmeticError, ValueError, TypeError):
            veq = b_eq0(d)
    else:
        veq = b_eq0(d) if d.t else TRUE
    if a.plain() and b.plain():
        return veq
    nn = biff(a.nan, b.nan)
    if a.noinf() and b.noinf():
        return band(nn, bor(a.nan, veq))
    return band(nn, bor(a.nan, band(biff(a.pi, b.pi), biff(a.ni, b.ni),
                                    bor(a.pi, a.ni, veq))))


def num_close(a, b, rel=1e-9):
    if isinstance(a, (SBool, bool, rnp.bool_)) and isinstance(b, (SBool, bool, rnp.bool_)):
        return biff(as_b(a), as_b(b))
    a, b = mk(a), mk(b)
    r = sf_close(a.re, b.re, rel)
    if a.k == "c" or b.k == "c":
        r = band(r, sf_close(_im(a), _im(b), rel))
    return r
