"""Contract contexts.  A contract is a Python function body(S) that states inputs, preconditions, calls the real code and
states postconditions.  It runs in two modes:

* symbolic (SymCtx): inputs are arbitrary values of unbounded size; every S.ensure / S.forall is a proof obligation.
* concrete (ConCtx): inputs are drawn (or taken from a verifier counterexample) and the same contract is checked on the
  unmodified code under CPython.  This is used for replay, for the bounded stand-in, and as a cross-check of the verifier.
"""
import math
import random
import types
import warnings
import numpy as np
import z3
from fractions import Fraction
from .terms import *  # noqa
from . import terms as T
from .sym import *  # noqa
from .sym import (CUR, binop, lift, lift_arr, num, truth, ite, rng, same_dom, t_cmp, _ok_scalar)
from . import npmodel, prover
from .engine import SEnum


class Skip(BaseException):
    """precondition false for this concrete draw"""


class Violation(BaseException):
    def __init__(self, name, detail=''):
        self.name, self.detail = name, detail


def _isarr(x):
    return isinstance(x, (SArr, np.ndarray, list, tuple))


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        eng.ctx = self
        self.reached = 0
        eng.inputs = {}
        self.inputs = eng.inputs

    # ---- inputs
    def int(self, name, lo=None, hi=None, **kw):
        v = z3.Int('in!' + name)
        if lo is not None:
            self.e.assume(v >= num(lo))
        if hi is not None:
            self.e.assume(v <= num(hi))
        self.inputs[name] = ('int', v)
        return SV(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, **kw):
        v = z3.Real('in!' + name)
        self._bounds(self.e.assume, v, lo, hi, lo_open, hi_open)
        self.inputs[name] = ('real', v)
        return SV(v)

    def _bounds(self, add, v, lo, hi, lo_open, hi_open):
        if lo is not None:
            l = to_real(num(lo)) if v.sort() == R else num(lo)
            add(v > l if lo_open else v >= l)
        if hi is not None:
            h = to_real(num(hi)) if v.sort() == R else num(hi)
            add(v < h if hi_open else v <= h)

    def bool(self, name):
        k = self.e.choose(2)
        self.inputs[name] = ('choice', k)
        return bool(k)

    def sbool(self, name):
        v = z3.Bool('in!' + name)
        self.inputs[name] = ('bool', v)
        return SV(v)

    def choice(self, name, options):
        k = self.e.choose(len(options))
        self.inputs[name] = ('choice', k)
        return options[k]

    def str(self, name, pool, others=True):
        v = z3.Int('in!' + name)
        codes = [strcode(p) for p in pool]
        if not others:
            self.e.assume(z3.Or(*[v == c for c in codes]))
        self.inputs[name] = ('str', v)
        return SV(v, 's')

    def arr(self, name, n, kind='r', lo=None, hi=None, lo_open=False, hi_open=False, order=None, distinct=False,
            pool=None, **kw):
        f = z3.Function('in!' + name, I, {'r': R, 'i': I, 'b': B, 's': I}[kind])
        nm = 'in!' + name
        ax = []
        nt = num(lift(n))
        if lo is not None or hi is not None:
            lo_t = None if lo is None else lift(lo)
            hi_t = None if hi is None else lift(hi)

            def bnd(apps):
                out = []
                for t in apps:
                    self._bounds(out.append, t, lo_t, hi_t, lo_open, hi_open)
                return out
            ax.append(bnd)
        if order:
            def srt(apps):
                out = []
                for a, b in _pairs(apps):
                    i, j = a.arg(0), b.arg(0)
                    if order == 'strict':
                        out.append(z3.And(z3.Implies(i < j, a < b), z3.Implies(j < i, b < a)))
                    else:
                        out.append(z3.And(z3.Implies(i <= j, a <= b), z3.Implies(j <= i, b <= a)))
                return out
            ax.append(srt)
        if distinct:
            def dst(apps):
                return [z3.Implies(a.arg(0) != b.arg(0), a != b) for a, b in _pairs(apps)]
            ax.append(dst)
        if pool is not None:
            codes = [strcode(p) if isinstance(p, str) else p for p in pool]

            def pl(apps):
                return [z3.Or(*[t == c for c in codes]) for t in apps]
            ax.append(pl)
            self.e.pools[nm] = list(pool)
        if ax:
            self.e.ax[nm] = ax
        self.inputs[name] = ('arr', f, kind, nt)
        return SArr(rng(nt), f(IV), kind)

    def table(self, **cols):
        first = next(iter(cols.values()))
        return SRec(first.dom, {c: a.copy() for c, a in cols.items()})

    def masked(self, data, mask, fill=None):
        return SMasked(data, mask, fill)

    # ---- helpers usable in specifications
    def assume(self, c):
        self.e.assume(_cond(c))

    def assume_forall(self, n, f):
        """assume f(k) for the indices k that get mentioned: attached to the applications of the first input array"""
        raise Unsupported('assume_forall')

    def cond(self, c):
        """boolean value usable in if: explores both"""
        return bool(c) if not isinstance(c, SV) else self.e.branch(truth(c))

    def ite(self, c, a, b):
        if isinstance(c, SArr) or isinstance(a, SArr) or isinstance(b, SArr):
            return npmodel.m_where(c, a, b)
        if isinstance(c, SV):
            return ite(truth(c), a, b)
        return a if c else b

    def and_(self, *cs):
        r = None
        for c in cs:
            r = c if r is None else binop('and', r, c)
        return r

    def or_(self, *cs):
        r = None
        for c in cs:
            r = c if r is None else binop('or', r, c)
        return r

    def implies(self, a, b):
        a, b = lift(a), lift(b)
        return SV(z3.Implies(truth(a), truth(b)))

    def sum(self, x):
        return npmodel.m_sum(x)

    def count(self, m):
        return npmodel.m_count_nonzero(m)

    def log10(self, x):
        with self.e.nodef():
            return npmodel.emap(npmodel.UNARY['log10'], x)

    def p10(self, x):
        return 10.0 ** x

    def sqrt(self, x):
        with self.e.nodef():
            return npmodel.emap(npmodel.UNARY['sqrt'], x)

    def fn(self, name, x, *rest):
        with self.e.nodef():
            if name in npmodel.UNARY:
                return npmodel.emap(npmodel.UNARY[name], x)
            if name in npmodel.BIN2:
                return npmodel.bmap(npmodel.BIN2[name], x, *rest)
            return npmodel.MODEL[name](x, *rest)

    def ufun(self, name):
        """an arbitrary function from numbers to numbers"""
        f = z3.Function('uf!' + name, R, R)
        return lambda x: SV(f(to_real(num(lift(x)))))

    def upos(self, name, *xs):
        """an arbitrary positive function of numbers, element by element (symbolic only): stands for a callee under its own contract"""
        f = z3.Function('uf!' + name, *([R] * (len(xs) + 1)))
        arrs = [i for i, x in enumerate(xs) if isinstance(x, SArr)]

        def one(*v):
            full = list(xs)
            for i, x in zip(arrs, v):
                full[i] = x
            return SV(T.P10(f(*[to_real(num(lift(x))) for x in full])))
        if not arrs:
            return one()
        if len(arrs) == 1:
            return npmodel.emap(one, xs[arrs[0]])
        if len(arrs) == 2:
            return npmodel.bmap(one, xs[arrs[0]], xs[arrs[1]])
        raise Unsupported('function of more than two arrays')

    def table_of(self, n, cols):
        return self.table(**cols)

    @property
    def pi(self):
        return SV(PI)

    def real_of(self, x):
        return SV(to_real(num(lift(x))))

    def floor(self, x):
        return npmodel.emap(lambda v: SV(z3.ToInt(to_real(num(v)))), x)

    def div(self, a, b):
        with self.e.nodef():
            return a / b

    def size(self, x):
        if isinstance(x, (SArr, SRec, SMasked)):
            return SV(x.dom.n)
        return SV(z3.IntVal(len(x)))

    def index(self, x, k):
        return x[k]

    def order(self, key):
        """the permutation that sorts key"""
        return npmodel.m_argsort(key)

    # ---- obligations
    def eq(self, a, b, rtol=None, atol=None):
        if isinstance(a, SMasked) or isinstance(b, SMasked):
            raise Unsupported('masked comparison')
        if _isarr(a) or _isarr(b):
            if _isarr(a) and _isarr(b):
                a, b = lift_arr(a), lift_arr(b)
                k = T.fresh('k', I)
                with self.e.nodef():
                    return SV(z3.And(a.dom.n == b.dom.n, z3.Implies(z3.And(k >= 0, k < a.dom.n),
                              t_cmp('==', a.get(k), b.get(k)))))
            arr, s = (a, b) if _isarr(a) else (b, a)
            arr = lift_arr(arr)
            k = T.fresh('k', I)
            return SV(z3.Implies(z3.And(k >= 0, k < arr.dom.n), t_cmp('==', arr.get(k), lift(s))))
        if a is None or b is None:
            return a is b
        return SV(t_cmp('==', lift(a), lift(b)))

    def ensure(self, name, c):
        self.reached += 1
        self.e.obligation(name, _cond(c))

    def forall(self, name, n, f, lo=0):
        self.reached += 1
        e = self.e
        k = T.fresh('k', I)
        nt = num(lift(n))
        if e._check(z3.And(k >= lo, k < nt), e.branch_ms) == z3.unsat:
            e.obligation(name, z3.BoolVal(True))
            return
        m = len(e.assume_list)
        e.assume_list.append(z3.And(k >= lo, k < nt))
        try:
            c = f(SV(k))
            e.obligation(name, _cond(c))
        finally:
            del e.assume_list[m:]

    def forall2(self, name, n, f):
        """for all 0 <= i < j < n"""
        self.reached += 1
        e = self.e
        i, j = T.fresh('k', I), T.fresh('k', I)
        nt = num(lift(n))
        m = len(e.assume_list)
        rg = z3.And(i >= 0, i < j, j < nt)
        if e._check(rg, e.branch_ms) == z3.unsat:
            e.obligation(name, z3.BoolVal(True))
            return
        e.assume_list.append(rg)
        try:
            e.obligation(name, _cond(f(SV(i), SV(j))))
        finally:
            del e.assume_list[m:]

    def exists(self, mask):
        return SV(npmodel.m_count_nonzero(mask).t > 0)

    def raises(self, exc, f):
        try:
            f()
        except exc:
            return True
        return False

    def snapshot(self, t):
        if isinstance(t, SRec):
            return SRec(t.dom, {c: a.copy() for c, a in t.cols.items()}, dict(t.dtypes))
        if isinstance(t, SMasked):
            return t.copy()
        return t.copy()

    def unchanged(self, name, t, snap):
        if isinstance(t, SRec):
            ok = list(t.cols) == list(snap.cols)
            self.ensure(name + ': same columns', ok)
            if not ok:
                return
            for c in t.cols:
                self.unchanged(name + ': ' + c, t.cols[c], snap.cols[c])
            return
        if isinstance(t, SMasked):
            self.unchanged(name + ' data', t.data, snap.data)
            self.unchanged(name + ' mask', t.mask, snap.mask)
            return
        if t.dom is snap.dom and t.body.eq(snap.body):
            self.ensure(name, True)
            return
        self.ensure(name, self.eq(t, snap))

    def obj(self, cls, **attrs):
        o = standin(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o


def _pairs(apps):
    apps = apps[:T.LIMITS['pairs']]
    for x in range(len(apps)):
        for y in range(x):
            yield apps[y], apps[x]


def _cond(c):
    if isinstance(c, SV):
        return truth(c)
    if isinstance(c, SArr):
        return npmodel.m_all(c).t
    if isinstance(c, (bool, np.bool_)):
        return z3.BoolVal(bool(c))
    if z3.is_expr(c):
        return c
    raise Unsupported('condition %r' % type(c))


class ConCtx:
    symbolic = False

    def __init__(self, rnd=None, given=None, size_hint=6):
        self.r = rnd or random.Random(0)
        self.given = given or {}
        self.draws = {}
        self.checked = 0
        self.size_hint = size_hint
        self.rtol = 1e-7

    def _rec(self, name, v):
        self.draws[name] = v
        return v

    def int(self, name, lo=None, hi=None, gen=None, near=None, **kw):
        if name in self.given:
            return self._rec(name, int(self.given[name]))
        if gen:
            return self._rec(name, gen(self.r))
        l = 0 if lo is None else int(lo)
        if lo is None and hi is None:
            l = -4
        h = l + self.size_hint if hi is None else int(hi)
        if h - l > 1000 and self.r.random() < 0.6:
            h = l + 12
        return self._rec(name, self.r.randint(l, max(h, l)))

    def _draw(self, lo, hi, lo_open, hi_open, near, gen=None):
        if gen:
            return gen(self.r)
        if near is not None and self.r.random() < 0.45:
            nv = [float(x) for x in near]
            if nv:
                c = self.r.choice(nv)
                if self.r.random() < 0.25:
                    c += self.r.choice([-1, 1, 0.25, -0.25])
                if (lo is None or c > lo or (c == lo and not lo_open)) and (hi is None or c < hi or (c == hi and not hi_open)):
                    return float(c)
        l = float(lo) if lo is not None else (-8.0 if hi is None or hi > -8 else float(hi) - 16)
        h = float(hi) if hi is not None else l + 16.0
        if hi is None and lo is not None and self.r.random() < 0.15:
            h = l + self.r.choice([64.0, 1024.0])
        u = self.r.random()
        w = h - l
        if u < 0.10 and not lo_open and lo is not None:
            return l
        if u < 0.20 and not hi_open and hi is not None:
            return h
        if w <= 0:
            return l
        steps = self.r.choice([4, 8, 16, 32, 64])
        for _ in range(20):
            q = w / steps
            # dyadic step where possible, so that arithmetic on the draws is exact
            q2 = 2.0 ** math.floor(math.log2(q)) if q > 0 else q
            base = math.ceil(l / q2) * q2
            v = base + q2 * self.r.randint(0, int(w / q2))
            if q2 >= 1 and self.r.random() < 0.3:
                v += self.r.choice([-1, 1]) * self.r.randint(1, 15) / 16.0
            if (v > l or (v == l and not lo_open)) and (v < h or (v == h and not hi_open)):
                return v
        return l + w * self.r.uniform(0.05, 0.95)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, near=None, gen=None, **kw):
        if name in self.given:
            return self._rec(name, float(self.given[name]))
        return self._rec(name, self._draw(lo, hi, lo_open, hi_open, near, gen))

    def bool(self, name):
        if name in self.given:
            return self._rec(name, bool(self.given[name]))
        return self._rec(name, self.r.random() < 0.5)

    sbool = bool

    def choice(self, name, options):
        if name in self.given:
            k = self._rec(name, int(self.given[name]))
        else:
            k = self._rec(name, self.r.randrange(len(options)))
        return options[k]

    def str(self, name, pool, others=True):
        if name in self.given:
            return self._rec(name, self.given[name])
        return self._rec(name, self.r.choice(list(pool) + (['zz'] if others else [])))

    def arr(self, name, n, kind='r', lo=None, hi=None, lo_open=False, hi_open=False, order=None, distinct=False,
            pool=None, near=None, gen=None, **kw):
        n = int(n)
        if name in self.given:
            v = list(self.given[name])[:n]
            v = v + [v[-1] if v else 0] * (n - len(v))
        elif pool is not None:
            v = [self.r.choice(list(pool)) for _ in range(n)]
            if self.r.random() < 0.15 and n:
                v = [self.r.choice(v)] * n
        elif kind == 'b':
            p = self.r.choice([0.1, 0.5, 0.9, 0.5])
            v = [self.r.random() < p for _ in range(n)]
        elif kind == 'i':
            l = -4 if lo is None else int(lo)
            h = l + 12 if hi is None else int(hi)
            v = [gen(self.r) if gen else (int(self.r.choice([x for x in near])) if near is not None and len(near) and self.r.random() < .4 else self.r.randint(l, h)) for _ in range(n)]
        elif kind == 's':
            v = [self.r.choice(['u', 'g', 'r', 'i', 'z', 'y']) for _ in range(n)]
        else:
            if order == 'strict' or distinct:
                s = set()
                tries = 0
                while len(s) < n:
                    s.add(self._draw(lo, hi, lo_open, hi_open, near, gen))
                    tries += 1
                    if tries > 60 * (n + 1):
                        raise Skip()
                v = list(s)
                self.r.shuffle(v)
            else:
                m = self.r.choice([max(1, n // 2), n + 2])
                p = [self._draw(lo, hi, lo_open, hi_open, near, gen) for _ in range(max(1, m))]
                v = [self.r.choice(p) for _ in range(n)]
        if order:
            v = sorted(v)
            if order == 'strict' and any(a >= b for a, b in zip(v, v[1:])):
                raise Skip()
        self.draws[name] = list(v)
        dt = {'r': float, 'i': int, 'b': bool, 's': 'U12'}[kind]
        return np.array(v, dtype=dt)

    def table(self, **cols):
        n = len(next(iter(cols.values())))
        t = np.zeros(n, dtype=[(c, a.dtype) for c, a in cols.items()])
        for c, a in cols.items():
            t[c] = a
        return t

    def masked(self, data, mask, fill=None):
        return np.ma.MaskedArray(np.array(data), mask=np.array(mask), fill_value=fill)

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def cond(self, c):
        return bool(c)

    def ite(self, c, a, b):
        if isinstance(c, np.ndarray):
            return np.where(c, a, b)
        return a if c else b

    def and_(self, *cs):
        r = cs[0]
        for c in cs[1:]:
            r = np.logical_and(r, c)
        return r

    def or_(self, *cs):
        r = cs[0]
        for c in cs[1:]:
            r = np.logical_or(r, c)
        return r

    def implies(self, a, b):
        return (not bool(np.all(a))) or bool(np.all(b))

    def sum(self, x):
        x = np.asarray(x)
        if x.dtype == bool or x.dtype.kind in 'iu':
            return int(np.sum(x))
        return math.fsum(float(v) for v in x)

    def count(self, m):
        return int(np.count_nonzero(m))

    def log10(self, x):
        return np.log10(x)

    def p10(self, x):
        return np.power(10.0, x)

    def sqrt(self, x):
        return np.sqrt(x)

    def fn(self, name, x, *rest):
        return getattr(np, name)(x, *rest)

    pi = math.pi

    def ufun(self, name):
        tab = {}
        r = random.Random(str(self.r.random()) + name)
        vals = [float(r.randint(-4, 4)) for _ in range(6)]

        def f(x):
            k = round(float(x), 6)
            if k not in tab:
                tab[k] = r.choice(vals)
            return tab[k]
        return f

    def real_of(self, x):
        return float(x)

    def floor(self, x):
        return np.floor(x).astype(int) if isinstance(x, np.ndarray) else int(math.floor(x))

    def div(self, a, b):
        return a / b

    def size(self, x):
        return len(x)

    def index(self, x, k):
        return x[k]

    def order(self, key):
        return np.argsort(key, kind='stable')

    def eq(self, a, b, rtol=None, atol=None):
        if a is None or b is None:
            return a is b
        try:
            aa, bb = np.asarray(a), np.asarray(b)
            if aa.dtype.kind in 'USO' or bb.dtype.kind in 'USO':
                return aa.shape == bb.shape and bool(np.all(aa == bb))
            if aa.shape != bb.shape and not (aa.shape == () or bb.shape == ()):
                return False
            aa, bb = aa.astype(float), bb.astype(float)
        except (TypeError, ValueError):
            return False
        rtol = self.rtol if rtol is None else rtol
        sc = 0.0
        for x in (aa, bb):
            if x.size:
                f = np.abs(x[np.isfinite(x)]) if x.ndim else (np.abs(x) if np.isfinite(x) else np.zeros(1))
                if np.size(f):
                    sc = max(sc, float(np.max(f)))
        at = (1e-9 * max(sc, 1e-300) + 1e-12) if atol is None else atol
        with np.errstate(all='ignore'):
            return bool(np.all(np.isclose(aa, bb, rtol=rtol, atol=at, equal_nan=True)))

    def ensure(self, name, c):
        self.checked += 1
        ok = bool(np.all(c))
        if not ok:
            raise Violation(name)

    def forall(self, name, n, f, lo=0):
        self.checked += 1
        for k in range(lo, int(n)):
            if not bool(np.all(f(k))):
                raise Violation(name, 'index %d' % k)

    def forall2(self, name, n, f):
        self.checked += 1
        for j in range(int(n)):
            for i in range(j):
                if not bool(np.all(f(i, j))):
                    raise Violation(name, 'indices %d,%d' % (i, j))

    def exists(self, mask):
        return bool(np.any(mask))

    def raises(self, exc, f):
        try:
            f()
        except exc:
            return True
        return False

    def snapshot(self, t):
        return t.copy()

    def unchanged(self, name, t, snap):
        self.checked += 1
        if t.dtype.names != snap.dtype.names:
            raise Violation(name, 'columns differ')
        if t.dtype.names:
            if t.shape != snap.shape:
                raise Violation(name, 'shape differs')
            for c in t.dtype.names:
                if not (np.array_equal(t[c], snap[c]) or (t[c].dtype.kind == 'f' and np.array_equal(t[c], snap[c], equal_nan=True))):
                    raise Violation(name, 'column %s changed' % c)
            return
        if isinstance(t, np.ma.MaskedArray):
            if not (np.array_equal(np.ma.getmaskarray(t), np.ma.getmaskarray(snap)) and
                    np.array_equal(t.data[~np.ma.getmaskarray(t)], snap.data[~np.ma.getmaskarray(t)])):
                raise Violation(name, 'values changed')
            return
        if not np.array_equal(t, snap, equal_nan=(t.dtype.kind == 'f')):
            raise Violation(name, 'values changed')

    def obj(self, cls, **attrs):
        o = standin(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o


STANDINS = []


def standin(cls):
    """an object made without its constructor"""
    o = object.__new__(cls)
    STANDINS.append(o)
    return o


def model_valuation(inputs, model):
    """concrete values of the named inputs in a z3 counter-model"""
    def val(t):
        v = model.eval(t, model_completion=True)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return 0
    out = {}
    for name, d in inputs.items():
        if d[0] == 'choice':
            out[name] = d[1]
        elif d[0] == 'str':
            out[name] = T.strname(val(d[1]))
        elif d[0] in ('int', 'real', 'bool'):
            out[name] = val(d[1])
        else:
            _, f, kind, nt = d
            n = val(nt)
            if not 0 <= n <= 200:
                return None
            v = [val(f(z3.IntVal(j))) for j in range(n)]
            out[name] = [T.strname(x) for x in v] if kind == 's' else v
    return out
