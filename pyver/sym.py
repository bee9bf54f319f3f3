"""Symbolic values that the real code is executed on."""
import builtins
import operator
import numbers
import numpy as np
import z3
from fractions import Fraction
from .terms import *  # noqa
from . import terms as T


class Unsupported(BaseException):
    """The construct is outside the verifier's reach (never caught by repository code)."""


class PathEnd(BaseException):
    """This path is finished (infeasible, or cut)."""


class _Cur:
    eng = None


CUR = _Cur()


def eng():
    return CUR.eng


# ---------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SV, SArr, SRec, SMasked))


def deep_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(y, depth - 1) for y in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(y) for y in x.ravel())
    return False


def kind_of(t):
    s = t.sort()
    return 'r' if s == R else 'i' if s == I else 'b' if s == B else '?'


class SV:
    """symbolic scalar; kind r(eal) i(nt) b(ool) s(tring: int code)"""
    __array_priority__ = 1000
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind=None):
        self.t = t
        self.kind = kind or kind_of(t)

    def __repr__(self):
        return 'SV(%s)' % self.t

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .npmodel import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npmodel import func_dispatch
        return func_dispatch(func, args, kwargs)

    # numpy scalar look
    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return {'r': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 's': np.dtype('U8')}[self.kind]

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return cast_scalar(self, dt)

    def __bool__(self):
        if self.kind == 'b':
            return eng().branch(self.t)
        if self.kind == 's':
            return True
        return eng().branch(self.t != 0)

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if z3.is_int_value(z3.simplify(self.t)):
            return z3.simplify(self.t).as_long()
        raise Unsupported('symbolic integer used as a machine index')

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __iter__(self):
        raise TypeError('iteration over a 0-d value')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __len__(self):
        raise TypeError('object of type float has no len()')

    def __neg__(self):
        return SV(-num(self), None)

    def __pos__(self):
        return self

    def __abs__(self):
        t = num(self)
        return SV(z3.If(t >= 0, t, -t))

    def __invert__(self):
        if self.kind == 'b':
            return SV(z3.Not(self.t))
        raise Unsupported('~ on non-bool')

    def __round__(self, nd=None):
        return np_round(self, nd or 0)


def num(v):
    """numeric z3 term (Int or Real)"""
    if isinstance(v, SV):
        if v.kind == 'b':
            return to_int(v.t)
        if v.kind == 's':
            raise Unsupported('arithmetic on strings')
        return v.t
    return const(v)


def const(x):
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating, Fraction)):
        return real_const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return const(x.item())
    raise Unsupported('constant of type %s' % type(x))


def lift(x):
    """anything scalar -> SV"""
    if isinstance(x, SV):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SV(z3.BoolVal(bool(x)), 'b')
    if isinstance(x, (str, np.str_, bytes)):
        return SV(z3.IntVal(strcode(x if not isinstance(x, bytes) else x.decode())), 's')
    return SV(const(x))


def both(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    return a, b


def isnum(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def val(t):
    return t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())


def t_add(a, b):
    a, b = both(a, b)
    if isnum(a) and val(a) == 0:
        return b
    if isnum(b) and val(b) == 0:
        return a
    if isnum(a) and isnum(b):
        return z3.simplify(a + b)
    return a + b


def t_sub(a, b):
    a, b = both(a, b)
    if isnum(b) and val(b) == 0:
        return a
    if isnum(a) and isnum(b):
        return z3.simplify(a - b)
    return a - b


def t_mul(a, b):
    a, b = both(a, b)
    if isnum(a) and val(a) == 1:
        return b
    if isnum(b) and val(b) == 1:
        return a
    if isnum(a) and isnum(b):
        return z3.simplify(a * b)
    return a * b


def t_div(a, b):
    a, b = to_real(num(a)), to_real(num(b))
    if isnum(b) and val(b) == 1:
        return a
    if isnum(a) and isnum(b) and val(b) != 0:
        return z3.simplify(a / b)
    if not isnum(b) and isnum(a):
        m = p10_monomial(b)
        if m is not None and m[0] != 0:
            return z3.simplify(a / z3.RealVal(m[0]) * P10(z3.simplify(-m[1])))
    if not isnum(b) and eng() is not None:
        eng().defined(b != 0, 'division by zero')
    return a / b


def t_floor(a):
    if a.sort() == I:
        return a
    return z3.ToInt(a)


def t_ceil(a):
    if a.sort() == I:
        return a
    return -z3.ToInt(-a)


def t_mod(a, b):
    a, b = both(a, b)
    if a.sort() == I and isnum(b) and val(b) > 0:
        return a % b
    ar, br = to_real(a), to_real(b)
    r = ar - br * to_real(z3.ToInt(ar / br))
    if a.sort() == I:
        # integer result (python semantics), exact because operands are integers
        return a - b * z3.ToInt(ar / br)
    return r


def t_floordiv(a, b):
    a, b = both(a, b)
    if a.sort() == I and isnum(b) and val(b) > 0:
        return a / b
    q = z3.ToInt(to_real(a) / to_real(b))
    return q if a.sort() == I else to_real(q)


def t_p10(x):
    x = to_real(x)
    if isnum(x) and val(x).denominator == 1 and abs(val(x)) < 400:
        return z3.RealVal(Fraction(10) ** int(val(x)))
    if z3.is_app(x) and x.decl().eq(L10):
        return x.arg(0)
    return P10(x)


def p10_monomial(x):
    """(coefficient, exponent) if x is coefficient * 10^exponent with a constant coefficient"""
    if isnum(x):
        return val(x), z3.RealVal(0)
    if z3.is_app(x) and x.decl().eq(P10):
        return Fraction(1), x.arg(0)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
        q, e = Fraction(1), z3.RealVal(0)
        for c in x.children():
            m = p10_monomial(c)
            if m is None:
                return None
            q, e = q * m[0], e + m[1]
        return q, e
    return None


def t_sqrt(x):
    x = to_real(x)
    m = None if isnum(x) else p10_monomial(x) or p10_monomial(z3.simplify(x))
    if m is not None and m[0] > 0:
        q = t_sqrt(z3.RealVal(m[0]))
        if isnum(q):
            return z3.simplify(q * P10(z3.simplify(m[1] / 2)))
    if isnum(x) and val(x) >= 0:
        import math
        v = val(x)
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return z3.RealVal(Fraction(a, b))
    return SQRT(x)


def t_pow(a, b):
    a, b = num(a), num(b)
    if isnum(b):
        e = val(b)
        if e.denominator == 1 and abs(e) <= 12:
            e = int(e)
            if e == 0:
                return z3.IntVal(1) if a.sort() == I else z3.RealVal(1)
            r = a
            for _ in range(abs(e) - 1):
                r = r * a
            if e < 0:
                return t_div(SV(z3.RealVal(1)), SV(r))
            return r
        if e == Fraction(1, 2):
            return t_sqrt(a)
        if e == Fraction(-1, 2):
            return z3.RealVal(1) / t_sqrt(a)
        if e == Fraction(3, 2):
            return to_real(a) * t_sqrt(a)
    if isnum(a) and val(a) == 10:
        return t_p10(b)
    return POW(to_real(a), to_real(b))


def t_cmp(op, a, b):
    if isinstance(a, SV) and a.kind == 's' or isinstance(b, SV) and b.kind == 's' or isinstance(a, str) or isinstance(b, str):
        if not ((isinstance(a, (str, np.str_)) or isinstance(a, SV) and a.kind == 's')
                and (isinstance(b, (str, np.str_)) or isinstance(b, SV) and b.kind == 's')):
            if op == '==':
                return z3.BoolVal(False)
            if op == '!=':
                return z3.BoolVal(True)
            raise Unsupported('string order comparison')
        ta, tb = lift(a).t, lift(b).t
        if op == '==':
            return ta == tb
        if op == '!=':
            return ta != tb
        raise Unsupported('string order comparison')
    if isinstance(a, SV) and a.kind == 'b' and isinstance(b, SV) and b.kind == 'b' and op in ('==', '!='):
        return a.t == b.t if op == '==' else a.t != b.t
    a, b = both(a, b)
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
            '==': lambda: a == b, '!=': lambda: a != b}[op]()


def truth(v):
    v = lift(v)
    if v.kind == 'b':
        return v.t
    return v.t != 0


SCALAR = {
    'add': lambda a, b: SV(t_add(a, b)), 'sub': lambda a, b: SV(t_sub(a, b)), 'mul': lambda a, b: SV(t_mul(a, b)),
    'div': lambda a, b: SV(t_div(a, b)), 'mod': lambda a, b: SV(t_mod(a, b)),
    'floordiv': lambda a, b: SV(t_floordiv(a, b)), 'pow': lambda a, b: SV(t_pow(a, b)),
    'lt': lambda a, b: SV(t_cmp('<', a, b)), 'le': lambda a, b: SV(t_cmp('<=', a, b)),
    'gt': lambda a, b: SV(t_cmp('>', a, b)), 'ge': lambda a, b: SV(t_cmp('>=', a, b)),
    'eq': lambda a, b: SV(t_cmp('==', a, b)), 'ne': lambda a, b: SV(t_cmp('!=', a, b)),
    'and': lambda a, b: SV(z3.And(truth(a), truth(b))), 'or': lambda a, b: SV(z3.Or(truth(a), truth(b))),
    'xor': lambda a, b: SV(z3.Xor(truth(a), truth(b))),
}


def _nan_if(v):
    """(condition, other value) when the term is nan under a condition, else None"""
    if not isinstance(v, SV):
        if isinstance(v, float) and v != v:
            return z3.BoolVal(True), None
        return None
    t = v.t
    if t.eq(NANC):
        return z3.BoolVal(True), None
    if v.kind == 'r' and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.arg(0), t.arg(1), t.arg(2)
        if x.eq(NANC):
            return c, SV(y)
        if y.eq(NANC):
            return z3.Not(c), SV(x)
    return None


def scalar_op(name, a, b):
    if name in ('and', 'or', 'xor'):
        return SCALAR[name](a, b)
    na = _nan_if(a)
    nb = None if na else _nan_if(b)
    if na or nb:
        c, o = na or nb
        cmp_ = name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')
        if o is None:
            return SV(z3.BoolVal(name == 'ne')) if cmp_ else SV(NANC)
        r = scalar_op(name, o, b) if na else scalar_op(name, a, o)
        if cmp_:
            return SV(z3.Or(c, truth(r)) if name == 'ne' else z3.And(z3.Not(c), truth(r)))
        return SV(z3.If(c, NANC, to_real(num(r))))
    return SCALAR[name](a, b)


def _ok_scalar(x):
    return isinstance(x, (SV, bool, int, float, str, np.generic, Fraction)) or (isinstance(x, np.ndarray) and x.ndim == 0)


def binop(name, a, b):
    if isinstance(a, (SMasked,)) or isinstance(b, SMasked):
        return masked_op(name, a, b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return arr_op(name, a, b)
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim == 1):
        return arr_op(name, a, b)
    if isinstance(b, (list, tuple)) or (isinstance(b, np.ndarray) and b.ndim == 1):
        return arr_op(name, a, b)
    if a is None or b is None:
        if name in ('eq', 'ne'):
            return name == 'ne'
        raise TypeError('unsupported operand type(s): None')
    if not (_ok_scalar(a) and _ok_scalar(b)):
        raise Unsupported('operands %s, %s' % (type(a), type(b)))
    return scalar_op(name, a, b)


def _install(cls, names=None):
    def mk(nm, opname, refl):
        if refl:
            def f(self, other):
                return binop(opname, other, self)
        else:
            def f(self, other):
                return binop(opname, self, other)
        f.__name__ = nm
        setattr(cls, nm, f)
    for nm, opname in [('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('mod', 'mod'),
                       ('floordiv', 'floordiv'), ('pow', 'pow'), ('and', 'and'), ('or', 'or'), ('xor', 'xor')]:
        mk('__%s__' % nm, opname, False)
        mk('__r%s__' % nm, opname, True)
    for nm in ['lt', 'le', 'gt', 'ge', 'eq', 'ne']:
        mk('__%s__' % nm, nm, False)


_install(SV)


def ite(c, a, b):
    """scalar if-then-else on SV/py values"""
    a, b = lift(a), lift(b)
    if a.kind == b.kind:
        return SV(z3.If(c, a.t, b.t), a.kind)
    ta, tb = to_real(num(a)), to_real(num(b))
    if {a.kind, b.kind} <= {'i', 'b'}:
        ta, tb = num(a), num(b)
    return SV(z3.If(c, ta, tb))


def cast_scalar(v, dt):
    v = lift(v)
    dt = np.dtype(dt)
    if dt.kind == 'f':
        return SV(to_real(num(v)))
    if dt.kind in 'iu':
        if v.kind in 'ib':
            return SV(num(v))
        return SV(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if dt.kind == 'b':
        return SV(truth(v))
    if dt.kind in 'USO':
        return v
    raise Unsupported('cast to %s' % dt)


def np_round(v, nd=0):
    t = to_real(num(v))
    sc = Fraction(10) ** nd
    y = t * z3.RealVal(sc)
    f = z3.ToInt(y)
    d = y - to_real(f)
    half = z3.RealVal(Fraction(1, 2))
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SV(to_real(r) / z3.RealVal(sc) if nd else to_real(r))


# ---------------------------------------------------------------- domains
class Dom:
    """index domain: positions 0..n-1 mapped by mapf into a root index range 0..root_n-1 restricted by guard."""

    def __init__(self, n, root_n=None, guard=None, mapf=None, rankf=None, key=None):
        self.n = n                       # z3 Int
        self.root_n = n if root_n is None else root_n
        self.guard = guard               # z3 Bool over IV or None
        self.mapf = mapf                 # python fn term->term or None (identity)
        self.rankf = rankf
        self.key = key

    def map(self, k):
        if self.mapf is None:
            return k
        return self.mapf(k)

    def rank(self, i):
        if self.rankf is None:
            return i
        return self.rankf(i)

    def bag(self):
        g = in_range(self.root_n)
        if self.guard is not None:
            g = z3.And(g, self.guard)
        return z3.simplify(g)

    def is_range(self):
        return self.mapf is None and self.guard is None


def rng(n):
    n = z3.IntVal(n) if isinstance(n, int) else n
    n = z3.simplify(n)
    return Dom(n, key=('range', n.get_id(), n))


def same_dom(a, b):
    return a is b or (a.key is not None and b.key is not None and a.key[:2] == b.key[:2])


def filter_dom(p, mask):
    """sub-domain of p where mask (over p's root IV) holds"""
    if p.is_range():
        g = mask
        pos = z3.simplify(z3.And(in_range(p.n), mask))
    else:
        g = mask if p.guard is None else z3.And(p.guard, mask)
        pos = z3.simplify(z3.And(in_range(p.n), subst(mask, IV, p.map(IV)))) if p.mapf else \
            z3.simplify(z3.And(in_range(p.n), mask))
    L = lam(pos)
    bag = z3.simplify(z3.And(in_range(p.root_n), g))
    n = cnt_bag(bag)

    def mapf(k):
        if z3.is_app(k) and k.decl().eq(RANK) and k.arg(0).eq(L):
            return p.map(k.arg(1))
        return p.map(SEL(L, k))

    def rankf(i):
        return RANK(L, p.rank(i))
    d = Dom(n, p.root_n, g, mapf, rankf, key=('filter', (L.get_id(), p.key[:2] if p.key else id(p)), L, p))
    return d


def perm_dom(p, keybody):
    """p reordered so that keybody (real/int term over root IV) is non-decreasing (stable)"""
    kb = subst(to_real(keybody), IV, p.map(IV)) if p.mapf else to_real(keybody)
    kb = z3.simplify(z3.If(in_range(p.n), kb, z3.RealVal(0)))
    L = lam(kb)

    def mapf(k):
        if z3.is_app(k) and k.decl().eq(ARGI) and k.arg(0).eq(L):
            return p.map(k.arg(2))
        return p.map(ARGS(L, p.n, k))

    def rankf(i):
        return ARGI(L, p.n, p.rank(i))
    return Dom(p.n, p.root_n, p.guard, mapf, rankf, key=('perm', (L.get_id(), p.key[:2] if p.key else id(p)), L, p))


def rev_dom(p):
    def mapf(k):
        return p.map(p.n - 1 - k)

    def rankf(i):
        return p.n - 1 - p.rank(i)
    return Dom(p.n, p.root_n, p.guard, mapf, rankf, key=('rev', (p.key[:2] if p.key else id(p)), p))


# ---------------------------------------------------------------- arrays
KIND_DT = {'r': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 's': np.dtype('U8')}


class SArr:
    __array_priority__ = 1000

    def __init__(self, dom, body, kind=None, dtype=None):
        self.dom = dom
        self.body = body
        self.kind = kind or kind_of(body)
        self.view_of = None     # set for slices: mutation must write through
        self.version = 0

    # --- numpy look
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .npmodel import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npmodel import func_dispatch
        return func_dispatch(func, args, kwargs)

    @property
    def dtype(self):
        return KIND_DT[self.kind]

    @property
    def n(self):
        return SV(self.dom.n)

    @property
    def size(self):
        return pyint(SV(self.dom.n))

    @property
    def shape(self):
        return (pyint(SV(self.dom.n)),)

    @property
    def ndim(self):
        return 1

    @property
    def flat(self):
        return self

    def __len__(self):
        raise Unsupported('len() of a symbolic array outside patched code')

    def __iter__(self):
        k = z3.simplify(self.dom.n)
        if z3.is_int_value(k):
            return iter([self.get(z3.IntVal(j)) for j in range(k.as_long())])
        if getattr(self, 'uniq_of', None) is not None:
            return self._iter_unique()
        raise Unsupported('iteration over a symbolic-length array')

    def _iter_unique(self):
        """the different values of a column whose possible values are known, in order"""
        x = self.uniq_of
        pool = eng().pools.get(x.body.decl().name()) if z3.is_app(x.body) else None
        if pool is None:
            raise Unsupported('iteration over the different values of an array')

        def it():
            from .npmodel import cnt_bag
            for p in sorted(pool):
                with eng().nodef():
                    c = t_cmp('==', SV(x.body, x.kind), lift(p))
                if eng().branch(cnt_bag(z3.And(x.bag(), c)) > 0):
                    yield p
        return it()

    def __hash__(self):
        raise TypeError('unhashable')

    def __bool__(self):
        k = z3.simplify(self.dom.n)
        if z3.is_int_value(k) and k.as_long() == 1:
            return bool(self.get(z3.IntVal(0)))
        if eng().branch(self.dom.n == 1):
            return bool(self.get(z3.IntVal(0)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __repr__(self):
        return 'SArr(n=%s, %s)' % (self.dom.n, self.body)

    def at(self, i):
        """value at root index i"""
        return SV(subst(self.body, IV, i), self.kind)

    def get(self, k):
        """value at position k (z3 Int)"""
        return SV(subst(self.body, IV, self.dom.map(k)), self.kind)

    def positional(self):
        if self.dom.mapf is None and self.dom.guard is None:
            return self
        return SArr(rng(self.dom.n), self.get(IV).t, self.kind)

    def copy(self):
        return SArr(self.dom, self.body, self.kind)

    def assign(self, dom, body, kind=None):
        self._mutcheck()
        self.dom, self.body = dom, body
        if kind:
            self.kind = kind
        self.version += 1

    def _mutcheck(self):
        if self.view_of is not None:
            base, f = self.view_of
            raise Unsupported('in-place change through a slice view')

    def bag(self):
        return self.dom.bag()

    # --- methods
    def astype(self, dt, copy=True):
        v = cast_scalar(SV(self.body, self.kind), dt)
        return SArr(self.dom, v.t, v.kind)

    def sum(self, axis=None, dtype=None):
        from .npmodel import m_sum
        return m_sum(self)

    def mean(self, axis=None):
        from .npmodel import m_mean
        return m_mean(self)

    def max(self, axis=None):
        from .npmodel import m_max
        return m_max(self)

    def min(self, axis=None):
        from .npmodel import m_min
        return m_min(self)

    def std(self, axis=None):
        from .npmodel import m_std
        return m_std(self)

    def any(self):
        from .npmodel import m_any
        return m_any(self)

    def all(self):
        from .npmodel import m_all
        return m_all(self)

    def cumsum(self):
        from .npmodel import m_cumsum
        return m_cumsum(self)

    def argsort(self, kind=None):
        from .npmodel import m_argsort
        return m_argsort(self)

    def argmax(self):
        from .npmodel import m_argmax
        return m_argmax(self)

    def argmin(self):
        from .npmodel import m_argmin
        return m_argmin(self)

    def sort(self, order=None, kind=None):
        from .npmodel import m_sort
        s = m_sort(self)
        self.assign(s.dom, s.body)

    def ravel(self):
        return self

    def flatten(self):
        return self.copy()

    def tolist(self):
        return self

    def searchsorted(self, v, side='left'):
        from .npmodel import m_searchsorted
        return m_searchsorted(self, v, side)

    def clip(self, lo, hi):
        from .npmodel import m_clip
        return m_clip(self, lo, hi)

    def item(self):
        if eng().branch(self.dom.n == 1):
            return self.get(z3.IntVal(0))
        raise ValueError('can only convert an array of size 1')

    def __neg__(self):
        return arr_map(lambda v: -v, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return arr_map(abs, self)

    def __invert__(self):
        return arr_map(lambda v: ~v, self)

    # --- indexing
    def __getitem__(self, ix):
        if isinstance(ix, tuple):
            if len(ix) == 0:
                return self
            if len(ix) == 1:
                return self[ix[0]]
            raise Unsupported('multi-dimensional index')
        if isinstance(ix, (int, np.integer, SV)):
            if isinstance(ix, SV) and ix.kind == 'b':
                raise Unsupported('bool scalar index')
            k = num(ix)
            if k.sort() != I:
                raise IndexError('only integers are valid indices')
            n = self.dom.n
            if isinstance(ix, SV):
                k2 = z3.If(k < 0, k + n, k)
                if eng().must(k >= 0):
                    k2 = k
                elif eng().must(k < 0):
                    k2 = k + n
                k = z3.simplify(k2)
            else:
                k = n + int(ix) if ix < 0 else z3.IntVal(int(ix))
            if not eng().branch(z3.And(k >= 0, k < n)):
                raise IndexError('index out of bounds')
            return self.get(k)
        if isinstance(ix, slice):
            return arr_slice(self, ix)
        if isinstance(ix, (list, np.ndarray)) and not is_sym(ix):
            ix = lift_arr(ix)
        if isinstance(ix, SArr):
            if ix.kind == 'b':
                if z3.is_true(z3.simplify(ix.body)) and z3.simplify(ix.dom.n).eq(z3.simplify(self.dom.n)):
                    return self.copy()
                ix = mask_index(ix)
            return gather(self, ix)
        if ix is None:
            raise Unsupported('newaxis')
        raise Unsupported('index %s' % type(ix))

    def __setitem__(self, ix, v):
        self._mutcheck()
        if isinstance(ix, tuple):
            if len(ix) == 1:
                ix = ix[0]
            else:
                raise Unsupported('multi-dimensional index')
        n = self.dom.n
        if isinstance(ix, (int, np.integer)) or isinstance(ix, SV) and ix.kind == 'i':
            k = num(ix)
            if isinstance(ix, SV):
                k = z3.If(k < 0, k + n, k) if not eng().must(k >= 0) else k
            else:
                k = n + int(ix) if ix < 0 else z3.IntVal(int(ix))
            if not eng().branch(z3.And(k >= 0, k < n)):
                raise IndexError('index out of bounds')
            root = self.dom.map(k)
            nv = ite(IV == root, v, SV(self.body, self.kind))
            self._store(nv)
            return
        if isinstance(ix, slice):
            if ix == slice(None):
                if isinstance(v, (SArr, list, np.ndarray)):
                    v = lift_arr(v)
                    vv = align_to(v, self.dom)
                    self._store(SV(vv, v.kind))
                else:
                    self._store(lift(v))
                return
            st, ln, step = slice_bounds(ix, n)
            if step != 1:
                raise Unsupported('strided slice assignment')
            p = self.dom.rank(IV)
            cond = z3.And(p >= st, p < st + ln)
            if isinstance(v, (SArr, list, np.ndarray)) :
                v = lift_arr(v)
                if not eng().must(v.dom.n == ln):
                    if not eng().branch(v.dom.n == ln):
                        raise ValueError('could not broadcast')
                vv = v.get(p - st)
            else:
                vv = lift(v)
            self._store(ite(cond, vv, SV(self.body, self.kind)))
            return
        if isinstance(ix, (list, np.ndarray)):
            ix = lift_arr(ix)
        if isinstance(ix, SArr):
            if ix.kind == 'b':
                ix = mask_index(ix)
            scatter(self, ix, v)
            return
        raise Unsupported('store index %s' % type(ix))

    def _store(self, nv):
        """store nv (over root IV), cast to own dtype"""
        if self.kind == 'r':
            t = to_real(num(nv))
        elif self.kind == 'i':
            t = num(cast_scalar(nv, int))
        elif self.kind == 'b':
            t = truth(nv)
        else:
            t = lift(nv).t
        self.body = t
        self.version += 1


_install(SArr)


def _inplace(nm, opname):
    def f(self, other):
        r = binop(opname, self, other)
        if not isinstance(r, SArr):
            raise Unsupported('in-place')
        if self.kind == 'i' and r.kind == 'r' and opname != 'div':
            raise TypeError('Cannot cast ufunc output')
        body = align_to(r, self.dom)
        self._mutcheck()
        self._store(SV(body, r.kind))
        return self
    setattr(SArr, nm, f)


for _nm, _op in [('__iadd__', 'add'), ('__isub__', 'sub'), ('__imul__', 'mul'), ('__itruediv__', 'div'),
                 ('__imod__', 'mod'), ('__iand__', 'and'), ('__ior__', 'or')]:
    _inplace(_nm, _op)


def pyint(sv):
    k = z3.simplify(sv.t)
    if z3.is_int_value(k):
        return k.as_long()
    return sv


def lift_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SMasked):
        raise Unsupported('masked array here')
    if isinstance(x, (list, tuple)):
        vals = [lift(v) for v in x]
    elif isinstance(x, np.ndarray):
        if x.ndim == 0:
            raise Unsupported('0-d array')
        if x.ndim != 1:
            raise Unsupported('nd array')
        vals = [lift(v) for v in x.tolist()] if x.dtype != object else [lift(v) for v in x]
        if not vals:
            k = {'f': 'r', 'i': 'i', 'b': 'b', 'U': 's'}.get(x.dtype.kind, 'r')
            return SArr(rng(0), {'r': z3.RealVal(0), 'i': z3.IntVal(0), 'b': z3.BoolVal(False), 's': z3.IntVal(0)}[k], k)
    else:
        raise Unsupported('array from %s' % type(x))
    n = len(vals)
    if n == 0:
        return SArr(rng(0), z3.RealVal(0), 'r')
    if n > 400:
        raise Unsupported('large concrete array in symbolic context')
    kinds = {v.kind for v in vals}
    if len(kinds) > 1:
        if 's' in kinds:
            raise Unsupported('mixed array')
        if 'r' in kinds:
            vals = [SV(to_real(num(v))) for v in vals]
        else:
            vals = [SV(num(v)) for v in vals]
    body = vals[-1].t
    for j in range(n - 2, -1, -1):
        body = z3.If(IV == j, vals[j].t, body)
    return SArr(rng(n), body, vals[0].kind)


def arr_map(f, a, kind=None):
    v = f(SV(a.body, a.kind))
    return SArr(a.dom, v.t, v.kind)


def align_to(v, dom):
    """body of array v re-expressed over dom's root (lengths must agree)"""
    if same_dom(v.dom, dom):
        return v.body
    if not eng().must(v.dom.n == dom.n):
        if eng().branch(v.dom.n == 1):
            return v.get(z3.IntVal(0)).t
        if not eng().branch(v.dom.n == dom.n):
            raise ValueError('operands could not be broadcast together')
    return v.get(dom.rank(IV)).t


def align2(a, b):
    """-> (dom, body a, body b)"""
    if same_dom(a.dom, b.dom):
        return a.dom, a.body, b.body
    e = eng()
    if not e.must(a.dom.n == b.dom.n):
        if e.must(b.dom.n == 1) or (z3.is_int_value(z3.simplify(b.dom.n)) and z3.simplify(b.dom.n).as_long() == 1):
            return a.dom, a.body, b.get(z3.IntVal(0)).t
        if e.must(a.dom.n == 1):
            return b.dom, a.get(z3.IntVal(0)).t, b.body
        if not e.branch(a.dom.n == b.dom.n):
            if e.branch(b.dom.n == 1):
                return a.dom, a.body, b.get(z3.IntVal(0)).t
            if e.branch(a.dom.n == 1):
                return b.dom, a.get(z3.IntVal(0)).t, b.body
            raise ValueError('operands could not be broadcast together')
    # prefer the domain with more structure as the carrier when the other is plain
    pa, pb = a.positional(), b.positional()
    return pa.dom, pa.body, pb.body


def arr_op(name, a, b):
    if isinstance(a, (list, tuple, np.ndarray)) and not (isinstance(a, np.ndarray) and a.ndim == 0):
        a = lift_arr(a)
    if isinstance(b, (list, tuple, np.ndarray)) and not (isinstance(b, np.ndarray) and b.ndim == 0):
        b = lift_arr(b)
    if isinstance(a, SRec) or isinstance(b, SRec):
        raise Unsupported('arithmetic on records')
    if a is None or b is None:
        if name in ('eq', 'ne'):
            arr = a if b is None else b
            return SArr(arr.dom, z3.BoolVal(name == 'ne'), 'b')
        raise TypeError('unsupported operand None')
    e = eng()
    if isinstance(a, SArr) and isinstance(b, SArr):
        dom, ba, bb = align2(a, b)
        with e.indexed(dom):
            v = scalar_op(name, SV(ba, a.kind), SV(bb, b.kind))
    elif isinstance(a, SArr):
        dom = a.dom
        with e.indexed(dom):
            v = scalar_op(name, SV(a.body, a.kind), b)
    else:
        dom = b.dom
        with e.indexed(dom):
            v = scalar_op(name, a, SV(b.body, b.kind))
    return SArr(dom, v.t, v.kind)


def slice_bounds(ix, n):
    """-> start term, length term, step"""
    step = ix.step
    if step is None:
        step = 1
    if isinstance(step, SV):
        raise Unsupported('symbolic slice step')
    e = eng()

    def norm(v, default):
        if v is None:
            return default
        k = num(v)
        if k.sort() != I:
            raise TypeError('slice indices must be integers')
        if isnum(k):
            k = n + k if val(k) < 0 else k
        elif not e.must(k >= 0):
            k = z3.If(k < 0, k + n, k)
        # clamp
        if e.must(z3.And(k >= 0, k <= n)):
            return z3.simplify(k)
        return z3.simplify(z3.If(k < 0, z3.IntVal(0), z3.If(k > n, n, k)))
    if step == 1:
        st = norm(ix.start, z3.IntVal(0))
        en = norm(ix.stop, n)
        ln = z3.simplify(en - st)
        if not e.must(ln >= 0):
            ln = z3.simplify(z3.If(ln >= 0, ln, z3.IntVal(0)))
        return st, ln, 1
    if step == -1 and ix.start is None and ix.stop is None:
        return n - 1, n, -1
    if step > 1:
        st = norm(ix.start, z3.IntVal(0))
        en = norm(ix.stop, n)
        ln = z3.simplify((en - st + step - 1) / step)
        if not e.must(ln >= 0):
            ln = z3.simplify(z3.If(ln >= 0, ln, z3.IntVal(0)))
        return st, ln, step
    raise Unsupported('slice step %s' % step)


def arr_slice(a, ix):
    if ix == slice(None):
        r = a.copy()
        r.view_of = (a, None)
        return r
    st, ln, step = slice_bounds(ix, a.dom.n)
    if step == -1:
        r = SArr(rev_dom(a.dom), a.body, a.kind)
    elif step == 1 and isnum(st) and val(st) == 0 and z3.simplify(ln).eq(z3.simplify(a.dom.n)):
        r = a.copy()
    else:
        r = SArr(rng(ln), a.get(z3.simplify(st + step * IV)).t, a.kind)
    r.view_of = (a, ix)
    return r


def mask_index(m):
    """np.where(m)[0]"""
    d = filter_dom(m.dom, m.body)
    return SArr(d, m.dom.rank(IV), 'i')


def gather(x, idx):
    if idx.kind != 'i':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    e = eng()
    # bounds obligation: 0 <= idx < n (negative indices wrap)
    with e.indexed(idx.dom):
        b = idx.body
        inb = e.must_indexed(z3.And(b >= 0, b < x.dom.n), idx.dom)
        if not inb:
            neg = e.must_indexed(z3.And(b >= -x.dom.n, b < x.dom.n), idx.dom)
            if neg:
                b = z3.If(b < 0, b + x.dom.n, b)
            else:
                e.index_unsafe(idx, x.dom.n)
                b = z3.If(b < 0, b + x.dom.n, b)
    return SArr(idx.dom, subst(x.body, IV, x.dom.map(b)), x.kind)


def scatter(a, idx, v):
    """a[idx] = v"""
    if idx.kind != 'i':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    root = z3.simplify(a.dom.map(idx.body))
    if isinstance(v, (list, tuple, np.ndarray)) and not (isinstance(v, np.ndarray) and v.ndim == 0):
        v = lift_arr(v)
    if root.eq(IV):
        # idx enumerates a subset of a's own root indices
        g = idx.dom.bag()
        if isinstance(v, SArr):
            vb = SV(align_to(v, idx.dom), v.kind)
        else:
            vb = lift(v)
        a._store(ite(g, vb, SV(a.body, a.kind)))
        return
    raise Unsupported('general scatter')


class SRec:
    """structured array"""
    __array_priority__ = 1000

    def __init__(self, dom, cols, dtypes=None):
        self.dom = dom
        self.cols = dict(cols)
        self.dtypes = dtypes or {}

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        raise Unsupported('ufunc on a structured array')

    def __array_function__(self, func, types, args, kwargs):
        from .npmodel import func_dispatch
        return func_dispatch(func, args, kwargs)

    @property
    def dtype(self):
        return np.dtype([(c, self.dtypes.get(c, KIND_DT[a.kind])) for c, a in self.cols.items()])

    @property
    def size(self):
        return pyint(SV(self.dom.n))

    @property
    def shape(self):
        return (pyint(SV(self.dom.n)),)

    @property
    def ndim(self):
        return 1

    def __len__(self):
        raise Unsupported('len() of a symbolic table outside patched code')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic-length table')

    def copy(self):
        return SRec(self.dom, {c: a.copy() for c, a in self.cols.items()}, self.dtypes)

    def __getitem__(self, ix):
        if isinstance(ix, str):
            if ix not in self.cols:
                raise ValueError('no field of name %s' % ix)
            return self.cols[ix]
        if isinstance(ix, list) and ix and all(isinstance(x, str) for x in ix):
            return SRec(self.dom, {c: self.cols[c] for c in ix}, self.dtypes)
        if isinstance(ix, (int, np.integer, SV)):
            return SRow({c: a[ix] for c, a in self.cols.items()})
        first = None
        cols = {}
        for c, a in self.cols.items():
            cols[c] = a[ix]
            cols[c].view_of = None
            first = cols[c]
        return SRec(first.dom, cols, self.dtypes)

    def __setitem__(self, ix, v):
        if isinstance(ix, str):
            if ix not in self.cols:
                raise ValueError('no field of name %s' % ix)
            self.cols[ix][:] = v
            return
        if isinstance(v, SRec):
            for c in self.cols:
                self.cols[c][ix] = v.cols[c]
            return
        raise Unsupported('row assignment')

    def sort(self, order=None, kind=None):
        from .npmodel import rec_sort
        r = rec_sort(self, order)
        self.dom = r.dom
        for c in self.cols:
            self.cols[c].assign(r.cols[c].dom, r.cols[c].body)


class SRow:
    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, c):
        return self.cols[c]


class SMasked:
    """masked array: data SArr, mask SArr(bool) on the same domain"""
    __array_priority__ = 2000

    def __init__(self, data, mask, fill=None):
        self.data = data
        self.mask = mask
        self.fill_value = fill

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .npmodel import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npmodel import func_dispatch
        return func_dispatch(func, args, kwargs)

    @property
    def size(self):
        return self.data.size

    @property
    def dom(self):
        return self.data.dom

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return self.data.dtype

    def compressed(self):
        m = ~self.mask
        return self.data[m]

    def filled(self, fv=None):
        fv = self.fill_value if fv is None else fv
        dom, d, m = align2(self.data, self.mask)
        r = ite(m, fv, SV(d, self.data.kind))
        return SArr(dom, r.t, r.kind)

    def copy(self):
        return SMasked(self.data.copy(), self.mask.copy(), self.fill_value)

    def __len__(self):
        raise Unsupported('len')

    def __getitem__(self, ix):
        if isinstance(ix, (int, np.integer, SV)):
            raise Unsupported('masked element')
        return SMasked(self.data[ix], self.mask[ix], self.fill_value)

    def sum(self):
        return self.compressed().sum()

    def max(self):
        return self.compressed().max()

    def min(self):
        return self.compressed().min()

    def mean(self):
        return self.compressed().mean()


def masked_op(name, a, b):
    if isinstance(a, SMasked) and isinstance(b, SMasked):
        return SMasked(arr_op(name, a.data, b.data), arr_op('or', a.mask, b.mask))
    if isinstance(a, SMasked):
        if isinstance(b, SArr) or _ok_scalar(b):
            return SMasked(arr_op(name, a.data, b), a.mask.copy(), a.fill_value)
    elif isinstance(a, SArr) or _ok_scalar(a):
        return SMasked(arr_op(name, a, b.data), b.mask.copy(), b.fill_value)
    raise Unsupported('masked op')


_install(SMasked)
