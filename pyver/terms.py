"""Term helpers on top of z3: constants, functionals over arrays, normal forms.

Arrays of unbounded length are represented by a *body*: a z3 term over the canonical integer constant IV.  Functionals
(sum, count, max, selection, sorting ...) are uninterpreted functions applied to z3 lambdas; prover.py replaces every
closed lambda by a constant and adds sound instances of the axioms of each functional.
"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import math
from fractions import Fraction
import z3

z3.set_param('auto_config', True)

IV = z3.Int('i!')
AR = z3.ArraySort(z3.IntSort(), z3.RealSort())
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
AB = z3.ArraySort(z3.IntSort(), z3.BoolSort())
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

SUM = z3.Function('SUM', AR, R)
CNT = z3.Function('CNT', AB, I)
MAXF = z3.Function('MAXF', AR, AB, R)
MINF = z3.Function('MINF', AR, AB, R)
PCT = z3.Function('PCT', AR, AB, R, R)
NUNIQ = z3.Function('NUNIQ', AR, AB, I)      # number of distinct values
UNIQ = z3.Function('UNIQ', AR, AB, I, R)     # k-th distinct value in increasing order
SEL = z3.Function('SEL', AB, I, I)           # k-th true index
RANK = z3.Function('RANK', AB, I, I)         # inverse of SEL
ARGS = z3.Function('ARGS', AR, I, I, I)      # argsort(key, n)[k]
ARGI = z3.Function('ARGI', AR, I, I, I)      # inverse permutation
INTERP = z3.Function('INTERP', R, AR, AR, I, R)
AMAX = z3.Function('AMAX', AR, AB, I)        # index of the (first) maximum
AMIN = z3.Function('AMIN', AR, AB, I)
GEN = {}                                     # further uninterpreted functionals by name

P10 = z3.Function('P10', R, R)
L10 = z3.Function('L10', R, R)
EXP = z3.Function('EXP', R, R)
LN = z3.Function('LN', R, R)
SQRT = z3.Function('SQRT', R, R)
POW = z3.Function('POW', R, R, R)
SIN = z3.Function('SIN', R, R)
COS = z3.Function('COS', R, R)
TAN = z3.Function('TAN', R, R)
ASIN = z3.Function('ASIN', R, R)
ACOS = z3.Function('ACOS', R, R)
ATAN = z3.Function('ATAN', R, R)
ATAN2 = z3.Function('ATAN2', R, R, R)
PI = z3.Real('PI!')
NANC = z3.Real('NAN!')   # an opaque value standing for nan where code returns it explicitly

LIMITS = {'pairs': 24}   # positions of an input array paired with each other in order axioms
FUNCTIONALS = {'SUM', 'CNT', 'MAXF', 'MINF', 'PCT', 'NUNIQ', 'UNIQ', 'SEL', 'RANK', 'ARGS', 'ARGI', 'INTERP',
               'AMAX', 'AMIN'}
TRANS = {'P10', 'L10', 'EXP', 'LN', 'SQRT', 'POW', 'SIN', 'COS', 'TAN', 'ASIN', 'ACOS', 'ATAN', 'ATAN2'}


def gen_functional(name, *sorts):
    if name not in GEN:
        GEN[name] = z3.Function(name, *sorts)
    return GEN[name]


_strcode = {}
_strname = {}


def strcode(s):
    s = str(s)
    if s not in _strcode:
        # order-preserving enough for single characters: codes are distinct integers
        c = 1000 + len(_strcode)
        _strcode[s] = c
        _strname[c] = s
    return _strcode[s]


def strname(c):
    return _strname.get(c, 's%d' % c)


def frac_of_float(x):
    x = float(x)
    f = Fraction(repr(x)) if math.isfinite(x) else None
    if f is None:
        raise ValueError('non-finite')
    if f.denominator <= 10 ** 9 and abs(f.numerator) < 10**15:
        return f
    g = Fraction(x).limit_denominator(10 ** 7)
    if float(g) == x:
        return g
    return f


def real_const(x):
    """z3 real for a concrete python/numpy number; floats are read as the real number they denote (1/24., pi ...)."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    x = float(x)
    if x != x:
        return NANC
    if math.isinf(x):
        return z3.Real('INF!') if x > 0 else -z3.Real('INF!')
    f = frac_of_float(x)
    if f.denominator > 10 ** 9 or len(repr(x)) >= 16:
        q = Fraction(x / math.pi).limit_denominator(100000)
        if q != 0 and abs(q.numerator) * q.denominator < 10 ** 8 and abs(float(q) * math.pi - x) <= 4e-16 * abs(x):
            return z3.simplify(z3.RealVal(q) * PI)
        q = Fraction(x * math.pi).limit_denominator(100000)
        if q != 0 and abs(q.numerator) * q.denominator < 10 ** 8 and abs(float(q) / math.pi - x) <= 4e-16 * abs(x):
            return z3.simplify(z3.RealVal(q)) / PI
    return z3.RealVal(f)


def to_real(t):
    if t.sort() == R:
        return t
    if t.sort() == I:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == B:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    raise TypeError(t.sort())


def to_int(t):
    if t.sort() == I:
        return t
    if t.sort() == B:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(t.sort())


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (prefix, _fresh[0]), sort)


def reset_fresh():
    _fresh[0] = 0


def subst(t, old, new):
    return z3.substitute(t, (old, new))


def lam(body, var=IV):
    return z3.Lambda([var], body)


def lam_body(L, idx):
    """beta-reduce a lambda at idx."""
    return z3.substitute_vars(L.body(), idx)


def is_lambda(t):
    return z3.is_quantifier(t) and t.is_lambda()


_mention_cache = {}


def mentions(t, c):
    """does constant c occur in t (also below binders)?"""
    key = (t.get_id(), c.get_id())
    if key in _mention_cache:
        return _mention_cache[key][0]
    seen = set()
    st = [t]
    res = False
    cid = c.get_id()
    while st:
        x = st.pop()
        xid = x.get_id()
        if xid in seen:
            continue
        seen.add(xid)
        if xid == cid:
            res = True
            break
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            st.extend(x.children())
    _mention_cache[key] = (res, t, c)
    return res


def simp(t):
    return z3.simplify(t)


def lin_split(t, var):
    """Write the real term t as a list of (coefficient, monomial) with coefficients free of var.

    t == sum(c*m); used for the linearity of SUM.
    """
    one = z3.RealVal(1)

    def go(t):
        if not mentions(t, var):
            return [(t, None)]
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            r = []
            for c in t.children():
                r += go(c)
            return r
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = go(ch[0])
            for c in ch[1:]:
                r += [(-a, m) for a, m in go(c)]
            return r
        if k == z3.Z3_OP_UMINUS:
            return [(-a, m) for a, m in go(t.arg(0))]
        if k == z3.Z3_OP_MUL:
            acc = [(one, None)]
            for c in t.children():
                g = go(c)
                if len(acc) * len(g) > 64:
                    return [(one, t)]
                acc = [(a * b, mulm(m, n)) for a, m in acc for b, n in g]
            return acc
        if k == z3.Z3_OP_DIV:
            num, den = t.children()
            if not mentions(den, var):
                return [(a / den, m) for a, m in go(num)]
            # split a product denominator into its var-free part
            dco, dm = fac(den)
            return [(a / dco, divm(m, dm)) for a, m in go(num)]
        if k == z3.Z3_OP_ITE:
            c, a, b = t.children()
            if z3.is_rational_value(b) and b.as_fraction() == 0:
                return [(co, iteM(c, m)) for co, m in go(a)]
            return [(one, t)]
        if k == z3.Z3_OP_TO_REAL:
            x = t.arg(0)
            return [(one, t)]
        return [(one, t)]

    def fac(d):
        if not mentions(d, var):
            return d, None
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_MUL:
            co, m = one, None
            for c in d.children():
                a, n = fac(c)
                co = co * a
                m = mulm(m, n)
            return co, m
        return one, d

    def mulm(a, b):
        if a is None:
            return b
        if b is None:
            return a
        fs = factors(a) + factors(b)
        fs.sort(key=lambda e: e.get_id())
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def factors(a):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
            r = []
            for c in a.children():
                r += factors(c)
            return r
        return [a]

    def divm(a, b):
        if b is None:
            return a
        return (one if a is None else a) / b

    def iteM(c, m):
        return z3.If(c, one if m is None else m, z3.RealVal(0))

    t = z3.simplify(t)
    acc = {}
    order = []
    for c, m in go(t):
        key = None if m is None else m.get_id()
        if key not in acc:
            acc[key] = [c, m]
            order.append(key)
        else:
            acc[key][0] = acc[key][0] + c
    return [tuple(acc[k]) for k in order]


def sum_bag(body, guard, count=None):
    """sum over integers i with guard(i) of body(i); guard must have finite support. Both over IV."""
    if count is None:
        count = cnt_bag(guard)
    body = to_real(body)
    total = []
    for c, m in lin_split(body, IV):
        if m is None:
            total.append(c * to_real(count))
        else:
            inner = z3.simplify(z3.If(guard, m, z3.RealVal(0)))
            if z3.is_rational_value(inner) and inner.as_fraction() == 0:
                continue
            # indicator sums are counts
            if z3.is_app(inner) and inner.decl().kind() == z3.Z3_OP_ITE:
                cc, a, b = inner.children()
                if z3.is_rational_value(a) and z3.is_rational_value(b) and b.as_fraction() == 0:
                    total.append(c * a * to_real(cnt_bag(cc)))
                    continue
            total.append(c * SUM(lam(inner)))
    if not total:
        return z3.RealVal(0)
    r = total[0]
    for t in total[1:]:
        r = r + t
    return r


def in_range(n, i=IV):
    return z3.And(i >= 0, i < n)


def cnt_bag(guard):
    g = z3.simplify(guard)
    if z3.is_false(g):
        return z3.IntVal(0)
    return CNT(lam(g))
