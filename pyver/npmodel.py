"""Axiomatised model of the numpy/scipy functions that the code under contract calls (trusted)."""
import builtins
import math
import types
import numpy as np
import z3
from fractions import Fraction
from .terms import *  # noqa
from .sym import *  # noqa
from .sym import (binop, arr_op, lift, lift_arr, num, truth, ite, cast_scalar, align2, align_to, rng, perm_dom, gather,
                  filter_dom, mask_index, t_p10, t_sqrt, t_pow, t_floor, t_ceil, isnum, val, _ok_scalar, pyint, same_dom,
                  np_round)


# ------------------------------------------------------------------ element-wise
def emap(f, x, dom_needed=True):
    """apply scalar function f: SV->SV over scalar or array"""
    if isinstance(x, SMasked):
        return SMasked(emap(f, x.data), x.mask.copy(), x.fill_value)
    if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim):
        x = lift_arr(x)
    if isinstance(x, SArr):
        with eng().indexed(x.dom):
            v = f(SV(x.body, x.kind))
        return SArr(x.dom, v.t, v.kind)
    return f(lift(x))


def _r(v):
    return to_real(num(v))


def s_log10(v):
    t = _r(v)
    if not isnum(t):
        eng().defined(t > 0, 'log10 of a non-positive value')
    elif val(t) == 1:
        return SV(z3.RealVal(0))
    if z3.is_app(t) and t.decl().eq(P10):
        return SV(t.arg(0))
    return SV(L10(t))


def s_log(v):
    t = _r(v)
    if not isnum(t):
        eng().defined(t > 0, 'log of a non-positive value')
    if z3.is_app(t) and t.decl().eq(EXP):
        return SV(t.arg(0))
    return SV(LN(t))


def s_sqrt(v):
    t = _r(v)
    if not isnum(t):
        eng().defined(t >= 0, 'sqrt of a negative value')
    return SV(t_sqrt(t))


def s_sign(v):
    t = num(v)
    one, zero = (z3.IntVal(1), z3.IntVal(0)) if t.sort() == I else (z3.RealVal(1), z3.RealVal(0))
    return SV(z3.If(t > 0, one, z3.If(t < 0, -one, zero)))


def s_sin(v):
    t = z3.simplify(_r(v))
    return SV(SIN(t))


UNARY = {
    'log10': s_log10, 'log': s_log, 'sqrt': s_sqrt, 'exp': lambda v: SV(EXP(_r(v))),
    'sin': lambda v: SV(SIN(_r(v))), 'cos': lambda v: SV(COS(_r(v))), 'tan': lambda v: SV(TAN(_r(v))),
    'arcsin': lambda v: SV(ASIN(_r(v))), 'arccos': lambda v: SV(ACOS(_r(v))), 'arctan': lambda v: SV(ATAN(_r(v))),
    'radians': lambda v: SV(_r(v) * PI / 180), 'deg2rad': lambda v: SV(_r(v) * PI / 180),
    'degrees': lambda v: SV(_r(v) * 180 / PI), 'rad2deg': lambda v: SV(_r(v) * 180 / PI),
    'floor': lambda v: SV(to_real(t_floor(num(v)))), 'ceil': lambda v: SV(to_real(t_ceil(num(v)))),
    'trunc': lambda v: SV(to_real(num(cast_scalar(v, int)))),
    'absolute': builtins.abs, 'fabs': builtins.abs, 'negative': lambda v: -v, 'positive': lambda v: v,
    'square': lambda v: v * v, 'sign': s_sign, 'rint': lambda v: np_round(v),
    'logical_not': lambda v: SV(z3.Not(truth(v))), 'invert': lambda v: ~v,
    'isnan': lambda v: SV(_r(v) == NANC) if eng().nan_used else SV(z3.BoolVal(False)),
    'isfinite': lambda v: SV(_r(v) != NANC) if eng().nan_used else SV(z3.BoolVal(True)),
    'isinf': lambda v: SV(z3.BoolVal(False)),
    'reciprocal': lambda v: 1.0 / SV(_r(v)),
}
BINARY = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'true_divide': 'div', 'remainder': 'mod',
          'floor_divide': 'floordiv', 'power': 'pow', 'float_power': 'pow', 'less': 'lt', 'less_equal': 'le',
          'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne', 'bitwise_and': 'and',
          'bitwise_or': 'or', 'bitwise_xor': 'xor', 'logical_and': 'and', 'logical_or': 'or', 'logical_xor': 'xor',
          'mod': 'mod', 'fmod': None}


def bmap(f, a, b):
    """apply scalar f(SV,SV) with broadcasting"""
    if isinstance(a, SMasked) or isinstance(b, SMasked):
        raise Unsupported('masked')
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim):
        a = lift_arr(a)
    if isinstance(b, (list, tuple)) or (isinstance(b, np.ndarray) and b.ndim):
        b = lift_arr(b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        dom, x, y = align2(a, b)
        with eng().indexed(dom):
            v = f(SV(x, a.kind), SV(y, b.kind))
        return SArr(dom, v.t, v.kind)
    if isinstance(a, SArr):
        with eng().indexed(a.dom):
            v = f(SV(a.body, a.kind), lift(b))
        return SArr(a.dom, v.t, v.kind)
    if isinstance(b, SArr):
        with eng().indexed(b.dom):
            v = f(lift(a), SV(b.body, b.kind))
        return SArr(b.dom, v.t, v.kind)
    return f(lift(a), lift(b))


BIN2 = {'maximum': lambda a, b: ite(truth(a >= b), a, b), 'minimum': lambda a, b: ite(truth(a <= b), a, b),
        'fmax': lambda a, b: ite(truth(a >= b), a, b), 'fmin': lambda a, b: ite(truth(a <= b), a, b),
        'arctan2': lambda a, b: SV(ATAN2(_r(a), _r(b))),
        'hypot': lambda a, b: SV(t_sqrt(_r(a) * _r(a) + _r(b) * _r(b)))}


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    kw = {k: v for k, v in kw.items() if k not in ('where', 'casting', 'dtype') or (k == 'where' and v is not True)}
    if 'where' in kw:
        raise Unsupported('ufunc where=')
    if method == 'accumulate':
        if name == 'add':
            return m_cumsum(inputs[0])
        if name == 'maximum':
            return m_cummax(inputs[0])
        raise Unsupported('%s.accumulate' % name)
    if method == 'reduce':
        return {'add': m_sum, 'maximum': m_max, 'minimum': m_min, 'logical_and': m_all, 'logical_or': m_any}[name](inputs[0])
    if method != '__call__':
        raise Unsupported('%s.%s' % (name, method))
    if name in UNARY:
        r = emap(UNARY[name], inputs[0])
    elif name in BINARY and BINARY[name]:
        r = binop(BINARY[name], inputs[0], inputs[1])
    elif name in BIN2:
        r = bmap(BIN2[name], inputs[0], inputs[1])
    else:
        raise Unsupported('ufunc %s' % name)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is None:
            return r
        if isinstance(o, SArr):
            o[:] = r
            return o
        raise Unsupported('out=')
    return r


# ------------------------------------------------------------------ reductions
def arrize(x):
    if isinstance(x, SMasked):
        return x.compressed()
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple, np.ndarray)):
        return lift_arr(x)
    raise Unsupported('reduction over %s' % type(x))


def _sign(t):
    """structural sign of a real term: 2 positive, 1 non-negative, 0 unknown"""
    if isnum(t):
        return 2 if val(t) > 0 else 1 if val(t) == 0 else 0
    if not z3.is_app(t):
        return 0
    d = t.decl()
    if d.eq(P10) or d.eq(EXP) or t.eq(PI):
        return 2
    if d.eq(SQRT):
        return 2 if _sign(t.arg(0)) == 2 else 1
    k = d.kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        ss = [_sign(c) for c in ch]
        return 0 if 0 in ss else builtins.max(ss)
    if k == z3.Z3_OP_MUL:
        fs = []
        st = list(ch)
        while st:
            c = st.pop()
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
                st += c.children()
            else:
                fs.append(c)
        cnt = {}
        for c in fs:
            cnt.setdefault(c.get_id(), [c, 0])[1] += 1
        r = 2
        for c, m in cnt.values():
            s = _sign(c)
            if m % 2 == 0:
                s = builtins.max(s, 1)
            if s == 0:
                return 0
            r = builtins.min(r, s)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = _sign(ch[0]), _sign(ch[1])
        return builtins.min(a, b) if a and b == 2 else 0
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        # |x|
        s = z3.simplify(z3.If(a >= 0, a, -a))
        if z3.simplify(t).eq(s):
            return 1
        return builtins.min(_sign(a), _sign(b))
    if k == z3.Z3_OP_TO_REAL:
        return 1 if z3.is_app(ch[0]) and ch[0].decl().eq(CNT) else 0
    return 0


def _integral(t):
    if isnum(t):
        return val(t).denominator == 1
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return builtins.all(_integral(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return _integral(t.arg(1)) and _integral(t.arg(2))
    return False


def bagsum(body, guard, n):
    """sum with the sign lemmas that linear splitting of the summand would lose"""
    s = sum_bag(body, guard, n)
    sg = _sign(to_real(body))
    if sg and not isnum(s) and not mentions(s, IV):
        eng().assume(s >= 0)
        if sg == 2:
            eng().assume(z3.Implies(n > 0, s > 0))
    if not isnum(s) and not mentions(s, IV) and _integral(to_real(body)):
        eng().assume(z3.IsInt(s))
    return s


def m_sum(x, axis=None, dtype=None, **kw):
    if isinstance(x, SV):
        return x
    x = arrize(x)
    if x.kind == 'b':
        g = z3.And(x.bag(), x.body)
        return SV(cnt_bag(g))
    s = bagsum(x.body if x.kind == 'r' else to_real(x.body), x.bag(), x.dom.n)
    if x.kind == 'i':
        return SV(z3.ToInt(s))
    return SV(s)


def m_mean(x, axis=None, **kw):
    if isinstance(x, SV):
        return x
    x = arrize(x)
    n = SV(x.dom.n)
    eng().defined(x.dom.n > 0, 'mean of an empty array')
    with eng().nodef():
        return (SV(bagsum(to_real(num(SV(x.body, x.kind))), x.bag(), x.dom.n))) / n


def m_var(x, axis=None, ddof=0, **kw):
    x = arrize(x)
    mu = m_mean(x)
    d = x - mu
    n = SV(x.dom.n)
    s = SV(bagsum(to_real((d * d).body), d.bag(), x.dom.n))
    with eng().nodef():
        return s / (n - ddof)


def m_std(x, axis=None, ddof=0, **kw):
    return SV(t_sqrt(m_var(x, ddof=ddof).t))


def _valguard(x):
    g = x.bag()
    b = to_real(num(SV(x.body, x.kind)))
    return lam(z3.simplify(z3.If(g, b, z3.RealVal(0)))), lam(g)


def _nonempty(x, what):
    if not eng().branch(x.dom.n > 0):
        raise ValueError('zero-size array to reduction operation %s which has no identity' % what)


def _int_back(x, t):
    return SV(z3.ToInt(t)) if x.kind == 'i' else SV(t)


def m_max(x, axis=None, **kw):
    if isinstance(x, SV):
        return x
    x = arrize(x)
    _nonempty(x, 'maximum')
    v, g = _valguard(x)
    return _int_back(x, MAXF(v, g))


def m_min(x, axis=None, **kw):
    if isinstance(x, SV):
        return x
    x = arrize(x)
    _nonempty(x, 'minimum')
    v, g = _valguard(x)
    return _int_back(x, MINF(v, g))


def m_ptp(x, axis=None):
    return m_max(x) - m_min(x)


def m_any(x, axis=None, **kw):
    if isinstance(x, SV):
        return SV(truth(x))
    x = arrize(x)
    return SV(cnt_bag(z3.And(x.bag(), truth(SV(x.body, x.kind)))) > 0)


def m_all(x, axis=None, **kw):
    if isinstance(x, SV):
        return SV(truth(x))
    x = arrize(x)
    return SV(cnt_bag(z3.And(x.bag(), z3.Not(truth(SV(x.body, x.kind))))) == 0)


def m_count_nonzero(x, axis=None, **kw):
    x = arrize(x)
    return SV(cnt_bag(z3.And(x.bag(), truth(SV(x.body, x.kind)))))


def m_argmax(x, axis=None):
    x = arrize(x).positional()
    _nonempty(x, 'argmax')
    v, g = _valguard(x)
    return SV(AMAX(v, g))


def m_argmin(x, axis=None):
    x = arrize(x).positional()
    _nonempty(x, 'argmin')
    v, g = _valguard(x)
    return SV(AMIN(v, g))


def m_percentile(x, q, axis=None, **kw):
    x = arrize(x)
    eng().defined(x.dom.n > 0, 'percentile of an empty array')
    v, g = _valguard(x)
    return SV(PCT(v, g, _r(lift(q))))


def m_median(x, axis=None, **kw):
    if isinstance(x, SV):
        return x
    x = arrize(x)
    eng().defined(x.dom.n > 0, 'median of an empty array')
    v, g = _valguard(x)
    return SV(PCT(v, g, z3.RealVal(50)))


def m_quantile(x, q, axis=None, **kw):
    return m_percentile(x, lift(q) * 100)


def m_cumsum(x, axis=None, **kw):
    x = arrize(x).positional()
    if x.kind != 'b' and not mentions(x.body, IV):
        v = z3.simplify(x.body * (IV + 1 if x.kind == 'i' else z3.ToReal(IV + 1)))
        return SArr(rng(x.dom.n), v)
    j = fresh('c', I)
    b = to_real(num(SV(x.body, x.kind)))
    g = z3.And(in_range(x.dom.n), IV <= j)
    s = sum_bag(b, g) if x.kind != 'b' else None
    if s is None:
        s = to_real(cnt_bag(z3.And(g, x.body)))
    s = subst(s, j, IV)
    if x.kind in 'ib':
        s = z3.ToInt(s)
    return SArr(rng(x.dom.n), s)


def m_cummax(x):
    x = arrize(x).positional()
    j = fresh('c', I)
    g = z3.simplify(z3.And(in_range(x.dom.n), IV <= j))
    b = to_real(num(SV(x.body, x.kind)))
    t = MAXF(lam(z3.simplify(z3.If(g, b, z3.RealVal(0)))), lam(g))
    t = subst(t, j, IV)
    return SArr(rng(x.dom.n), z3.ToInt(t) if x.kind == 'i' else t)


# ------------------------------------------------------------------ selection, sorting
def m_where(c, *ab):
    if not ab:
        if isinstance(c, SMasked):
            c = c.filled(False)
        if isinstance(c, (list, np.ndarray)):
            c = lift_arr(c)
        if isinstance(c, SV):
            raise Unsupported('where on scalar')
        if c.kind != 'b':
            c = SArr(c.dom, truth(SV(c.body, c.kind)), 'b')
        return (mask_index(c),)
    a, b = ab
    if isinstance(c, (SV, bool, np.bool_)) and not isinstance(a, SArr) and not isinstance(b, SArr):
        return ite(truth(c), a, b)
    r = bmap(lambda x, y: SV(z3.And(truth(x), y.t)) if False else x, c, c)
    if isinstance(c, SArr):
        dom = c.dom
    else:
        raise Unsupported('where with scalar condition')
    doms = [x for x in (a, b) if isinstance(x, (SArr, list, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0)]
    doms = [lift_arr(x) for x in doms]
    if builtins.all(same_dom(d.dom, dom) for d in doms):
        f = lambda x: SV(lift_arr(x).body, lift_arr(x).kind) if not _ok_scalar(x) else lift(x)
        v = ite(truth(SV(c.body, c.kind)), f(a), f(b))
        return SArr(dom, v.t, v.kind)
    cp = c.positional()

    def g(x):
        if _ok_scalar(x):
            return lift(x)
        x = lift_arr(x)
        return SV(align_to(x, cp.dom), x.kind)
    v = ite(truth(SV(cp.body, cp.kind)), g(a), g(b))
    return SArr(cp.dom, v.t, v.kind)


def sort_key(x):
    if x.kind == 's':
        return to_real(x.body)
    return to_real(num(SV(x.body, x.kind)))


def m_argsort(x, axis=-1, kind=None, order=None, **kw):
    if isinstance(x, SRec):
        x = x[order if isinstance(order, str) else order[0]]
    x = arrize(x)
    d = perm_dom(x.dom, sort_key(x))
    return SArr(d, x.dom.rank(IV), 'i')


def m_sort(x, axis=-1, kind=None, order=None, **kw):
    if isinstance(x, SRec):
        return rec_sort(x, order)
    x = arrize(x)
    if already_sorted(x):
        return x.copy()
    d = perm_dom(x.dom, sort_key(x))
    return SArr(d, x.body, x.kind)


def rec_sort(r, order):
    if order is None:
        raise Unsupported('structured sort without order')
    if isinstance(order, (list, tuple)):
        if len(order) != 1:
            raise Unsupported('multi-key sort')
        order = order[0]
    key = r.cols[order]
    d = perm_dom(key.dom, sort_key(key))
    cols = {}
    for c, a in r.cols.items():
        body = a.body if same_dom(a.dom, key.dom) else align_to(a, key.dom)
        cols[c] = SArr(d, body, a.kind)
    return SRec(d, cols, r.dtypes)


def m_unique(x, return_counts=False, return_index=False, return_inverse=False, **kw):
    if return_index or return_inverse:
        raise Unsupported('unique with index/inverse')
    x = arrize(x)
    v, g = _valguard(x)if x.kind != 's' else (lam(z3.simplify(z3.If(x.bag(), to_real(x.body), z3.RealVal(0)))), lam(x.bag()))
    n = NUNIQ(v, g)
    b = UNIQ(v, g, IV)
    u = SArr(rng(n), z3.ToInt(b) if x.kind in 'is' else b, 's' if x.kind == 's' else ('i' if x.kind == 'i' else 'r'))
    if not return_counts:
        u.uniq_of = x
        return u
    j = fresh('u', I)
    xb = to_real(num(SV(x.body, x.kind))) if x.kind != 's' else to_real(x.body)
    c = cnt_bag(z3.And(x.bag(), xb == UNIQ(v, g, j)))
    return u, SArr(rng(n), subst(c, j, IV))


def already_sorted(a, ms=300):
    if a.kind == 's' or not a.dom.is_range():
        return False
    k = fresh('k', I)
    x, y = to_real(num(a.get(k))), to_real(num(a.get(k + 1)))
    return eng()._check(z3.And(k >= 0, k + 1 < a.dom.n, z3.Not(x <= y)), ms) == z3.unsat


def need_sorted(a):
    """precondition of the binary-search model"""
    d = a.dom
    if d.key is not None and d.key[0] == 'perm':
        L = d.key[2]
        p = d.key[3]
        kb = sort_key(a)
        kb = subst(kb, IV, p.map(IV)) if p.mapf else kb
        if z3.simplify(z3.If(in_range(p.n), kb, z3.RealVal(0))).eq(lam_body(L, IV)):
            return
    k = fresh('k', I)
    x, y = to_real(num(a.get(k))), to_real(num(a.get(k + 1)))
    c = z3.And(k >= 0, k + 1 < d.n, z3.Not(x <= y))
    e = eng()
    if e._check(c, 1500) != z3.unsat:
        raise Unsupported('array not provably sorted where the code needs it sorted')


def m_searchsorted(a, v, side='left', sorter=None):
    a = arrize(a)
    need_sorted(a)
    if sorter is not None:
        raise Unsupported('sorter')

    def one(x):
        j = fresh('v', R)
        b = to_real(num(SV(a.body, a.kind)))
        c = cnt_bag(z3.And(a.bag(), b < j if side == 'left' else b <= j))
        return SV(subst(c, j, to_real(num(x))))
    return emap(one, v)


def m_digitize(x, bins, right=False):
    return m_searchsorted(bins, x, 'left' if right else 'right')


def m_histogram(x, bins=10, range=None, weights=None, density=None, **kw):
    if range is not None or weights is not None or density or isinstance(bins, (int, SV)):
        raise Unsupported('histogram options')
    x, b = arrize(x), arrize(bins)
    need_sorted(b)
    b = b.positional()
    k = fresh('h', I)
    nb = z3.simplify(b.dom.n - 1)
    xb = to_real(num(SV(x.body, x.kind)))
    lo, hi = to_real(num(b.get(k))), to_real(num(b.get(k + 1)))
    g = z3.And(x.bag(), xb >= lo, z3.Or(xb < hi, z3.And(k == nb - 1, xb <= hi)))
    return SArr(rng(nb), subst(cnt_bag(g), k, IV)), bins


def m_bincount(x, weights=None, minlength=0):
    x = arrize(x)
    if weights is not None or minlength or x.kind != 'i':
        raise Unsupported('bincount options')
    k = fresh('h', I)
    top = m_max(x)
    return SArr(rng(z3.simplify(num(top) + 1)), subst(cnt_bag(z3.And(x.bag(), x.body == k)), k, IV))


def m_diff(x, n=1, axis=-1, append=None, prepend=None):
    x = arrize(x).positional()
    if append is not None:
        x = m_append(x, append)
    if prepend is not None:
        x = _cat2(lift_arr([prepend]), x) if _ok_scalar(prepend) else _cat2(arrize(prepend).positional(), x)
    ln = z3.simplify(x.dom.n - 1)
    if not eng().must(x.dom.n >= 1):
        ln = z3.simplify(z3.If(x.dom.n >= 1, x.dom.n - 1, z3.IntVal(0)))
    v = x.get(IV + 1) - x.get(IV)
    return SArr(rng(ln), v.t, v.kind)


def m_roll(x, s, axis=None):
    x = arrize(x).positional()
    n = x.dom.n
    s = num(lift(s))
    p = IV - s
    # position modulo n
    if eng().must(z3.And(s >= 0, s <= n)):
        p = z3.If(p < 0, p + n, p)
    elif eng().must(z3.And(s <= 0, s >= -n)):
        p = z3.If(p >= n, p - n, p)
    else:
        p = p % n
    return SArr(rng(n), x.get(z3.simplify(p)).t, x.kind)


def m_concatenate(xs, axis=0, **kw):
    xs = list(xs)
    if builtins.any(isinstance(x, SRec) for x in xs):
        raise Unsupported('record concatenate')
    xs = [arrize(x).positional() for x in xs]
    r = xs[0]
    for y in xs[1:]:
        r = _cat2(r, y)
    return r


def _cat2(a, b):
    v = ite(IV < a.dom.n, SV(a.body, a.kind), b.get(IV - a.dom.n))
    return SArr(rng(z3.simplify(a.dom.n + b.dom.n)), v.t, v.kind)


def m_append(a, b, axis=None):
    a = arrize(a).positional()
    b = lift_arr([b]) if _ok_scalar(b) else arrize(b).positional()
    return _cat2(a, b)


def m_insert(a, pos, v, axis=None):
    a = arrize(a).positional()
    if _ok_scalar(v) and isinstance(pos, int) and pos == 0:
        return _cat2(lift_arr([v]), a)
    raise Unsupported('insert')


def m_interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported('interp options')
    xp, fp = arrize(xp).positional(), arrize(fp).positional()
    n = xp.dom.n
    if not eng().must(z3.And(n >= 1, n == fp.dom.n)):
        raise Unsupported('interp: grid and values of unproved equal length')
    k = T.fresh('k', I)
    if eng()._check(z3.And(k >= 0, k < n - 1, z3.Not(_r(xp.get(k)) < _r(xp.get(k + 1)))), eng().branch_ms) != z3.unsat:
        raise Unsupported('interp: grid not proved to be increasing')
    L1 = lam(z3.simplify(z3.If(in_range(xp.dom.n), _r(SV(xp.body, xp.kind)), z3.RealVal(0))))
    L2 = lam(z3.simplify(z3.If(in_range(xp.dom.n), _r(SV(fp.body, fp.kind)), z3.RealVal(0))))
    return emap(lambda v: SV(INTERP(_r(v), L1, L2, xp.dom.n)), x)


def m_isin(x, test, invert=False, **kw):
    x = arrize(x)
    if isinstance(test, (list, tuple, np.ndarray)):
        ts = list(test)
        c = z3.Or(*[truth(SV(x.body, x.kind) == t) for t in ts]) if ts else z3.BoolVal(False)
    else:
        t = arrize(test)
        j = fresh('q', R)
        c = cnt_bag(z3.And(t.bag(), _r(SV(t.body, 'i' if t.kind == 's' else t.kind)) == j)) > 0
        c = subst(c, j, _r(SV(x.body, 'i' if x.kind == 's' else x.kind)))
    return SArr(x.dom, z3.Not(c) if invert else c, 'b')


def m_clip(x, lo, hi, **kw):
    r = x
    if lo is not None:
        r = bmap(BIN2['maximum'], r, lo)
    if hi is not None:
        r = bmap(BIN2['minimum'], r, hi)
    return r


def m_trapz(y, x=None, dx=1.0, axis=-1):
    y = arrize(y).positional()
    if x is None:
        raise Unsupported('trapz without x')
    x = arrize(x).positional()
    d = m_diff(x)
    ln = d.dom
    m = SArr(ln, ((y.get(IV + 1) + y.get(IV)) / 2.0).t)
    return m_sum(d * m)


def m_nan_to_num(x, **kw):
    return x


def m_round(x, decimals=0, **kw):
    return emap(lambda v: np_round(v, decimals) if v.kind == 'r' else v, x)


def m_flip(x, axis=None):
    return arrize(x)[::-1].copy()


def m_dot(a, b):
    return m_sum(arrize(a) * arrize(b))


def m_outer(a, b):
    raise Unsupported('outer')


# ------------------------------------------------------------------ creation
def is_len_sym(n):
    return deep_sym(n)


def dim(n):
    if isinstance(n, (tuple, list)):
        if len(n) == 1:
            return dim(n[0])
        raise Unsupported('nd creation')
    t = num(lift(n))
    if t.sort() != I:
        raise TypeError('dimension must be an integer')
    return t


def dt_kind(dtype):
    if dtype is None:
        return 'r'
    d = np.dtype(dtype)
    return {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b', 'U': 's', 'S': 's'}.get(d.kind) or _uns('dtype %s' % d)


def _uns(m):
    raise Unsupported(m)


def c_full(n, v, dtype=None):
    v = lift(v)
    if dtype is not None:
        v = cast_scalar(v, dtype)
    return SArr(rng(dim(n)), v.t, v.kind)


def c_zeros(n, dtype=None, **kw):
    if dtype is not None and np.dtype(dtype).names:
        return c_rec(n, np.dtype(dtype), zero=True)
    k = dt_kind(dtype)
    return SArr(rng(dim(n)), {'r': z3.RealVal(0), 'i': z3.IntVal(0), 'b': z3.BoolVal(False), 's': z3.IntVal(strcode(''))}[k], k)


def c_ones(n, dtype=None, **kw):
    k = dt_kind(dtype)
    return SArr(rng(dim(n)), {'r': z3.RealVal(1), 'i': z3.IntVal(1), 'b': z3.BoolVal(True)}[k], k)


def c_empty(n, dtype=None, **kw):
    if dtype is not None and np.dtype(dtype).names:
        return c_rec(n, np.dtype(dtype), zero=False)
    k = dt_kind(dtype)
    f = z3.Function('junk!%d' % id(object()), I, {'r': R, 'i': I, 'b': B, 's': I}[k])
    T._fresh[0] += 1
    f = z3.Function('junk!%d' % T._fresh[0], I, {'r': R, 'i': I, 'b': B, 's': I}[k])
    return SArr(rng(dim(n)), f(IV), k)


def c_rec(n, dt, zero):
    cols = {}
    dts = {}
    for nm in dt.names:
        cols[nm] = (c_zeros if zero else c_empty)(n, dt[nm])
        dts[nm] = dt[nm]
    return SRec(rng(dim(n)), cols, dts)


def c_arange(*a, dtype=None, **kw):
    if len(a) == 1:
        st, en, step = 0, a[0], 1
    elif len(a) == 2:
        st, en, step = a[0], a[1], kw.get('step', 1)
    else:
        if len(a) == 4:
            a, dtype = a[:3], a[3]
        st, en, step = a
    st, en, step = lift(st), lift(en), lift(step)
    if st.kind == 'i' and en.kind == 'i' and step.kind == 'i' and isnum(step.t) and val(step.t) == 1:
        ln = z3.simplify(en.t - st.t)
        if not eng().must(ln >= 0):
            ln = z3.simplify(z3.If(ln >= 0, ln, z3.IntVal(0)))
        v = SV(st.t + IV)
    else:
        with eng().nodef():
            q = (en - st) / step
        ln = t_ceil(q.t)
        if not eng().must(ln >= 0):
            ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        v = st + step * SV(IV)
    r = SArr(rng(ln), v.t)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def c_linspace(a, b, num_=50, endpoint=True, **kw):
    n = lift(num_)
    a, b = lift(a), lift(b)
    with eng().nodef():
        step = (b - a) / (n - 1)
    v = a + step * SV(IV)
    return SArr(rng(n.t), to_real(v.t))


def c_array(x, dtype=None, copy=True, **kw):
    if isinstance(x, SArr):
        r = x.copy()
    elif isinstance(x, (SRec, SMasked)):
        return x.copy()
    elif isinstance(x, SV):
        r = x
    elif isinstance(x, (list, tuple)):
        if len(x) and isinstance(x[0], (SArr, list, tuple, np.ndarray)):
            return SMat([lift_arr(v) if not isinstance(v, SArr) else v for v in x])
        r = lift_arr(x)
    else:
        r = lift_arr(x)
    if dtype is not None and np.dtype(dtype).kind != 'O':
        r = r.astype(dtype)
    return r


class SMat:
    """a list of equally long rows (first dimension concrete)"""

    def __init__(self, rows):
        self.rows = rows

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].size)

    @property
    def T(self):
        raise Unsupported('transpose')

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, ix):
        if isinstance(ix, int):
            return self.rows[ix]
        if isinstance(ix, tuple) and isinstance(ix[0], int):
            return self.rows[ix[0]][ix[1]]
        raise Unsupported('matrix index')


def c_zeros_like(x, dtype=None, **kw):
    if isinstance(x, SV):
        return SV(z3.RealVal(0)) if x.kind == 'r' else SV(z3.IntVal(0))
    return SArr(x.dom, z3.RealVal(0) if (x.kind == 'r' if dtype is None else dt_kind(dtype) == 'r') else z3.IntVal(0))


def c_ones_like(x, dtype=None, **kw):
    if isinstance(x, SV):
        return SV(z3.RealVal(1))
    return SArr(x.dom, z3.RealVal(1) if x.kind == 'r' else z3.IntVal(1))


def m_size(x, axis=None):
    if isinstance(x, (SArr, SRec, SMasked)):
        return x.size
    if isinstance(x, SV):
        return 1
    if isinstance(x, (list, tuple)):
        return len(x)
    raise Unsupported('size')


def m_shape(x):
    return x.shape


def m_ndim(x):
    return x.ndim if is_sym(x) else np.ndim(x)


def m_copy(x, **kw):
    return x.copy()


def m_isscalar(x):
    return isinstance(x, SV)


def m_array_equal(a, b):
    a, b = arrize(a), arrize(b)
    if not eng().branch(a.dom.n == b.dom.n):
        return False
    return m_all(a == b)


def m_allclose(a, b, **kw):
    raise Unsupported('allclose')


def m_atleast_1d(x):
    if isinstance(x, SV):
        return lift_arr([x])
    return x


def m_average(x, weights=None, **kw):
    if weights is None:
        return m_mean(x)
    x, w = arrize(x), arrize(weights)
    return m_sum(x * w) / m_sum(w)


def m_ma_masked_array(data, mask=None, fill_value=None, **kw):
    d = arrize(data)
    m = arrize(mask) if mask is not None else SArr(d.dom, z3.BoolVal(False), 'b')
    return SMasked(d, m, fill_value)


def nan_red(f):
    return f


MODEL = {
    'sum': m_sum, 'mean': m_mean, 'std': m_std, 'var': m_var, 'max': m_max, 'amax': m_max, 'min': m_min, 'amin': m_min,
    'nanmax': m_max, 'nanmin': m_min, 'nansum': m_sum, 'nanmean': m_mean, 'nanmedian': m_median,
    'nanpercentile': m_percentile, 'ptp': m_ptp, 'any': m_any, 'all': m_all,
    'count_nonzero': m_count_nonzero, 'argmax': m_argmax, 'argmin': m_argmin, 'percentile': m_percentile,
    'median': m_median, 'quantile': m_quantile, 'cumsum': m_cumsum, 'where': m_where, 'argsort': m_argsort,
    'sort': m_sort, 'unique': m_unique, 'searchsorted': m_searchsorted, 'digitize': m_digitize,
    'histogram': m_histogram, 'diff': m_diff, 'roll': m_roll, 'concatenate': m_concatenate, 'append': m_append,
    'insert': m_insert, 'interp': m_interp, 'isin': m_isin, 'in1d': m_isin, 'clip': m_clip, 'trapezoid': m_trapz,
    'trapz': m_trapz, 'nan_to_num': m_nan_to_num, 'round': m_round, 'around': m_round, 'flip': m_flip, 'dot': m_dot,
    'size': m_size, 'shape': m_shape, 'ndim': m_ndim, 'copy': m_copy, 'isscalar': m_isscalar,
    'array_equal': m_array_equal, 'atleast_1d': m_atleast_1d, 'average': m_average,
    'zeros': c_zeros, 'ones': c_ones, 'empty': c_empty, 'full': c_full, 'arange': c_arange, 'linspace': c_linspace,
    'array': c_array, 'asarray': c_array, 'asanyarray': c_array, 'zeros_like': c_zeros_like, 'ones_like': c_ones_like,
    'empty_like': c_zeros_like, 'ravel': lambda x: x.ravel(), 'abs': lambda x: abs(x), 'nonzero': m_where,
    'hstack': m_concatenate, 'radians': None, 'flatnonzero': lambda x: m_where(x)[0],
    'float64': lambda x: cast(x, float), 'int64': lambda x: cast(x, int), 'searchsorted ': m_searchsorted,
}
MODEL = {k: v for k, v in MODEL.items() if v is not None}


def cast(x, dt):
    return x.astype(dt) if is_sym(x) else np.dtype(dt).type(x)


def func_dispatch(func, args, kwargs):
    name = func.__name__
    if name in MODEL:
        return MODEL[name](*args, **kwargs)
    raise Unsupported('numpy.%s' % name)


# ------------------------------------------------------------------ the patched numpy module
class NPShim(types.ModuleType):
    """stands in for numpy inside rubin_sim modules while a contract is executed symbolically"""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}
        self.__dict__['ma'] = MAShim()

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            w = UfuncShim(real)
        elif callable(real) and not isinstance(real, type) and not isinstance(real, types.ModuleType):
            w = mkfun(name, real)
        elif name in ('float64', 'int64'):
            w = real
        else:
            w = real
        c[name] = w
        return w


class UfuncShim:
    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        if builtins.any(deep_sym(x) for x in a):
            return ufunc_dispatch(self.real, '__call__', a, dict(k))
        return self.real(*a, **k)

    def accumulate(self, *a, **k):
        if builtins.any(deep_sym(x) for x in a):
            return ufunc_dispatch(self.real, 'accumulate', a, dict(k))
        return self.real.accumulate(*a, **k)

    def reduce(self, *a, **k):
        if builtins.any(deep_sym(x) for x in a):
            return ufunc_dispatch(self.real, 'reduce', a, dict(k))
        return self.real.reduce(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


def mkfun(name, real):
    def w(*a, **k):
        if builtins.any(deep_sym(x) for x in a) or builtins.any(deep_sym(x) for x in k.values()):
            if name in MODEL:
                return MODEL[name](*a, **k)
            raise Unsupported('numpy.%s' % name)
        if name in ('zeros', 'empty') and CUR.eng is not None and a and isinstance(a[0], int):
            dt = k.get('dtype', a[1] if len(a) > 1 else None)
            if isinstance(dt, (list, np.dtype)) and np.dtype(dt).names:
                return c_rec(a[0], np.dtype(dt), zero=name == 'zeros')
        return real(*a, **k)
    w.__name__ = name
    return w


class MAShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.ma')

    def __getattr__(self, name):
        real = getattr(np.ma, name)
        if name in ('MaskedArray', 'masked_array', 'array') and True:
            class _M:
                pass

            def w(*a, **k):
                if builtins.any(deep_sym(x) for x in a) or builtins.any(deep_sym(x) for x in k.values()):
                    return m_ma_masked_array(*a, **k)
                return real(*a, **k)
            return w
        return real


NP = NPShim()


# ------------------------------------------------------------------ builtins replaced inside rubin_sim modules
SLIST = None


def p_len(x):
    if SLIST is not None and isinstance(x, SLIST):
        return pyint(SV(x.n))
    if isinstance(x, (SArr, SRec, SMasked)):
        return x.size
    return builtins.len(x)


def p_int(x=0, *a):
    if isinstance(x, SV):
        return cast_scalar(x, int)
    if isinstance(x, SArr):
        return cast_scalar(x.item(), int)
    return builtins.int(x, *a)


def p_float(x=0.0):
    if isinstance(x, SV):
        return cast_scalar(x, float)
    if isinstance(x, SArr):
        return cast_scalar(x.item(), float)
    return builtins.float(x)


def p_str(x='', *a):
    if isinstance(x, SV) and x.kind == 's':
        return x
    return builtins.str(x, *a)


class PRange:
    """range with symbolic bounds: only usable by an annotated loop"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise Unsupported('loop over a symbolic range without an invariant')


def p_range(*a):
    if builtins.any(isinstance(x, SV) for x in a):
        a = [pyint(x) if isinstance(x, SV) else x for x in a]
        if not builtins.any(isinstance(x, SV) for x in a):
            return builtins.range(*a)
        if len(a) == 1:
            return PRange(0, a[0])
        return PRange(*a)
    return builtins.range(*a)


_PROXY_TYPES = {}


def p_isinstance(x, cls):
    if is_sym(x):
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if isinstance(c, tuple):
                if p_isinstance(x, c):
                    return True
                continue
            if c is object:
                return True
            if isinstance(x, (SArr, SRec)) and c is np.ndarray:
                return True
            if isinstance(x, SMasked) and c in (np.ndarray, np.ma.MaskedArray):
                return True
            if isinstance(x, SV):
                if x.kind == 'r' and c in (float, np.floating, np.float64, np.generic) or \
                   x.kind == 'i' and c in (int, np.integer, np.int64, np.generic) or \
                   x.kind == 's' and c in (str, np.str_) or x.kind == 'b' and c in (bool, np.bool_):
                    return True
                import numbers
                if c is numbers.Number and x.kind in 'ri':
                    return True
        return False
    if callable(cls) and not isinstance(cls, (type, tuple)) and getattr(cls, '__name__', '') == 'w':
        return False
    return builtins.isinstance(x, cls)


def p_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], SArr) else list(a)
    if len(a) == 1 and isinstance(a[0], SArr):
        return m_max(a[0])
    if builtins.any(isinstance(x, SV) for x in xs) and not k:
        r = lift(xs[0])
        for y in xs[1:]:
            r = ite(truth(lift(y) > r), y, r)
        return r
    return builtins.max(*a, **k)


def p_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], SArr):
        return m_min(a[0])
    xs = list(a[0]) if len(a) == 1 else list(a)
    if builtins.any(isinstance(x, SV) for x in xs) and not k:
        r = lift(xs[0])
        for y in xs[1:]:
            r = ite(truth(lift(y) < r), y, r)
        return r
    return builtins.min(*a, **k)


def p_sum(x, start=0):
    if isinstance(x, SArr):
        return m_sum(x) + start
    return builtins.sum(x, start)


def p_round(x, nd=None):
    if isinstance(x, SV):
        return np_round(x, nd or 0) if nd is not None else cast_scalar(np_round(x, 0), int)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def p_bool(x=False):
    return builtins.bool(x)


PATCH_BUILTINS = {'len': p_len, 'range': p_range, 'isinstance': p_isinstance, 'max': p_max, 'min': p_min, 'sum': p_sum,
                  'round': p_round}
# int/float/str are also used as dtypes, so they are patched only where called, see engine.call_rewrite
