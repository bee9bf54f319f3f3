"""Discharging obligations: axiom instantiation for the functionals, then z3 (fallbacks: rational normal form, cvc5)."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from .terms import *  # noqa
from . import terms as T

MAXIDX = 14


class Stats:
    def __init__(self):
        self.solver_time = 0.0
        self.queries = 0
        self.by = {}


STATS = Stats()


def collect(fmls):
    """all subterms not under binders, without duplicates"""
    seen = set()
    out = []
    st = list(fmls)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            st.extend(x.children())
    return out


def decl_name(x):
    return x.decl().name() if z3.is_app(x) else None


class Abstraction:
    """replaces closed lambdas by constants"""

    def __init__(self):
        self.map = {}
        self.keep = []
        self.memo = {}

    def const(self, L):
        k = L.get_id()
        if k not in self.map:
            self.map[k] = z3.Const('lam!%d' % len(self.map), L.sort())
            self.keep.append(L)
        return self.map[k]

    def rw(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][0]
        if z3.is_quantifier(t):
            r = self.const(t) if t.is_lambda() else t
        elif z3.is_app(t) and t.num_args():
            ch = t.children()
            nc = [self.rw(c) for c in ch]
            if all(a.eq(b) for a, b in zip(ch, nc)):
                r = t
            else:
                d = t.decl()
                if d.kind() == z3.Z3_OP_AND:
                    r = z3.And(*nc)
                elif d.kind() == z3.Z3_OP_OR:
                    r = z3.Or(*nc)
                elif d.kind() == z3.Z3_OP_ADD:
                    r = nc[0]
                    for c in nc[1:]:
                        r = r + c
                elif d.kind() == z3.Z3_OP_MUL:
                    r = nc[0]
                    for c in nc[1:]:
                        r = r * c
                elif d.kind() == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*nc)
                else:
                    r = d(*nc)
        else:
            r = t
        self.memo[k] = (r, t)
        return r


def at(L, i):
    return z3.simplify(lam_body(L, i))


def nsum(a, b):
    return a + b


def split_sum(t):
    """t -> list of (coef Fraction, term) and constant"""
    t = z3.simplify(t, som=True)
    terms = []
    cst = Fraction(0)

    def go(t, c):
        nonlocal cst
        if z3.is_rational_value(t):
            cst += c * t.as_fraction()
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for x in t.children():
                go(x, c)
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            go(ch[0], c)
            for x in ch[1:]:
                go(x, -c)
        elif k == z3.Z3_OP_UMINUS:
            go(t.arg(0), -c)
        elif k == z3.Z3_OP_MUL and z3.is_rational_value(t.arg(0)):
            ch = t.children()
            c2 = c * ch[0].as_fraction()
            r = ch[1]
            for x in ch[2:]:
                r = r * x
            go(r, c2)
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            go(t.arg(0), c / t.arg(1).as_fraction())
        else:
            terms.append((c, t))
    go(t, Fraction(1))
    return terms, cst


def factors(t):
    """t -> (num list, den list)"""
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            n, d = [], []
            for c in t.children():
                a, b = factors(c)
                n += a
                d += b
            return n, d
        if k == z3.Z3_OP_DIV:
            a, b = factors(t.arg(0))
            c, e = factors(t.arg(1))
            return a + e, b + c
        if k == z3.Z3_OP_UMINUS:
            a, b = factors(t.arg(0))
            return [z3.RealVal(-1)] + a, b
    return [t], []


def trans_lemmas(terms, done):
    out = []

    def add(key, f):
        if key not in done:
            done[key] = f
            out.append(f)
    by = {}
    for t in terms:
        n = decl_name(t)
        if n in TRANS:
            by.setdefault(n, []).append(t)
    zero, one = z3.RealVal(0), z3.RealVal(1)
    for nm, inv in (('P10', L10), ('EXP', LN)):
        F = P10 if nm == 'P10' else EXP
        for t in by.get(nm, []):
            a = t.arg(0)
            add(('pos', t.get_id()), t > 0)
            add(('inv', t.get_id()), inv(t) == a)
            add(('one', t.get_id()), z3.And((a > 0) == (t > 1), (a == 0) == (t == 1)))
            ts, c = split_sum(a)
            if len(ts) + (c != 0) > 1 or any(x[0] != 1 for x in ts):
                ls = [(k, x) for k, x in ts if decl_name(x) == inv.name() and k.denominator == 1 and abs(k) <= 4]
                if ls:
                    rest = [(k, x) for k, x in ts if not any(x.eq(y) for _, y in ls)]
                    e = z3.RealVal(c)
                    for k, x in rest:
                        e = e + z3.RealVal(k) * x
                    rhs = F(z3.simplify(e, som=True)) if rest or c != 0 else one
                    cond = []
                    for k, x in ls:
                        u = x.arg(0)
                        cond.append(u > 0)
                        for _ in range(abs(int(k))):
                            rhs = rhs * u if k > 0 else rhs / u
                    add(('split', t.get_id()), z3.Implies(z3.And(*cond), t == rhs))
            elif len(ts) == 1 and ts[0][0].denominator == 1 and decl_name(ts[0][1]) == inv.name():
                u = ts[0][1].arg(0)
                k = int(ts[0][0])
                if abs(k) <= 4:
                    r = one
                    for _ in range(abs(k)):
                        r = r * u if k > 0 else r / u
                    add(('split', t.get_id()), z3.Implies(u > 0, t == r))
        ps = by.get(nm, [])[:10]
        for x, y in itertools.combinations(ps, 2):
            a, b = x.arg(0), y.arg(0)
            add(('mono', x.get_id(), y.get_id()), z3.And((a < b) == (x < y), (a == b) == (x == y)))
            # difference that is a constant or a third term's argument
        # products: F(a)*F(b) = F(a+b) for triples where a+b is another argument (or zero)
        args = {}
        for t in ps:
            args[z3.simplify(t.arg(0), som=True).get_id()] = t
        for x, y in itertools.combinations_with_replacement(ps, 2):
            s = z3.simplify(x.arg(0) + y.arg(0), som=True)
            if z3.is_rational_value(s) and s.as_fraction() == 0:
                add(('prod', x.get_id(), y.get_id()), x * y == 1)
            elif s.get_id() in args:
                add(('prod', x.get_id(), y.get_id()), x * y == args[s.get_id()])
    for nm, F in (('L10', L10), ('LN', LN)):
        ls = by.get(nm, [])
        inv = P10 if nm == 'L10' else EXP
        for t in ls:
            u = t.arg(0)
            add(('linv', t.get_id()), z3.Implies(u > 0, inv(t) == u))
            add(('lone', t.get_id()), z3.Implies(u > 0, z3.And((u > 1) == (t > 0), (u == 1) == (t == 0))))
            n, d = factors(z3.simplify(u))
            if len(n) + len(d) > 1:
                cond = [f > 0 for f in n + d if not z3.is_rational_value(f)]
                consts = [f for f in n + d if z3.is_rational_value(f)]
                if all(f.as_fraction() > 0 for f in consts):
                    rhs = zero
                    for f in n:
                        rhs = rhs + F(f)
                    for f in d:
                        rhs = rhs - F(f)
                    add(('lprod', t.get_id()), z3.Implies(z3.And(*cond) if cond else z3.BoolVal(True), t == rhs))
        for x, y in itertools.combinations(ls[:10], 2):
            a, b = x.arg(0), y.arg(0)
            add(('lmono', x.get_id(), y.get_id()),
                z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (x < y), (a == b) == (x == y))))
    qs = by.get('SQRT', [])
    for t in qs:
        a = t.arg(0)
        add(('sq', t.get_id()), z3.Implies(a >= 0, z3.And(t >= 0, t * t == a, (a == 0) == (t == 0))))
    for x, y in itertools.combinations(qs[:8], 2):
        a, b = x.arg(0), y.arg(0)
        add(('sqm', x.get_id(), y.get_id()), z3.Implies(z3.And(a >= 0, b >= 0), z3.And((a < b) == (x < y), (a == b) == (x == y))))
        add(('sqp', x.get_id(), y.get_id()), z3.Implies(z3.And(a >= 0, b >= 0), x * y >= 0))
    for t in by.get('POW', []):
        b, e = t.arg(0), t.arg(1)
        add(('pow', t.get_id()), z3.Implies(b > 0, t > 0))
    need_pi = False
    for nm in ('SIN', 'COS'):
        for t in by.get(nm, []):
            add(('trig', t.get_id()), z3.And(t <= 1, t >= -1))
            a = t.arg(0)
            add(('pyth', a.get_id()), SIN(a) * SIN(a) + COS(a) * COS(a) == 1)
            na = z3.simplify(-a, som=True)
    for nm in ('SIN', 'COS'):
        F = SIN if nm == 'SIN' else COS
        for x, y in itertools.combinations(by.get(nm, [])[:10], 2):
            # periodicity: difference of arguments is 2*pi*integer
            d = z3.simplify((x.arg(0) - y.arg(0)) / (2 * PI), som=True)
            k = fresh('per', I)
            key = ('per', x.get_id(), y.get_id())
            if key not in done:
                add(key, z3.Implies(z3.Exists([k], x.arg(0) - y.arg(0) == 2 * PI * z3.ToReal(k)), x == y))
            s = z3.simplify(x.arg(0) + y.arg(0), som=True)
            if z3.is_rational_value(s) and s.as_fraction() == 0:
                add(('sym', x.get_id(), y.get_id()), x == -y if nm == 'SIN' else x == y)
    for t in by.get('ASIN', []):
        a = t.arg(0)
        need_pi = True
        add(('asin', t.get_id()), z3.And(t >= -PI / 2, t <= PI / 2, z3.Implies(z3.And(a >= -1, a <= 1), SIN(t) == a)))
    for t in by.get('ACOS', []):
        a = t.arg(0)
        add(('acos', t.get_id()), z3.And(t >= 0, t <= PI, z3.Implies(z3.And(a >= -1, a <= 1), COS(t) == a)))
    for t in by.get('ATAN2', []):
        add(('atan2', t.get_id()), z3.And(t > -PI, t <= PI))
    return out


def functional_lemmas(terms, done, idx, rnd):
    """sound axiom instances for the functionals occurring in terms"""
    out = []
    apps = {}
    for t in terms:
        n = decl_name(t)
        if n in FUNCTIONALS or n in T.GEN:
            apps.setdefault(n, []).append(t)

    def add(key, f):
        if key not in done:
            done[key] = True
            out.append(f)

    def sk(*key):
        k = ('sk',) + key
        if k not in done:
            done[k] = fresh('sk', I)
            if len(idx) < MAXIDX + 10 * rnd or key[0] == 'wit' and len(idx) < MAXIDX + 10 * rnd + 4:
                idx.append(done[k])
        return done[k]

    # extensionality for every pair of lambdas used in the same argument position of the same functional
    pos = {}
    for n, ts in apps.items():
        for t in ts:
            for p, a in enumerate(t.children()):
                if is_lambda(a):
                    pos.setdefault((n, p), {})[a.get_id()] = a
    pairs = set()
    for (n, p), ls in pos.items():
        ls = list(ls.values())[:12]
        for a, b in itertools.combinations(ls, 2):
            if a.sort() != b.sort():
                continue
            k = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
            if k in pairs:
                continue
            pairs.add(k)
            s = sk('ext', *k)
            add(('ext',) + k, z3.Or(a == b, at(a, s) != at(b, s)))

    for t in apps.get('UNIQ', []):
        v, g, k = t.children()
        n = NUNIQ(v, g)
        key = ('sk', 'uq', t.get_id())
        if key not in done:
            done[key] = fresh('sk', I)
            if len(idx) < MAXIDX + 6:
                idx.insert(0, done[key])
        s = done[key]
        add(('uq', t.get_id()), z3.Implies(z3.And(k >= 0, k < n), z3.And(at(g, s), at(v, s) == t)))

    for t in apps.get('CNT', []):
        L = t.arg(0)
        i = L.get_id()
        add(('cnt0', i), t >= 0)
        s = sk('cnt', i)
        add(('cnt1', i), z3.Implies(t > 0, at(L, s)))
        for j in list(idx):
            add(('cnt2', i, j.get_id()), z3.Implies(at(L, j), t > 0))
        s2 = sk('cnt2', i)
        add(('cnt3', i), z3.Implies(t >= 2, z3.And(at(L, s), at(L, s2), s < s2)))
        for j, k in itertools.combinations(list(idx)[:6], 2):
            add(('cnt4', i, j.get_id(), k.get_id()), z3.Implies(z3.And(at(L, j), at(L, k), j != k), t >= 2))
        # bounded by any enclosing range [0,n): guard bodies are conjunctions containing 0<=i, not(n<=i)
        n = range_bound(L)
        if n is not None:
            add(('cntn', i), t <= z3.If(n > 0, n, 0))
            s3 = sk('cntfull', i)
            # either full or a witness outside the mask
            add(('cntf', i), z3.Or(t == z3.If(n > 0, n, 0), z3.And(s3 >= 0, s3 < n, z3.Not(at(L, s3)))))
            for j in list(idx):
                add(('cntg', i, j.get_id()), z3.Implies(z3.And(j >= 0, j < n, z3.Not(at(L, j))), t < n))
    def sk0(*key):
        k = ('sk0',) + key
        if k not in done:
            done[k] = fresh('sq', I)
        return done[k]

    # positions: fewer than c elements of C lie before position c
    for t in apps.get('CNT', [])[:8]:
        C = t.arg(0)
        n = range_bound(C)
        if n is None:
            continue
        for j in list(idx)[:8]:
            s1, s2 = sk0('cp', C.get_id(), j.get_id()), sk0('cq', C.get_id(), j.get_id())
            add(('cpos', C.get_id(), j.get_id()), z3.Implies(z3.And(j >= 0, j < n), z3.And(
                z3.Implies(t > j, z3.Or(at(C, j), z3.And(at(C, s1), s1 > j))),
                z3.Implies(z3.And(t <= j, at(C, j)), z3.And(s2 >= 0, s2 < j, z3.Not(at(C, s2)))))))
        for a in apps.get('ARGS', [])[:8]:
            K, m, pz = a.children()
            if not z3.simplify(m - n).eq(z3.IntVal(0)):
                continue
            s1, s2 = sk0('ap', C.get_id(), a.get_id()), sk0('aq', C.get_id(), a.get_id())
            add(('apos', C.get_id(), a.get_id()), z3.Implies(z3.And(pz >= 0, pz < n), z3.And(
                z3.Implies(t > pz, z3.Or(at(C, a), z3.And(at(C, s1), at(K, s1) >= at(K, a)))),
                z3.Implies(z3.And(t <= pz, at(C, a)), z3.And(s2 >= 0, s2 < n, z3.Not(at(C, s2)), at(K, s2) <= at(K, a))))))
    # additivity over disjoint unions
    cs = apps.get('CNT', [])[:8]
    for a in cs:
        for b, c in itertools.combinations(cs, 2):
            if a.eq(b) or a.eq(c):
                continue
            k = (a.arg(0).get_id(), b.arg(0).get_id(), c.arg(0).get_id())
            s1 = sk0('cadd', *k)
            A, B2, C2 = at(a.arg(0), s1), at(b.arg(0), s1), at(c.arg(0), s1)
            add(('cadd',) + k, z3.Or(a == b + c, z3.Not(z3.And(A == z3.Or(B2, C2), z3.Not(z3.And(B2, C2))))))
    # complements within the same range
    for a, b in itertools.combinations(cs, 2):
        n1, n2 = range_bound(a.arg(0)), range_bound(b.arg(0))
        if n1 is None or n2 is None or not z3.simplify(n1 - n2).eq(z3.IntVal(0)):
            continue
        k = (a.arg(0).get_id(), b.arg(0).get_id())
        s1 = sk0('ccomp', *k)
        add(('ccomp',) + k, z3.Or(a + b == z3.If(n1 > 0, n1, 0), z3.And(s1 >= 0, s1 < n1, at(a.arg(0), s1) == at(b.arg(0), s1))))
    cs = apps.get('CNT', [])[:8]
    for a, b in itertools.permutations(cs, 2):
        k = (a.arg(0).get_id(), b.arg(0).get_id())
        s = sk('cmono', *k)
        sub = z3.And(at(a.arg(0), s), z3.Not(at(b.arg(0), s)))
        add(('cmono',) + k, z3.Or(a <= b, sub))
        # a proper subset is smaller
        for j in list(idx)[:8]:
            add(('cstrict', j.get_id()) + k, z3.Implies(z3.And(at(b.arg(0), j), z3.Not(at(a.arg(0), j))), z3.Or(a < b, sub)))
    for t in apps.get('SUM', []):
        L = t.arg(0)
        i = L.get_id()
        s = sk('sumneg', i)
        s2 = sk('sumpos', i)
        add(('sn', i), z3.Or(t >= 0, at(L, s) < 0))
        add(('sp', i), z3.Or(t <= 0, at(L, s2) > 0))
        for j in list(idx)[:10] + [z3.IntVal(0)]:
            add(('sb', i, j.get_id()), z3.Or(at(L, j) <= t, at(L, s) < 0))
    ss = apps.get('SUM', [])[:7]
    for a, b in itertools.permutations(ss, 2):
        k = (a.arg(0).get_id(), b.arg(0).get_id())
        s = sk('smono', *k)
        add(('smono',) + k, z3.Or(a <= b, at(a.arg(0), s) > at(b.arg(0), s)))
    for n, isx in (('MAXF', True), ('MINF', False)):
        for t in apps.get(n, []):
            v, g = t.arg(0), t.arg(1)
            i = (n, v.get_id(), g.get_id())
            w = sk('wit', *i)
            nb = range_bound(g)
            ends = [] if nb is None else [z3.IntVal(0), z3.simplify(nb - 1)]
            for j in list(idx) + ends:
                gj = at(g, j)
                add(('mx', j.get_id()) + i,
                    z3.Implies(gj, z3.And((at(v, j) <= t) if isx else (at(v, j) >= t), at(g, w), at(v, w) == t)))
            # non-emptiness through the matching count
            for c in apps.get('CNT', []):
                if c.arg(0).get_id() == g.get_id():
                    add(('mxc', c.get_id()) + i, z3.Implies(c > 0, z3.And(at(g, w), at(v, w) == t)))
            nb = range_bound(g)
            if nb is not None and full_range(g):
                add(('mxr',) + i, z3.Implies(nb > 0, z3.And(at(g, w), at(v, w) == t)))
            add(('mxo',) + i, z3.Implies(z3.Not(at(g, w)), z3.BoolVal(True)))
    for n in ('SUM', 'CNT', 'MAXF', 'MINF', 'PCT'):
        for t in apps.get(n, []):
            if ('rx', t.get_id()) not in done:
                done[('rx', t.get_id())] = t
                u = reindex(t)
                if u is not None:
                    out.append(t == u)
                if n == 'SUM':
                    u = split_last(t)
                    if u is not None:
                        out.append(u)
    for n, isx in (('AMAX', True), ('AMIN', False)):
        for t in apps.get(n, []):
            v, g = t.arg(0), t.arg(1)
            i = (n, v.get_id(), g.get_id())
            for j in list(idx):
                add(('amx', j.get_id()) + i, z3.Implies(at(g, j), z3.And(at(g, t), (at(v, j) <= at(v, t)) if isx else (at(v, j) >= at(v, t)),
                    z3.Implies(j < t, (at(v, j) < at(v, t)) if isx else (at(v, j) > at(v, t))))))
    for t in apps.get('PCT', []):
        v, g, q = t.children()
        i = ('pct', v.get_id(), g.get_id())
        mx, mn = MAXF(v, g), MINF(v, g)
        add(('pct', t.get_id()), z3.Implies(z3.And(q >= 0, q <= 100), z3.And(t <= mx, t >= mn)))
        # affine/monotone facts are left out
    for t in apps.get('INTERP', []):
        # the grid is strictly increasing (checked where the term is made)
        v, gx, gy, n = t.children()
        i = t.get_id()
        last = z3.simplify(n - 1)
        add(('int0', i), z3.Implies(z3.And(n >= 1, v <= at(gx, z3.IntVal(0))), t == at(gy, z3.IntVal(0))))
        add(('intn', i), z3.Implies(z3.And(n >= 1, v >= at(gx, last)), t == at(gy, last)))
        s = sk('interp', i)
        x0, x1, y0, y1 = at(gx, s), at(gx, s + 1), at(gy, s), at(gy, s + 1)
        add(('intb', i), z3.Implies(z3.And(n >= 2, v >= at(gx, z3.IntVal(0)), v <= at(gx, last)), z3.And(
            s >= 0, s < n - 1, x0 < x1, x0 <= v, v <= x1, (t - y0) * (x1 - x0) == (y1 - y0) * (v - x0),
            z3.Or(z3.And(t >= y0, t <= y1), z3.And(t <= y0, t >= y1)))))
        for j in list(idx):
            add(('intj', j.get_id(), i), z3.Implies(z3.And(j >= 0, j < n, at(gx, j) == v), t == at(gy, j)))
    for t in apps.get('SEL', []):
        L, k = t.arg(0), t.arg(1)
        N = CNT(L)
        add(('sel', t.get_id()), z3.Implies(z3.And(k >= 0, k < N), z3.And(at(L, t), RANK(L, t) == k)))
    sels = apps.get('SEL', [])[:8]
    for a, b in itertools.combinations(sels, 2):
        if a.arg(0).get_id() == b.arg(0).get_id():
            N = CNT(a.arg(0))
            k1, k2 = a.arg(1), b.arg(1)
            add(('selm', a.get_id(), b.get_id()), z3.Implies(z3.And(k1 >= 0, k2 >= 0, k1 < N, k2 < N),
                                                           z3.And((k1 < k2) == (a < b), (k1 == k2) == (a == b))))
    for t in apps.get('RANK', []):
        L, j = t.arg(0), t.arg(1)
        add(('rank', t.get_id()), z3.Implies(at(L, j), z3.And(t >= 0, t < CNT(L), SEL(L, t) == j)))
    for t in apps.get('ARGS', []):
        L, n, k = t.children()
        add(('args', t.get_id()), z3.Implies(z3.And(k >= 0, k < n), z3.And(t >= 0, t < n, ARGI(L, n, t) == k)))
    ars = apps.get('ARGS', [])[:8]
    for a, b in itertools.combinations(ars, 2):
        if a.arg(0).get_id() == b.arg(0).get_id() and a.arg(1).eq(b.arg(1)):
            L, n = a.arg(0), a.arg(1)
            k1, k2 = a.arg(2), b.arg(2)
            add(('argm', a.get_id(), b.get_id()),
                z3.Implies(z3.And(k1 >= 0, k2 >= 0, k1 < n, k2 < n),
                           z3.And(z3.Implies(k1 <= k2, at(L, a) <= at(L, b)), z3.Implies(k2 <= k1, at(L, b) <= at(L, a)),
                                  (k1 == k2) == (a == b))))
    # sorting by a monotone transform of the key gives the same values in the same places
    for a, b in itertools.permutations(ars, 2):
        if a.arg(0).get_id() != b.arg(0).get_id() and a.arg(1).eq(b.arg(1)) and a.arg(2).eq(b.arg(2)):
            K, K2, n, k1 = a.arg(0), b.arg(0), a.arg(1), a.arg(2)
            key = (K.get_id(), K2.get_id())
            i1, i2 = sk0('mt1', *key), sk0('mt2', *key)
            add(('monotr', a.get_id(), b.get_id()), z3.Implies(z3.And(k1 >= 0, k1 < n), z3.Or(
                at(K2, a) == at(K2, b),
                z3.And(i1 >= 0, i2 >= 0, i1 < n, i2 < n, at(K, i1) <= at(K, i2), z3.Not(at(K2, i1) <= at(K2, i2))))))
    for t in apps.get('ARGI', []):
        L, n, j = t.children()
        add(('argi', t.get_id()), z3.Implies(z3.And(j >= 0, j < n), z3.And(t >= 0, t < n, ARGS(L, n, t) == j)))
    for t in apps.get('NUNIQ', []):
        v, g = t.children()
        i = ('nun', v.get_id(), g.get_id())
        add(('nu0',) + i, z3.And(t >= 0, t <= CNT(g), (CNT(g) > 0) == (t > 0)))
    uq = apps.get('UNIQ', [])[:6]
    for a, b in itertools.combinations(uq, 2):
        if a.arg(0).get_id() == b.arg(0).get_id() and a.arg(1).get_id() == b.arg(1).get_id():
            n = NUNIQ(a.arg(0), a.arg(1))
            k1, k2 = a.arg(2), b.arg(2)
            add(('uqm', a.get_id(), b.get_id()), z3.Implies(z3.And(k1 >= 0, k2 >= 0, k1 < n, k2 < n),
                                                          z3.And((k1 < k2) == (a < b), (k1 == k2) == (a == b))))
    return out


def _split_guard(g, c):
    """guard -> (n, rest) when it contains c>=0 and c<n"""
    n, lo, rest = None, False, []
    for x in conj(g):
        if _lower(x, c):
            if lo or not (x.arg(0).eq(z3.IntVal(0)) or x.arg(1).eq(z3.IntVal(0))):
                return None
            lo = True
            continue
        b = _bound_of(x, c)
        if b is not None and n is None:
            n = b
            continue
        rest.append(x)
    return (n, rest) if lo and n is not None else None


def reindex(t):
    """a sum, count, extremum or percentile over the positions of a selection (or of a permutation) equals the one over
    the selected (permuted) indices: F[k<CNT(G)] e(SEL(G,k)) = F[G(i)] e(i);  F[k<n] e(ARGS(K,n,k)) = F[i<n] e(i)"""
    nm = decl_name(t)
    c, d = z3.Int('rx!c'), z3.Int('rx!d')
    if nm == 'SUM':
        b = at(t.arg(0), c)
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and z3.is_rational_value(b.arg(2)) and b.arg(2).as_fraction() == 0):
            return None
        guard, val = b.arg(0), b.arg(1)
    elif nm == 'CNT':
        guard, val = at(t.arg(0), c), None
    else:
        guard, val = at(t.arg(1), c), at(t.arg(0), c)
        if z3.is_app(val) and val.decl().kind() == z3.Z3_OP_ITE and val.arg(0).eq(guard):
            val = val.arg(1)
    sg = _split_guard(guard, c)
    if sg is None:
        return None
    n, rest = sg
    parts = rest + ([val] if val is not None else [])
    cand = None
    for x in collect(parts):
        dn = decl_name(x)
        if dn == 'SEL' and x.arg(1).eq(c) and z3.simplify(CNT(x.arg(0)) - n).eq(z3.IntVal(0)):
            cand = x
            break
        if dn == 'ARGS' and x.arg(2).eq(c) and z3.simplify(x.arg(1) - n).eq(z3.IntVal(0)):
            cand = x
            break
    if cand is None:
        return None
    parts2 = [z3.substitute(x, (cand, d)) for x in parts]
    if any(mentions(x, c) for x in parts2):
        return None
    if decl_name(cand) == 'SEL':
        g2 = at(cand.arg(0), d)
    else:
        g2 = z3.And(d >= 0, z3.Not(n <= d))
    if rest:
        g2 = z3.simplify(z3.And(g2, *parts2[:len(rest)]))
    else:
        g2 = z3.simplify(g2)
    if nm == 'CNT':
        return CNT(lam(g2, d))
    v2 = z3.simplify(z3.If(g2, parts2[-1], z3.RealVal(0)))
    if nm == 'SUM':
        return SUM(lam(v2, d))
    F = {'MAXF': MAXF, 'MINF': MINF}.get(nm)
    if F is not None:
        return F(lam(v2, d), lam(g2, d))
    return PCT(lam(v2, d), lam(g2, d), t.arg(2))


def split_last(t):
    """a sum over an array with one element appended: SUM[i<m+1] If(i<m, e(i), f) = SUM[i<m] e(i) + f(m)"""
    c = z3.Int('rx!c')
    b = at(t.arg(0), c)
    if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and z3.is_rational_value(b.arg(2)) and b.arg(2).as_fraction() == 0):
        return None
    sg = _split_guard(b.arg(0), c)
    if sg is None or sg[1]:
        return None
    n, val = sg[0], b.arg(1)
    m = z3.simplify(n - 1)
    conds = []
    for x in collect([val]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            q = x.arg(0)
            for neg in (False, True):
                bd = _bound_of(z3.Not(q) if neg else q, c)
                if bd is not None and z3.simplify(bd - m).eq(z3.IntVal(0)):
                    conds.append((q, z3.BoolVal(not neg)))
    if not conds:
        return None
    head = z3.simplify(z3.substitute(val, *conds))
    tail = z3.simplify(z3.substitute(z3.substitute(val, *[(q, z3.Not(v)) for q, v in conds]), (c, m)))
    g = z3.And(c >= 0, z3.Not(m <= c))
    return z3.Implies(m >= 0, t == SUM(lam(z3.simplify(z3.If(g, head, z3.RealVal(0))), c)) + tail)


_rb = {}


def conj(t):
    if z3.is_and(t):
        r = []
        for c in t.children():
            r += conj(c)
        return r
    return [t]


def _bound_of(c, v):
    """if conjunct c says v + const < n (n free of v) return the strict upper bound on v"""
    neg = z3.is_not(c)
    x = c.arg(0) if neg else c
    if not (z3.is_app(x) and x.num_args() == 2) or x.arg(0).sort() != I:
        return None
    k = x.decl().kind()
    p, q = x.arg(0), x.arg(1)
    if neg:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        p, q = q, p
        k = z3.Z3_OP_LT if k == z3.Z3_OP_GT else z3.Z3_OP_LE
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE) or mentions(q, v):
        return None
    if p.eq(v):
        return q if k == z3.Z3_OP_LT else q + 1
    off = z3.simplify(p - v)
    if mentions(off, v):
        return None
    return z3.simplify(q - off if k == z3.Z3_OP_LT else q - off + 1)


def _lower(c, v):
    if z3.is_app(c):
        k = c.decl().kind()
        if k == z3.Z3_OP_GE and c.arg(0).eq(v) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() >= 0:
            return True
        if k == z3.Z3_OP_LE and c.arg(1).eq(v) and z3.is_int_value(c.arg(0)) and c.arg(0).as_long() >= 0:
            return True
    return False


def range_bound(L):
    """n such that the boolean lambda L is false outside [0,n), read off its conjuncts"""
    k = L.get_id()
    if k in _rb:
        return _rb[k][0]
    v = z3.Int('rb!v')
    b = at(L, v)
    lo = hi = None
    for c in conj(b):
        if _lower(c, v):
            lo = True
        n = _bound_of(c, v)
        if n is not None and hi is None:
            hi = n
    r = hi if lo and hi is not None else None
    _rb[k] = (r, L, None)
    return r


def full_range(L):
    v = z3.Int('rb!v')
    return all(_lower(c, v) or _bound_of(c, v) is not None for c in conj(at(L, v)))


def prepare(fmls, input_axioms, rounds=2, index_terms=()):
    done = {}
    idx = list(index_terms)
    fm = list(fmls)
    for rnd in range(rounds):
        terms = collect(fm)
        # index terms: integer constants and arguments of input arrays
        have = {j.get_id() for j in idx}
        for t in terms:
            if z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('in!') and t.arg(0).sort() == I:
                j = t.arg(0)
                if j.get_id() not in have and len(idx) < MAXIDX:
                    have.add(j.get_id())
                    idx.append(j)
            if z3.is_const(t) and z3.is_app(t) and t.sort() == I and t.decl().name().startswith('k!'):
                if t.get_id() not in have:
                    have.add(t.get_id())
                    idx.insert(0, t)
        new = functional_lemmas(terms, done, idx, rnd)
        new += trans_lemmas(collect(fm + new), done)
        if not new:
            break
        fm += new
    terms = collect(fm)
    # a last pass of cheap lemmas for terms introduced by the previous round
    tl = trans_lemmas(terms, done)
    fm += tl
    terms = collect(fm)
    fm += input_axioms(terms)
    if any(z3.is_const(t) and z3.is_app(t) and t.decl().name() == 'PI!' for t in terms):
        fm += [PI > z3.RealVal('3.14159265358979'), PI < z3.RealVal('3.14159265358980')]
    ab = Abstraction()
    out = [ab.rw(f) for f in fm]
    abstract = bool(ab.map) or any(decl_name(t) in TRANS for t in terms)
    return out, abstract


_syms = {}
_syms_keep = []
_byid = {}


def snapped(goal):
    """goal a==b with both sides as polynomial quotients whose constants, where they are within rounding of a simple
    rational number, are that number; None if nothing changes"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == R):
        return None
    changed = [False]

    def snap(f):
        g = f.limit_denominator(10 ** 4)
        if g != f and g != 0 and abs(g.numerator) < 10 ** 9 and abs(g - f) <= abs(f) * TINY:
            changed[0] = True
            return g
        return f

    def back(p, scale):
        out = []
        for k, v in p.items():
            t = z3.RealVal(snap(v / scale))
            for i, e in k:
                for _ in range(e):
                    t = t * _byid[i]
            out.append(t)
        return z3.Sum(out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))

    try:
        sides = []
        for t in goal.children():
            p, q = ratform(t, {})
            if not q:
                return None
            c = next(iter(q.values()))
            q1 = back(q, c)
            sides.append(back(p, c) if len(q) == 1 and () in q else back(p, c) / q1)
    except (OverflowError, KeyError):
        return None
    return sides[0] == sides[1] if changed[0] else None


def symbols(f):
    """names of the input and fresh symbols of a formula, also those under binders"""
    k = f.get_id()
    if k in _syms:
        return _syms[k]
    seen, out, st = set(), set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _syms:
            out |= _syms[i]
        elif z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n not in TRANS and n != 'PI!':
                    if x.num_args() == 0 or n.startswith(('in!', 'uf!', 'junk!')):
                        out.add(n)
            st.extend(x.children())
    _syms[k] = out
    _syms_keep.append(f)
    return out


def cone(assumptions, goal):
    """the assumptions connected to the goal by shared symbols (fewer assumptions is always sound)"""
    have = set(symbols(goal))
    rest = [(a, symbols(a)) for a in assumptions]
    out = []
    while True:
        more = [(a, s) for a, s in rest if not s or s & have]
        if not more:
            return out
        out += [a for a, _ in more]
        for _, s in more:
            have |= s
        rest = [(a, s) for a, s in rest if s and not s & have]


def quick_unsat(fmls, input_axioms, ms=400):
    """the formulas alone, without lemmas, are already contradictory"""
    ab = Abstraction()
    fm = list(fmls) + list(input_axioms(collect(fmls)))
    r, _ = solve([ab.rw(f) for f in fm], ms)
    return r == z3.unsat


TINY = Fraction(1, 10 ** 13)


def rational_equal(goal, assumptions):
    """goal a==b over reals: difference normalises to zero as a rational function of its non-arithmetic subterms"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == R):
        return False
    a, b = goal.arg(0), goal.arg(1)
    d = z3.simplify(a - b, som=True)
    if z3.is_rational_value(d):
        return d.as_fraction() == 0
    # p/q form with polynomials as dict, cheap sizes only
    try:
        p, q = ratform(a - b, {})
        if not p and q:
            return True
        m = {}
        p1, q1 = ratform(a, m)
        p2, q2 = ratform(b, m)
        if not q1 or not q2:
            return False
        x, y = pmul(p1, q2), pmul(p2, q1)
    except OverflowError:
        return False
    # the same expression with numerical constants that were folded in floating point in another order
    return set(x) == set(y) and all(abs(x[k] - y[k]) <= abs(x[k]) * TINY for k in x)


def padd(p, q):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0:
            del r[k]
    return r


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 4000:
        raise OverflowError
    for k, v in p.items():
        for k2, v2 in q.items():
            d = dict(k)
            for n, e in k2:
                d[n] = d.get(n, 0) + e
            kk = tuple(sorted(d.items()))
            r[kk] = r.get(kk, 0) + v * v2
            if r[kk] == 0:
                del r[kk]
    return r


_keep = []


def ratform(t, memo):
    one = {(): Fraction(1)}
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
        r = ({(): f} if f else {}, one)
    else:
        kd = t.decl().kind()
        if kd == z3.Z3_OP_ADD or kd == z3.Z3_OP_SUB:
            ch = t.children()
            p, q = ratform(ch[0], memo)
            for c in ch[1:]:
                p2, q2 = ratform(c, memo)
                if kd == z3.Z3_OP_SUB:
                    p2 = {a: -b for a, b in p2.items()}
                if q == q2:
                    p = padd(p, p2)
                else:
                    p, q = padd(pmul(p, q2), pmul(p2, q)), pmul(q, q2)
            r = (p, q)
        elif kd == z3.Z3_OP_UMINUS:
            p, q = ratform(t.arg(0), memo)
            r = ({a: -b for a, b in p.items()}, q)
        elif kd == z3.Z3_OP_MUL:
            p, q = one, one
            for c in t.children():
                p2, q2 = ratform(c, memo)
                p, q = pmul(p, p2), pmul(q, q2)
            r = (p, q)
        elif kd == z3.Z3_OP_DIV:
            p, q = ratform(t.arg(0), memo)
            p2, q2 = ratform(t.arg(1), memo)
            r = (pmul(p, q2), pmul(q, p2))
        else:
            s = z3.simplify(t)
            _keep.append(s)
            _byid[s.get_id()] = s
            r = ({((s.get_id(), 1),): Fraction(1)}, one)
    _keep.append(t)
    memo[k] = r
    return r


_MUL = z3.Function('mul!', z3.RealSort(), z3.RealSort(), z3.RealSort())


def unmul(t, memo):
    """t with every product of two unknowns replaced by an uninterpreted function of them: weaker assumptions, so a proof carries over"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t):
        b = unmul(t.body(), memo)
        if b.eq(t.body()):
            o = t
        else:
            vs = [z3.Const('um!%d!%s' % (k, t.var_name(i)), t.var_sort(i)) for i in range(t.num_vars())]
            body = z3.substitute_vars(b, *reversed(vs))
            o = z3.Lambda(vs, body) if t.is_lambda() else (z3.ForAll(vs, body) if t.is_forall() else z3.Exists(vs, body))
    elif z3.is_var(t) or not t.children():
        o = t
    else:
        ch = [unmul(c, memo) for c in t.children()]
        if z3.is_mul(t) and t.sort() == z3.RealSort():
            nums = [c for c in ch if z3.is_rational_value(c)]
            rest = sorted((c for c in ch if not z3.is_rational_value(c)), key=lambda c: c.get_id())
            if len(rest) > 1:
                o = rest[0]
                for c in rest[1:]:
                    o = _MUL(o, c)
                for c in nums:
                    o = c * o
            else:
                o = t.decl()(*ch)
        elif all(a.eq(b) for a, b in zip(ch, t.children())):
            o = t
        elif z3.is_and(t):
            o = z3.And(*ch)
        elif z3.is_or(t):
            o = z3.Or(*ch)
        elif z3.is_add(t):
            o = z3.Sum(ch)
        else:
            o = t.decl()(*ch)
    memo[k] = (t, o)
    return o


def solve(fm, timeout_ms, logic=None):
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*fm)
    t0 = time.time()
    r = s.check()
    STATS.solver_time += time.time() - t0
    STATS.queries += 1
    return r, s


def cvc5_check(fm, timeout_s):
    s = z3.Solver()
    s.add(*fm)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        nm = f.name
    try:
        t0 = time.time()
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), nm], capture_output=True, text=True, timeout=timeout_s + 5)
        STATS.solver_time += time.time() - t0
        out = p.stdout.strip().splitlines()
        return out[-1] if out else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(nm)


def prove(assumptions, goal, input_axioms, timeout_ms=8000, use_cvc5=True, rounds=2):
    """-> dict(status, backend, model, abstract)"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return dict(status='proved', backend='simplifier', model=None, abstract=False)
    goals = conj(goal)
    if len(goals) > 1:
        last = None
        for x in goals:
            r = prove(assumptions, x, input_axioms, timeout_ms, use_cvc5, rounds)
            if r['status'] != 'proved':
                return r
            last = r
        return last
    if rational_equal(goal, assumptions):
        return dict(status='proved', backend='rational-normal-form', model=None, abstract=False)
    if quick_unsat(cone(assumptions, goal) + [z3.Not(goal)], input_axioms):
        return dict(status='proved', backend='z3', model=None, abstract=False)
    fm, abstract = prepare(list(assumptions) + [z3.Not(goal)], input_axioms, rounds=rounds)
    r, s = solve(fm, min(timeout_ms, 2000))
    if r == z3.unknown:
        fm2 = fm
        for rd in (rounds, rounds + 1):
            if rd > rounds:
                if not abstract or rd > 3:
                    break
                fm2, _ = prepare(list(assumptions) + [z3.Not(goal)], input_axioms, rounds=rd)
            memo = {}
            try:
                r2, _ = solve([unmul(f, memo) for f in fm2], min(timeout_ms, 4000))
            except z3.Z3Exception:
                break
            if r2 == z3.unsat:
                return dict(status='proved', backend='z3 (products abstracted)', model=None, abstract=abstract)
            if r2 != z3.sat:
                break
        if timeout_ms > 2000:
            r, s = solve(fm, timeout_ms)
    if r == z3.unsat:
        return dict(status='proved', backend='z3', model=None, abstract=abstract)
    if r == z3.sat:
        if abstract and rounds < 3:
            fm2, _ = prepare(list(assumptions) + [z3.Not(goal)], input_axioms, rounds=rounds + 1)
            r2, s2 = solve(fm2, timeout_ms)
            if r2 == z3.unsat:
                return dict(status='proved', backend='z3', model=None, abstract=abstract)
            if r2 == z3.sat:
                s = s2
        if abstract:
            T.LIMITS['pairs'] = 90
            try:
                fm2, _ = prepare(list(assumptions) + [z3.Not(goal)], input_axioms, rounds=rounds)
            finally:
                T.LIMITS['pairs'] = 24
            if len(fm2) > len(fm):
                r2, s2 = solve(fm2, timeout_ms)
                if r2 == z3.unknown:
                    memo = {}
                    r2, _ = solve([unmul(f, memo) for f in fm2], timeout_ms)
                if r2 == z3.unsat:
                    return dict(status='proved', backend='z3', model=None, abstract=abstract)
                if r2 != z3.sat:
                    return dict(status='unknown', backend='z3', model=None, abstract=abstract)
        g2 = snapped(goal)
        if g2 is not None:
            r2 = prove(assumptions, g2, input_axioms, timeout_ms, False, rounds)
            if r2['status'] == 'proved':
                r2['backend'] += ' (constants to 1e-13)'
                return r2
        return dict(status='refuted', backend='z3', model=s.model(), abstract=abstract)
    # unknown: other back ends
    if use_cvc5:
        c = cvc5_check(fm, timeout_ms / 1000.0)
        if c == 'unsat':
            return dict(status='proved', backend='cvc5', model=None, abstract=abstract)
    return dict(status='unknown', backend='z3', model=None, abstract=abstract)
