"""C12: polynomial ephemerides evaluate the stored series at the right time."""
import math
import warnings
import numpy as np
import z3
from pyver.api import contract, loops
from pyver.engine import LoopSpec
from pyver.sym import SArr, SV, num, lift
from pyver.terms import IV, subst
import rubin_sim.moving_objects.chebyshev_utils as cu
import rubin_sim.moving_objects.cheby_values as cv
import rubin_sim.moving_objects.cheby_fits as cf

U = 'rubin_sim.moving_objects.chebyshev_utils:'
V = 'rubin_sim.moving_objects.cheby_values:ChebyValues.'


def cheb(t, n):
    """T_0..T_{n-1} and their derivatives at t, by the defining recurrences"""
    T, D = [1.0, t], [0.0, 1.0]
    while len(T) < n:
        T.append(2 * t * T[-1] - T[-2])
        D.append(2 * T[-2] + 2 * t * D[-1] - D[-2])
    return T[:n], D[:n]


def series(p, t):
    T, D = cheb(t, len(p))
    y = v = 0.0
    for a, b, c in zip(p, T, D):
        y, v = y + a * b, v + a * c
    return y, v


# --- any number of coefficients: T, T' and the partial sums are ghost functions with their defining recurrences ---

T_ = z3.Function('cheb_T', z3.IntSort(), z3.RealSort(), z3.RealSort())
D_ = z3.Function('cheb_D', z3.IntSort(), z3.RealSort(), z3.RealSort())
Y_ = z3.Function('cheb_Y', z3.IntSort(), z3.RealSort(), z3.RealSort())     # sum of p_k T_k, k < n
W_ = z3.Function('cheb_W', z3.IntSort(), z3.RealSort(), z3.RealSort())     # sum of p_k T_k', k < n


def unfold(S, p, t, k):
    """the recurrences at (k, t), as facts about the ghost functions"""
    two = z3.RealVal(2)
    P = lambda j: p[SV(j)].t  # noqa
    for n in (k, k + 1):
        S.e.assume(T_(n + 2, t) == two * t * T_(n + 1, t) - T_(n, t))
        S.e.assume(D_(n + 2, t) == two * T_(n + 1, t) + two * t * D_(n + 1, t) - D_(n, t))
        S.e.assume(z3.Implies(z3.And(n >= 0, n < p.dom.n), Y_(n + 1, t) == Y_(n, t) + subst(p.body, IV, n) * T_(n, t)))
        S.e.assume(z3.Implies(z3.And(n >= 0, n < p.dom.n), W_(n + 1, t) == W_(n, t) + subst(p.body, IV, n) * D_(n, t)))


def zero(S, t):
    for f, g in ((T_(0, t), 1), (T_(1, t), t), (D_(0, t), 0), (D_(1, t), 1), (Y_(0, t), 0), (W_(0, t), 0)):
        S.e.assume(f == g)


class Clenshaw(LoopSpec):
    """after k passes (terms i = 2k): y0 = T_i, y1 = T_{i+1} while terms remain, and y is the sum of the terms so far"""
    dead = ('j', 'y2', 'y3', 'v2', 'v3')
    vel = True

    def enter(self, S, v, it, n):
        st = S.spec_state
        zero(S, st['t'])

    def upto(self, S, k):
        i, N = 2 * k.t, S.spec_state['p'].dom.n
        return i, z3.If(i < N, i, N)

    def havoc(self, S, k, v, it):
        st = S.spec_state
        t, p = st['t'], st['p']
        i, m = self.upto(S, k)
        unfold(S, p, t, i)
        out = {}
        for nm in ('y0', 'y1', 'v0', 'v1', 'y', 'v'):
            if nm in v:
                out[nm] = S.real('h_' + nm)
        return out

    def inv(self, S, k, v, it):
        st = S.spec_state
        t, p = st['t'], st['p']
        i, m = self.upto(S, k)
        unfold(S, p, t, i)
        g = lambda nm: num(lift(v[nm]))  # noqa
        more = i < p.dom.n
        out = [('y is the partial sum', g('y') == Y_(m, t)), ('y0', z3.Implies(more, g('y0') == T_(i, t))), ('y1', z3.Implies(more, g('y1') == T_(i + 1, t)))]
        if 'v' in v:
            out += [('v is the partial sum', g('v') == W_(m, t)), ('v0', z3.Implies(more, g('v0') == D_(i, t))), ('v1', z3.Implies(more, g('v1') == D_(i + 1, t)))]
        return out


def any_order(S, vel):
    n = S.int('n', 1)
    a, b = S.real('a', near=[0]), S.real('b', near=[1])
    S.assume(b > a)
    x = S.real('x')
    t = (2 * x - a - b) / (b - a)
    p = S.arr('p', n)
    if S.symbolic:
        S.spec_state = dict(p=p, t=num(t))
    y, v = cu.chebeval(x, p, interval=(a, b), do_velocity=vel)
    if S.symbolic:
        S.ensure('value of the series', SV(num(y) == Y_(p.dom.n, num(t))))
        if vel:
            S.ensure('its time derivative', S.eq(v, SV(W_(p.dom.n, num(t))) * 2 / (b - a)))
    else:
        yy, vv = series(p, t)
        S.ensure('value of the series', S.eq(y, yy, rtol=1e-7, atol=1e-7 * sum(abs(c) for c in p) * max(1, (2 * abs(t)) ** n)))
        if vel:
            S.ensure('its time derivative', S.eq(v, vv * 2 / (b - a), rtol=1e-7, atol=1e-7 * n * n / (b - a) * sum(abs(c) for c in p) * max(1, (2 * abs(t)) ** n)))
    if not vel:
        S.ensure('no derivative unless asked', v is None)


@contract('C12', 'series of any length, with rates', U + 'chebeval', loops=loops('rubin_sim.moving_objects.chebyshev_utils', {'chebeval': Clenshaw}))
def eval_any_v(S):
    any_order(S, True)


@contract('C12', 'series of any length, values only', U + 'chebeval', loops=loops('rubin_sim.moving_objects.chebyshev_utils', {'chebeval': Clenshaw}))
def eval_any(S):
    any_order(S, False)


@contract('C12', 'series at many times', U + 'chebeval')
def eval_arrays(S):
    """all orders up to seven, arrays of times, masked or not"""
    k = S.choice('k', [1, 2, 3, 4, 5, 6, 7])
    n = S.int('n', 1)
    a, b = S.real('a', near=[0]), S.real('b', near=[1])
    S.assume(b > a)
    x = S.arr('x', n, near=[a, b])
    old = S.snapshot(x)
    p = [S.real('p%d' % j) for j in range(k)]
    mask, vel = S.bool('mask'), S.bool('vel')
    y, v = cu.chebeval(x, p if S.symbolic else np.array(p), interval=(a, b), do_velocity=vel, mask=mask)
    j = S.int('j', 0, n - 1)
    t = (2 * x[j] - a - b) / (b - a)
    yy, vv = series(p, t)
    sz = 1 if S.symbolic else sum(abs(c) for c in p) * max(1, (2 * abs(t)) ** k)
    out = S.or_(x[j] < a, x[j] > b)
    if mask and S.cond(out):
        if not S.symbolic:
            S.ensure('masked outside the segment', math.isnan(y[j]) and (not vel or math.isnan(v[j])))
        else:
            S.ensure('masked outside the segment', S.eq(y[j], float('nan')))
    else:
        S.ensure('value of the series', S.eq(y[j], yy, rtol=1e-7, atol=1e-7 * sz))
        if vel:
            S.ensure('its time derivative', S.eq(v[j], vv * 2 / (b - a), rtol=1e-7, atol=1e-6 * sz / (1 if S.symbolic else (b - a))))
    if not vel:
        S.ensure('no derivative unless asked', v is None)
    S.unchanged('times not modified', x, old)


@contract('C12', 'segment must have two ends', U + 'chebeval')
def two_ends(S):
    x, p = S.real('x'), [S.real('p')]
    for iv in ((), (0.0,), (0.0, 1.0, 2.0)):
        S.ensure('refused', S.raises(RuntimeError, lambda: cu.chebeval(x, p, interval=iv)))


class Rows:
    """coefficients of all segments: row r has entries f(r, 0), f(r, 1), ..."""

    def __init__(self, idx, funs):
        self.idx, self.funs = idx, funs

    def __getitem__(self, ix):
        if isinstance(ix, SArr):
            return Rows(self.idx[ix], self.funs)
        r = self.idx[ix]
        return [f(r) for f in self.funs]


@contract('C12', 'evaluation of one stored segment', [V + '_eval_segment', U + 'chebeval'])
def one_segment(S):
    n = S.int('n', 1)
    t0 = S.arr('t0', n, gen=lambda r: r.randint(0, 9))
    ln = S.arr('len', n, lo=0.25, hi=8)
    sub = S.arr('sub', n, 'b')
    some = S.bool('some')
    obj = S.arr('obj', n, 'i')
    keys = dict(ra=3, dec=2, geo_dist=1, vmag=2, elongation=3)
    if S.symbolic:
        fs = {k: [S.ufun('%s%d' % (k, j)) for j in range(m)] for k, m in keys.items()}
        idx = np_arange(n)
        co = {k: Rows(idx, f) for k, f in fs.items()}
    else:
        co = {k: np.array([[S.r.uniform(-3, 3) for _ in range(m)] for _ in range(n)]) for k, m in keys.items()}
    te = t0 + ln
    c = S.obj(cv.ChebyValues, coeffs=dict(obj_id=obj, t_start=t0, t_end=te, **co))
    if some:
        S.assume(S.count(sub) >= 1)
        s = S.int('s', 0, S.count(sub) - 1)
        rowof = (np_arange(n) if S.symbolic else np.arange(n))[sub]
        r = rowof[s]
    else:
        s = S.int('s', 0, n - 1)
        r = s
    time = S.real('time', gen=lambda q: q.uniform(-1, 12))
    mask = S.bool('mask')
    e = c._eval_segment(s, time, sub if some else None, mask=mask) if some or S.bool('pos') else c._eval_segment(s, time, mask=mask)
    a, b = t0[r], te[r]
    x = (2 * time - a - b) / (b - a)
    inside = S.and_(time >= a, time <= b)
    S.assume(S.or_(inside, not mask))
    row = (lambda k: [f(r) for f in fs[k]]) if S.symbolic else (lambda k: list(co[k][r]))
    val = {k: series(row(k), x) for k in keys}
    at = 1e-6 if S.symbolic else 1e-6 * (1 + abs(x)) ** 3
    for k in keys:
        S.ensure('%s is the value of its series' % k, S.eq(e[k], val[k][0], rtol=1e-7, atol=at))
    S.ensure('declination rate', S.eq(e['ddecdt'], val['dec'][1] * 2 / (b - a), rtol=1e-7, atol=at * 8))
    S.ensure('rate on the sky in RA', S.eq(e['dradt'], val['ra'][1] * 2 / (b - a) * S.fn('cos', val['dec'][0] * S.pi / 180 if S.symbolic else math.radians(val['dec'][0])), rtol=1e-7, atol=at * 8))


def np_arange(n):
    from pyver import npmodel
    return npmodel.c_arange(n)


@contract('C12', 'outside a segment, masked evaluation', [V + '_eval_segment', U + 'chebeval'], bounded='nan arithmetic on masked values', trials=400)
def masked_segment(S):
    n = S.int('n', 1, 4)
    c = cv.ChebyValues()
    t0 = np.array([float(S.r.randint(0, 5)) for _ in range(n)])
    c.coeffs = dict(obj_id=np.arange(n), t_start=t0, t_end=t0 + 2, **{k: np.array([[S.r.uniform(-3, 3) for _ in range(4)] for _ in range(n)]) for k in ('ra', 'dec', 'geo_dist', 'vmag', 'elongation')})
    s = S.int('s', 0, n - 1)
    t = S.real('t', gen=lambda r: r.choice([t0[s] - 1e-6, t0[s], t0[s] + 1, t0[s] + 2, t0[s] + 2.01]))
    e = c._eval_segment(s, t)
    out = t < t0[s] or t > t0[s] + 2
    for k in ('ra', 'dec', 'dradt', 'ddecdt', 'geo_dist', 'vmag', 'elongation'):
        S.ensure('%s masked exactly outside the segment' % k, bool(np.isnan(e[k])) == out)


KEYS = ('ra', 'dec', 'geo_dist', 'vmag', 'elongation')


class _Fits:
    pass


@contract('C12', 'ephemerides of many objects', [V + 'get_ephemerides', V + '_eval_segment', V + 'set_coefficients', U + 'chebeval'],
          bounded='two-dimensional result tables filled segment by segment are outside the array model', trials=1500)
def many(S):
    r = S.r
    ids = r.sample(range(1, 60), S.int('nobj', 1, 4))
    strs = S.bool('strs')
    if strs:
        ids = ['o%d' % i for i in ids]
    rows = []
    for i in ids:
        t = float(r.choice([0, 0, 0, 2]))
        while t < 8:
            ln = r.choice([1., 2., 3.])
            if r.random() > .15:
                rows.append((i, t, t + ln))
            t += ln
    S.assume(len(rows) > 0)
    if S.bool('shuffled'):
        r.shuffle(rows)
    f = _Fits()
    f.coeffs = dict(obj_id=[q[0] for q in rows], t_start=[q[1] for q in rows], t_end=[q[2] for q in rows])
    for k in KEYS:
        f.coeffs[k] = [[r.uniform(-5, 5) for _ in range(4)] for _ in rows]
    S.draws['segments'] = [list(q) for q in rows]
    co = {k: list(v) for k, v in f.coeffs.items()}
    c = cv.ChebyValues()
    c.set_coefficients(f)
    have = sorted(set(q[0] for q in rows))
    want = None
    if S.bool('asked'):
        want = r.sample(have, r.randint(1, len(have)))
        S.draws['want'] = want
    times = [round(r.uniform(-1, 10) * 4) / 4 for _ in range(r.randint(1, 4))]
    S.draws['times'] = times
    extra = S.bool('extra')
    arg = None if want is None else (np.array(want) if S.bool('asarray') or len(want) > 1 else want[0])
    keep = None if not isinstance(arg, np.ndarray) else arg.copy()
    e = c.get_ephemerides(times[0] if len(times) == 1 and S.bool('scalar') else np.array(times), obj_ids=arg, extrapolate=extra)
    if keep is not None:
        S.ensure('requested ids not modified', (arg == keep).all())
    out = list(e['obj_id'])
    S.ensure('one row per requested object', sorted(out) == sorted(want if want is not None else have))
    sel = [j for j in range(len(rows)) if rows[j][0] in out]
    lo, hi = min(rows[j][1] for j in sel), max(rows[j][2] for j in sel)
    for i, o in enumerate(out):
        for it, t in enumerate(times):
            S.ensure('time of the row', e['time'][i][it] == t)
            seg = [j for j in sel if rows[j][0] == o and rows[j][1] <= t < rows[j][2]]
            end = [j for j in sel if rows[j][0] == o and rows[j][2] == t]
            got = {k: float(e[k][i][it]) for k in c.ephemeris_keys}
            if not seg and not end:
                # asked to extrapolate: the first or last segments are continued
                if extra and (t < lo or t > hi):
                    seg = [j for j in sel if rows[j][0] == o and (rows[j][1] == lo if t < lo else rows[j][2] == hi)]
            if not seg and not end:
                S.ensure('no number for an object without a segment at the time', all(math.isnan(x) for x in got.values()))
                continue
            if not seg and all(math.isnan(x) for x in got.values()):
                S.ensure('last instant of all segments is covered', t != hi)
                continue
            j = (seg or end)[0]
            a, b = rows[j][1], rows[j][2]
            x = (2 * t - a - b) / (b - a)
            val = {k: series(co[k][j], x) for k in KEYS}
            at = 1e-6 * max(1, abs(x)) ** 3
            for k in KEYS:
                S.ensure('%s from the segment of that object at that time' % k, S.eq(got[k], val[k][0], atol=at))
            S.ensure('declination rate', S.eq(got['ddecdt'], val['dec'][1] * 2 / (b - a), atol=at))
            S.ensure('rate on the sky in RA', S.eq(got['dradt'], val['ra'][1] * 2 / (b - a) * math.cos(math.radians(val['dec'][0])), atol=at))
    if S.r.random() < .1:
        S.ensure('an object without any segment is refused', S.raises(ValueError, lambda: c.get_ephemerides(np.array(times), obj_ids=np.array(have[:1] + ['none' if strs else 1000]))))
    for k, src in (('meanRA', 'ra'), ('meanDec', 'dec')):
        S.ensure('mean position is the constant term', list(c.coeffs[k]) == [q[0] for q in co[src]])
    bad = _Fits()
    bad.coeffs = {k: v for k, v in c.coeffs.items() if k != r.choice(KEYS) or r.random() < .0}
    miss = set(c.coeff_keys) - set(bad.coeffs)
    if miss:
        S.ensure('incomplete coefficients are refused', S.raises(ValueError, lambda: cv.ChebyValues().set_coefficients(bad)))


@contract('C12', 'fitted series', [U + 'chebfit', U + 'make_cheb_matrix', U + 'make_cheb_matrix_only_x'],
          bounded='constrained least squares by matrix inversion is outside the array model', trials=150)
def fits(S):
    r = S.r
    n = S.int('n', 8, 33)
    vel = S.bool('vel')
    npoly = S.int('npoly', 4, 8)
    deg = S.int('deg', 0, 12)
    a, ln = S.real('a', gen=lambda q: float(q.randint(0, 60000))), S.real('len', gen=lambda q: q.choice([.25, 1., 2., 30.]))
    co = [r.uniform(-5, 5) / (k + 1) for k in range(deg + 1)]
    t = a + np.linspace(0, ln, n)
    u = np.linspace(-1, 1, n)
    T = np.polynomial.chebyshev.chebval(u, co)
    D = np.polynomial.chebyshev.chebval(u, np.polynomial.chebyshev.chebder(co)) * 2 / ln if deg else np.zeros(n)
    kw = {}
    pre = S.choice('pre', ['none', 'right', 'wrong'])
    if pre != 'none':
        m, q = (n, npoly) if pre == 'right' else r.choice([(n + 2, npoly), (n, npoly + 1), (n + 1, npoly + 1)])
        if vel:
            kw['x_multiplier'], kw['dx_multiplier'] = cu.make_cheb_matrix(m, q)
            if pre == 'wrong' and S.bool('onlyone'):
                k = r.choice(['x_multiplier', 'dx_multiplier'])
                kw[k] = cu.make_cheb_matrix(n, npoly)[k == 'dx_multiplier'] if r.random() < .5 else None
        else:
            kw['x_multiplier'] = cu.make_cheb_matrix_only_x(m, q)
    x0, d0 = T.copy(), D.copy()
    p, resid, rms, mx = cu.chebfit(t, T, dxdt=D if vel else None, n_poly=npoly, **kw)
    S.ensure('inputs not modified', (T == x0).all() and (D == d0).all())
    S.ensure('one coefficient per term', len(p) == npoly)
    f = np.polynomial.chebyshev.chebval(u, p)
    S.ensure('values at both ends are met', abs(f[0] - T[0]) < 1e-5 and abs(f[-1] - T[-1]) < 1e-5)
    if vel:
        g = np.polynomial.chebyshev.chebval(u, np.polynomial.chebyshev.chebder(p)) * 2 / ln
        S.ensure('rates at both ends are met', abs(g[0] - D[0]) < 1e-4 * max(1, 1 / ln) and abs(g[-1] - D[-1]) < 1e-4 * max(1, 1 / ln))
    if deg < npoly:
        S.ensure('a polynomial of lower degree is reproduced', np.allclose(p, list(co) + [0] * (npoly - deg - 1), atol=1e-4))
    # among the series which meet the ends, the (weighted) least squares one
    V = np.polynomial.chebyshev.chebvander(u, npoly - 1)
    C, rhs, A, y = V[[0, -1]], T[[0, -1]], V, T
    if vel:
        W = np.array([np.polynomial.chebyshev.chebval(u, np.polynomial.chebyshev.chebder(row)) for row in np.eye(npoly)]).T
        C, rhs = np.vstack([C, W[[0, -1]]]), np.concatenate([rhs, (D * ln / 2)[[0, -1]]])
        A, y = np.vstack([V, .4 * W]), np.concatenate([T, .4 * D * ln / 2])
    part = np.linalg.lstsq(C, rhs, rcond=None)[0]
    N = np.linalg.svd(C)[2][len(rhs):].T
    best = part + (N @ np.linalg.lstsq(A @ N, y - A @ part, rcond=None)[0] if N.shape[1] else 0)
    S.ensure('closest series to the track among those', np.allclose(p, best, atol=1e-4))
    S.ensure('residuals are value minus fit', np.allclose(resid, T - f, atol=1e-5))
    S.ensure('largest residual', abs(mx - np.abs(resid).max()) < 1e-9)
    S.ensure('rms residual', abs(rms - math.sqrt((resid ** 2).sum() / (n - 1))) < 1e-9)


@contract('C12', 'fits that cannot be made are refused', [U + 'chebfit'], bounded='finite list of bad shapes', trials=60)
def bad_fits(S):
    n = S.int('n', 3, 12)
    t = np.linspace(0, 1, n)
    S.ensure('lengths must agree', S.raises(ValueError, lambda: cu.chebfit(t, np.zeros(n + 1))))
    S.ensure('too many terms without rates', S.raises(RuntimeError, lambda: cu.chebfit(t, np.zeros(n), n_poly=n + 1)))
    S.ensure('too many terms with rates', S.raises(RuntimeError, lambda: cu.chebfit(t, np.zeros(n), dxdt=np.zeros(n), n_poly=2 * n + 1)))
    S.ensure('too few terms', S.raises(RuntimeError, lambda: cu.chebfit(t, np.zeros(n), n_poly=1)))
    S.ensure('too few terms with rates', S.raises(RuntimeError, lambda: cu.chebfit(t, np.zeros(n), dxdt=np.zeros(n), n_poly=3)))


F = 'rubin_sim.moving_objects.cheby_fits:'


@contract('C12', 'right ascensions across zero are made continuous', [F + 'three_sixty_to_neg'])
def unwrap(S):
    n = S.int('n', 1)
    ra = S.arr('ra', n, lo=0, hi=360, hi_open=True, near=[100, 270])
    old = S.snapshot(ra)
    out = cf.three_sixty_to_neg(ra)
    S.forall('same direction', n, lambda k: S.or_(S.eq(out[k], ra[k]), S.eq(out[k], ra[k] - 360)))
    j, k = S.int('j', 0, n - 1), S.int('k', 0, n - 1)
    wraps = S.and_(ra[j] < 100, ra[k] > 270)
    S.ensure('brought below zero when the track crosses zero', S.implies(wraps, S.eq(out[k], ra[k] - 360)))
    S.ensure('the near side is left alone', S.implies(ra[j] < 100, S.eq(out[j], ra[j])))
    S.unchanged('input not modified', ra, old)


@contract('C12', 'segment length divides the span', [F + 'ChebyFits._round_length'], bounded='repeated decimal rounding is outside the solver theories', trials=600)
def seglen(S):
    nd = S.int('nd', 4, 13)
    span = S.real('span', gen=lambda r: round(r.choice([1., 2., 30., 365., r.uniform(1, 50)]), min(nd, 4)))
    ln = S.real('ln', gen=lambda r: r.choice([.1, .25, .5, 1., 1.3, 2., 7., r.uniform(.05, 5)]))
    S.assume(ln <= span)
    c = S.obj(cf.ChebyFits, n_decimal=nd, t_span=round(span, nd), t_start=0., t_end=span, failed=[],
              orbits_obj=_Orb())
    try:
        out = c._round_length(ln)
    except (ValueError, AttributeError):
        return   # reported as not possible
    m = span % out
    S.ensure('whole number of segments', m <= 10. ** (1 - nd) * 1.01)
    S.ensure('never longer than asked', out <= ln + 10. ** -nd)


class _Orb:
    orbits = {'obj_id': np.array([1])}


class _Eph:
    """stand-in for the orbit propagator: smooth tracks, some with a sudden turn or with a stretch no series can follow"""
    start, ra0, turn, rough, gone, asked = 60000., 0., {}, {}, {}, []

    def __init__(self, eph_file=None):
        self.eph_file = eph_file

    def set_orbits(self, o):
        self.o = o

    def generate_ephemerides(self, times, by_object=True, **kw):
        self.asked.append((self.eph_file, kw.get('time_scale'), kw.get('obscode'), kw.get('eph_mode'), kw.get('eph_type')))
        out = []
        for i in self.o.orbits['obj_id']:
            e = np.zeros(len(times), dtype=[(k, float) for k in ('time', 'ra', 'dec', 'dradt', 'ddecdt', 'geo_dist', 'magV', 'solarelon')])
            t = np.asarray(times) - self.start
            w = .02 + .01 * (i % 7)
            g = dg = 0 * t
            if i in self.turn:
                c, s = self.turn[i]
                g = np.exp(-.5 * ((t - c) / s) ** 2)
                dg = -(t - c) / s ** 2 * g
            e['time'] = times
            e['dec'] = 20 * np.sin(w * t + i) + .3 * g
            e['ddecdt'] = 20 * w * np.cos(w * t + i) + .3 * dg
            e['ra'] = (self.ra0 + 30 * i + 2 * t + .2 * g) % 360
            e['dradt'] = (2 + .2 * dg) * np.cos(np.radians(e['dec']))
            e['geo_dist'] = 2 + .1 * np.sin(w * t) + .01 * g
            e['magV'] = 20 + np.sin(w * t) + .3 * g
            e['solarelon'] = 120 + 5 * np.cos(w * t) + 2 * g
            if i in self.rough:
                a, b = self.rough[i]
                e['dec'] += np.where((t > a) & (t < b), .5 * np.sin(1e7 * t), 0)
            if i in self.gone:
                e[self.gone[i][1]][(t > self.gone[i][0]) & (t < self.gone[i][0] + .9)] = np.nan
            out.append(e)
        return out


def resid_of(c, j, truth, k, name):
    """largest difference between a stored series and the track, at equally spaced times of its segment"""
    f = np.polynomial.chebyshev.chebval(np.linspace(-1, 1, len(truth)), c[k][j])
    return truth[name] - f


@contract('C12', 'fitting and evaluating a track', [F + 'ChebyFits.' + f for f in ('__init__', '_set_orbits', '_precompute_multipliers', 'generate_ephemerides', 'calc_segment_length', 'calc_segments', 'calc_one_segment',
                                                                                  '_test_residuals', '_length_to_timestep', '_get_coeffs_position', '_get_coeffs_other', '_subdivide_segment', 'make_all_times')]
          + [V + 'get_ephemerides'], bounded='whole fitting pipeline, with a stand-in for the orbit propagator (not installed)', trials=150)
def pipeline(S):
    import pandas as pd
    from rubin_sim.moving_objects import Orbits
    r = S.r
    nobj = S.int('nobj', 1, 3)
    ids = sorted(r.sample(range(1, 30), nobj))
    o = Orbits()
    o.set_orbits(pd.DataFrame(dict(obj_id=ids, q=2., e=.1, inc=5., Omega=1., argPeri=1., tPeri=60000., epoch=60000., H=20., g=.15, sed_filename='C.dat')))
    keep = cf.PyOrbEphemerides
    span = float(r.choice([2, 4, 6, 8]))
    start = 60000. + r.randint(0, 300)
    tol = float(r.choice([2.5, 2.5, 20, 6000]))
    _Eph.start, _Eph.asked, _Eph.turn, _Eph.rough, _Eph.gone = start, [], {}, {}, {}
    _Eph.ra0 = 360 - 30 * r.choice(ids) - 1.2345 if S.bool('cross') else r.uniform(0, 360)
    if span > 2:
        for i in ids:
            k = r.random()
            if k < .4:
                _Eph.turn[i] = (r.uniform(2.5, span - .5), r.choice([.2, .3, .5]))
            elif k < .55 and tol < 1000:
                c = r.randint(2, int(span) - 1)
                _Eph.rough[i] = (c + r.choice([0, .5]), c + 1)
            elif k < .65:
                _Eph.gone[i] = (r.randint(2, int(span) - 1) + .05, r.choice(['geo_dist', 'magV', 'solarelon']))     # no number for a while
    nd = 5 if _Eph.rough else 10
    S.draws.update(ids=ids, span=span, start=start, tol=tol, turn=_Eph.turn, rough=_Eph.rough, gone=_Eph.gone)
    scale = r.choice(['TAI', 'utc', 'Tt'])
    obs = r.choice(['I11', 'X05'])
    try:
        cf.PyOrbEphemerides = _Eph
        S.ensure('unknown time scales are refused', S.raises(ValueError, lambda: cf.ChebyFits(o, start, span, eph_file='none', time_scale='GPS')))
        S.ensure('orbits must be orbits', S.raises(ValueError, lambda: cf.ChebyFits([1], start, span, eph_file='none')))
        fit = cf.ChebyFits(o, start, span, eph_file='none', n_decimal=nd, sky_tolerance=tol, time_scale=scale, obscode=obs)
        S.ensure('a segment length is needed first', S.raises(AttributeError, fit.make_all_times))
        ln = float(r.choice([.5, 1, 2])) if S.bool('given') else None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fit.calc_segment_length(length=ln)
            if ln is not None:
                S.ensure('length as given', fit.length == ln)
            fit.calc_segments()
        S.ensure('track asked for as configured', set(_Eph.asked) == {('none', scale.upper(), obs, 'N', 'basic')})
        c0, rs = fit.coeffs, fit.resids
        for i in ids:
            seg = sorted([(a, b) for j, a, b in zip(c0['obj_id'], c0['t_start'], c0['t_end']) if j == i] + [(a, b) for j, a, b in fit.failed if int(j) == i])
            S.ensure('segments and reported failures start at the start', abs(seg[0][0] - start) < 1e-4)
            S.ensure('segments and reported failures reach the end', abs(seg[-1][1] - start - span) < 1e-4)
            S.ensure('segments and reported failures follow one another', all(abs(p[1] - q[0]) < 1e-4 for p, q in zip(seg, seg[1:])))
            S.ensure('segments no longer than asked', all(b - a <= fit.length + 1e-4 for a, b in seg))
        for j, a, b in fit.failed:
            S.ensure('failures name their object', isinstance(j, (int, np.integer)) and j in ids)
            if j in _Eph.gone:
                S.ensure('segments without numbers are reported', a - start < _Eph.gone[j][0] + .9 and b - start > _Eph.gone[j][0])
        S.ensure('nothing fails but what cannot be fitted', all(j in _Eph.gone or int(j) in _Eph.rough and a - start < _Eph.rough[int(j)][1] and b - start > _Eph.rough[int(j)][0] for j, a, b in fit.failed))
        for k in ('obj_id', 't_start', 't_end'):
            S.ensure('one record of residuals per segment', list(rs[k]) == list(c0[k]))
        S.ensure('every segment within the tolerance', all(x <= tol for x in rs['pos']))
        one = {i: o[k] for k, i in enumerate(o.orbits['obj_id'])}
        for j in range(len(c0['obj_id'])):
            a, b = c0['t_start'][j], c0['t_end'][j]
            if b - a < 1e-2:
                continue    # times of the track are too coarse to reproduce
            eph = _Eph('none')
            eph.set_orbits(one[c0['obj_id'][j]])
            tr = eph.generate_ephemerides(np.linspace(a, b, 65))[0]
            if int(c0['obj_id'][j]) in _Eph.rough and b - start > _Eph.rough[int(c0['obj_id'][j])][0] and a - start < _Eph.rough[int(c0['obj_id'][j])][1]:
                continue
            dra = (resid_of(c0, j, tr, 'ra', 'ra') + 180) % 360 - 180
            want = np.sqrt(resid_of(c0, j, tr, 'dec', 'dec') ** 2 + (dra * np.cos(np.radians(tr['dec']))) ** 2).max() * 3600e3
            S.ensure('largest distance on the sky recorded, in milliarcseconds', abs(rs['pos'][j] - want) <= 2e-3 * want + 1e-2)
            for k, nm in (('geo_dist', 'geo_dist'), ('vmag', 'magV'), ('elongation', 'solarelon')):
                want = np.abs(resid_of(c0, j, tr, k, nm)).max()
                S.ensure('largest %s residual recorded' % k, abs(rs[k][j] - want) <= 1e-3 * want + 1e-7)
        if not len(c0['obj_id']):
            return
        c = cv.ChebyValues()
        c.set_coefficients(fit)
        times = start + np.sort([r.uniform(0, span) for _ in range(5)])
        e = c.get_ephemerides(times)
        truth = {i: t for i, t in zip(ids, fit.generate_ephemerides(times))}
    finally:
        cf.PyOrbEphemerides = keep
    for row, i in enumerate(e['obj_id']):
        t = truth[int(i)]
        bad = np.zeros(len(times), bool)
        for j, a, b in fit.failed:
            if int(j) == i:
                bad |= (times >= a - 1e-3) & (times <= b + 1e-3)
        if int(i) in _Eph.rough:
            a, b = _Eph.rough[int(i)]
            bad |= (times - start >= a - .1) & (times - start <= b + .1)
        for k in c.ephemeris_keys:
            S.ensure('numbers wherever there is a segment', np.isfinite(e[k][row][~bad]).all())
        ok = ~bad
        err = np.hypot(((e['ra'][row] - t['ra'] + 180) % 360 - 180) * np.cos(np.radians(t['dec'])), e['dec'][row] - t['dec']) * 3600e3
        S.ensure('position within tolerance', (err[ok] < tol * 2).all())
        if tol < 1000:
            S.ensure('sky rates', np.allclose(e['dradt'][row][ok], t['dradt'][ok], atol=1e-3) and np.allclose(e['ddecdt'][row][ok], t['ddecdt'][ok], atol=1e-3))
        S.ensure('distance, magnitude, elongation', np.allclose(e['geo_dist'][row][ok], t['geo_dist'][ok], atol=1e-2) and np.allclose(e['vmag'][row][ok], t['magV'][ok], atol=.3)
                 and np.allclose(e['elongation'][row][ok], t['solarelon'][ok], atol=2))


@contract('C12', 'coefficients read from a file', [F + 'ChebyFits.write', V + 'read_coefficients'], bounded='text files', trials=40)
def files(S):
    import os
    import tempfile
    r = S.r
    n = S.int('n', 1, 6)
    fit = S.obj(cf.ChebyFits, n_coeff=dict(position=4, geo_dist=2, vmag=3, elongation=3), failed=[], n_decimal=10, time_scale='TAI', resids=dict(obj_id=list(range(n)), t_start=[0.] * n, t_end=[1.] * n, pos=[0.] * n, geo_dist=[0.] * n, vmag=[0.] * n, elongation=[0.] * n),
                coeffs=dict(obj_id=list(range(n)), t_start=[59000. + r.randint(0, 5) for _ in range(n)], t_end=[59010. + r.randint(0, 5) for _ in range(n)]))
    for k, m in dict(ra=4, dec=4, geo_dist=2, vmag=3, elongation=3).items():
        fit.coeffs[k] = [np.array([r.uniform(-50, 50) for _ in range(m)]) for _ in range(n)]
    for k in ('pos', 'geo_dist', 'vmag', 'elongation'):
        fit.resids[k] = [r.uniform(0, 3) for _ in range(n)]
    fit.resids.update({k: list(fit.coeffs[k]) for k in ('t_start', 't_end')})
    fit.failed = [(r.randint(1, 9), 59000., 59002.) for _ in range(r.randint(0, 2))]
    twice = S.bool('twice')
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = [os.path.join(d, x) for x in 'abc']
        S.ensure('a missing file is refused', S.raises(IOError, lambda: cv.ChebyValues().read_coefficients(f[0])))
        fit.write(*f, append=S.bool('new'))
        if twice:
            fit.write(*f, append=True)
        elif S.bool('over'):
            fit.write(*f)
        c = cv.ChebyValues()
        c.read_coefficients(f[0])
        head, *lines = [x.split() for x in open(f[1])]
        lost = [x.split() for x in open(f[2])] if os.path.exists(f[2]) else []
    m = 2 if twice else 1
    for k, v in fit.coeffs.items():
        S.ensure('%s read back' % k, np.allclose(np.asarray(c.coeffs[k]), np.asarray(list(v) * m), rtol=1e-7, atol=1e-8))
    for k, src in (('meanRA', 'ra'), ('meanDec', 'dec')):
        S.ensure('mean position is the constant term', np.allclose(c.coeffs[k], [q[0] for q in fit.coeffs[src]] * m))
    S.ensure('residual columns', head == ['obj_id', 'segNum', 't_start', 't_end', 'length', 'pos', 'geo_dist', 'vmag', 'elong'])
    rows = [[i, j + 1, a, b, b - a, p, g, v, e] for j, (i, a, b, p, g, v, e) in enumerate(zip(*[fit.resids[k] for k in ('obj_id', 't_start', 't_end', 'pos', 'geo_dist', 'vmag', 'elongation')]))]
    S.ensure('residuals of each segment', np.allclose([[float(x) for x in q] for q in lines], rows * m))
    S.ensure('failures listed', [[float(x) for x in q] for q in lost] == [list(map(float, q)) for q in fit.failed] * m)
