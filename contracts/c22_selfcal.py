"""C22: the self-calibration catalogue and solution describe the stars and visits they were made from."""
import math
import sys
import warnings
import numpy as np
import z3
from pyver.api import contract
from pyver import npmodel
from pyver.sym import SV, SArr, lift, num, to_real, R
import rubin_sim.maf  # noqa: F401  (rubin_sim.selfcal needs it to be imported first)
import rubin_sim.selfcal.generate_catalog  # noqa: F401
import rubin_sim.selfcal.offsets as of
import rubin_sim.selfcal.solver as so
import rubin_sim.selfcal.star_tools as stt
import rubin_sim.maf.maf_contrib.selfcal_uniformity_metric as su

gc = sys.modules['rubin_sim.selfcal.generate_catalog']
G = 'rubin_sim.selfcal.generate_catalog:'
O = 'rubin_sim.selfcal.offsets:'
L = 'rubin_sim.selfcal.solver:LsqrSolver.'
T = 'rubin_sim.selfcal.star_tools:'
U = 'rubin_sim.maf.maf_contrib.selfcal_uniformity_metric:'


# ---- projection and patches

_PX, _PY = (z3.Function('uf!gno' + c, *([R] * 5)) for c in 'xy')


def gnomonic(ra, dec, ra0, dec0):
    """rubin_scheduler: projected coordinates, an arbitrary function of position and centre"""
    q = [to_real(num(lift(v))) for v in (ra0, dec0)]
    return tuple(npmodel.bmap(lambda a, b, f=f: SV(f(to_real(num(lift(a))), to_real(num(lift(b))), *q)), ra, dec) for f in (_PX, _PY))


@contract('C22', 'stars in the rotated frame of a visit', T + 'stars_project', stubs={'rubin_sim.selfcal.star_tools:gnomonic_project_toxy': gnomonic},
          assumes=['rubin_scheduler: the gnomonic projection, an arbitrary function of position and centre'])
def project(S):
    n = S.int('n', 0)
    cols = {k: S.arr(k, n, lo=lo, hi=hi) for k, lo, hi in (('ra', 0, 360), ('decl', -89, 89), ('x', -1, 1), ('y', -1, 1), ('radius', 0, 1))}
    v = {'ra': S.real('vra', 0, 360), 'dec': S.real('vdec', -89, 89), 'rotSkyPos': S.real('rot', 0, 360)}
    t = S.table(**cols)
    old = S.snapshot(t)
    if not S.symbolic:
        S.assume(n == 0 or np.all(np.cos(np.radians(cols['ra'] - v['ra'])) * np.cos(np.radians(cols['decl'])) * np.cos(np.radians(v['dec']))
                                  + np.sin(np.radians(cols['decl'])) * np.sin(np.radians(v['dec'])) > .2))
    out = stt.stars_project(t, v)
    px, py = stt.gnomonic_project_toxy(np.radians(cols['ra']), np.radians(cols['decl']), np.radians(v['ra']), np.radians(v['dec']))
    c, s = np.cos(np.radians(v['rotSkyPos'])), np.sin(np.radians(v['rotSkyPos']))
    S.ensure('same stars', S.eq(S.size(out), n))
    S.forall('rotated projection', n, lambda k: S.and_(S.eq(out['x'][k], c * px[k] + s * py[k]), S.eq(out['y'][k], c * py[k] - s * px[k])))
    S.forall('distance from the centre', n, lambda k: S.and_(out['radius'][k] >= 0, S.eq(out['radius'][k] * out['radius'][k], out['x'][k] * out['x'][k] + out['y'][k] * out['y'][k])))
    S.forall('positions unchanged', n, lambda k: S.and_(S.eq(out['ra'][k], old['ra'][k]), S.eq(out['decl'][k], old['decl'][k])))
    if not S.symbolic:
        for k in range(n):
            a, b, a0, b0 = (math.radians(float(x)) for x in (cols['ra'][k], cols['decl'][k], v['ra'], v['dec']))
            sep = math.acos(min(1, math.sin(b) * math.sin(b0) + math.cos(b) * math.cos(b0) * math.cos(a - a0)))
            S.ensure('tangent of the separation', abs(out['radius'][k] - math.tan(sep)) < 1e-6 * (1 + math.tan(sep)))


@contract('C22', 'patches of a visit', T + 'assign_patches', stubs={'rubin_sim.selfcal.star_tools:gnomonic_project_toxy': lambda *a: (SV(z3.Real('maxx')), SV(z3.Real('maxy')))},
          assumes=['rubin_scheduler: the projected edge of the field is a positive number'])
def patches(S):
    n = S.int('n', 0)
    side = S.choice('side', [1, 2, 4, 5])
    rad = S.real('fov', .5, 4)
    if S.symbolic:
        edge = SV(z3.Real('maxy'))
        S.assume(edge > 0)
        f = None
    else:
        edge = math.tan(math.radians(rad))
        f = edge
    x, y = (S.arr(k, n, lo=-1, hi=1, lo_open=True, hi_open=True) for k in 'xy')
    x, y = x * edge, y * edge
    if not S.symbolic:
        for v in (x, y):
            for k in range(n):
                if S.r.random() < .6:
                    i = S.r.randint(0, side)
                    v[k] = -edge + (i + (1e-4 if i == 0 or (i < side and S.r.random() < .5) else -1e-4)) * 2 * edge / side
    obs = S.int('obs', 0, 10**6)
    z = S.arr('z', n, 'i', lo=0, hi=3)
    t = S.table(x=x, y=y, sub_patch=z, patch_id=z * 1)
    out = stt.assign_patches(t, {'observationId': obs}, n_patches=side * side, radius_fov=rad)
    w = 2 * edge / side
    if not S.symbolic:
        for k in range(n):
            S.assume(min(abs(((v[k] + edge) / w) % 1 - .5) for v in (x, y)) < .4999999)
    S.forall('within the patches of the visit', n, lambda k: S.and_(out['sub_patch'][k] >= 0, out['sub_patch'][k] < side * side,
                                                                     S.eq(out['patch_id'][k], obs * (side * side) + out['sub_patch'][k])))

    def inside(k):
        p = out['sub_patch'][k]
        i, j = p % side, p // side
        return S.and_(x[k] + edge >= i * w - (0 if S.symbolic else 1e-9), x[k] + edge < (i + 1) * w + (0 if S.symbolic else 1e-9),
                      y[k] + edge >= j * w - (0 if S.symbolic else 1e-9), y[k] + edge < (j + 1) * w + (0 if S.symbolic else 1e-9))
    S.forall('the patch that holds the star', n, inside)


# ---- offsets

@contract('C22', 'expected magnitude error', O + 'OffsetSNR.calc_mag_errors', also=['rubin_sim.maf.utils.astrometry_utils'], safety=False)
def magerr(S):
    n = S.int('n', 0)
    m = S.arr('m', n, lo=12, hi=28)
    m5 = S.real('m5', 15, 27)
    e = of.OffsetSNR().calc_mag_errors(m, m5, err_only=True)
    S.forall('from the signal to noise at the depth', n, lambda k: S.eq(e[k], 2.5 * S.log10(1 + S.p10((m[k] - m5) * .4) / 5)))


class Rand:
    """numpy's generator: arbitrary numbers"""

    def __init__(self, S):
        self.S = S
        self.given = []

    def randn(self, n):
        if self.S.symbolic:
            v = self.S.arr('rnd%d' % len(self.given), n, lo=-5, hi=5)
        else:
            v = np.array([self.S.r.gauss(0, 1) for _ in range(n)])
        self.given.append(v)
        return v


@contract('C22', 'offsets of the stars', [O + 'OffsetSNR.__call__', O + 'OffsetSys.__call__', O + 'NoOffset.__call__', O + 'OffsetSNR.calc_mag_errors'],
          bounded='draws of the random number generator', trials=300)
def offsets(S):
    r = S.r
    n = r.randint(0, 8)
    f = S.choice('filter', list('ugrizy'))
    st = np.zeros(n, dtype=[(b + 'mag', float) for b in 'ugrizy'])
    for b in 'ugrizy':
        st[b + 'mag'] = [r.uniform(14, 26) for _ in range(n)]
    m5 = r.uniform(20, 26)
    keep = st.copy()
    seed = r.randrange(10**6)
    prev = {'a%d' % i: np.array([r.gauss(0, .1) for _ in range(n)]) for i in range(r.randint(0, 2))}
    total = st[f + 'mag'] + sum(prev.values()) if prev else st[f + 'mag']
    np.random.seed(seed)
    d = of.OffsetSNR(lsst_filter=f)(st, {'fiveSigmaDepth': m5}, dmags=prev or r.choice([None, {}]))
    np.random.seed(seed)
    g = np.random.randn(n)
    err = 2.5 * np.log10(1 + .2 * 10 ** (.4 * (total - m5)))
    S.draws.update(n=n, m5=m5, earlier=len(prev))
    S.ensure('noise of the expected size at the offset magnitude', len(d) == n and np.allclose(d, g * err, rtol=1e-9))
    z = of.NoOffset()(st, {'fiveSigmaDepth': m5}, dmags={})
    S.ensure('no offset', np.shape(z) == (n,) and np.array_equal(st[f + 'mag'] + z, st[f + 'mag']))
    e = r.uniform(0, .1)
    np.random.seed(seed)
    S.ensure('systematic offset', np.allclose(of.OffsetSys(error_sys=e)(st, None, dmags=prev), g * e))
    S.ensure('stars unchanged', np.array_equal(st, keep))
    S.ensure('offsets have different names', len({o.newkey for o in (of.NoOffset(), of.OffsetSys(), of.OffsetSNR())}) == 3)


# ---- the catalogue

def sky(S, n, nv):
    r = S.r
    st = np.zeros(n, dtype=[('id', int), ('ra', float), ('decl', float)] + [(b + 'mag', float) for b in 'gr'])
    vis = np.zeros(nv, dtype=[('ra', float), ('dec', float), ('rotSkyPos', float), ('fiveSigmaDepth', float), ('observationId', int)])
    c = r.choice([(0., 0.), (359.9, -30.), (r.uniform(0, 360), r.uniform(-85, 85))])
    for a, b in ((st, 'decl'), (vis, 'dec')):
        for i in range(len(a)):
            a[b][i] = max(-89.9, min(89.9, c[1] + r.uniform(-2.5, 2.5)))
            a['ra'][i] = (c[0] + r.uniform(-2.5, 2.5) / math.cos(math.radians(a[b][i]))) % 360
    st['id'] = r.sample(range(10**6), n)
    for b in 'gr':
        st[b + 'mag'] = [r.uniform(16, 24) for _ in range(n)]
    vis['rotSkyPos'] = [r.uniform(0, 360) for _ in range(nv)]
    vis['fiveSigmaDepth'] = [r.uniform(22, 25) for _ in range(nv)]
    vis['observationId'] = r.sample(range(1000), nv)
    return st, vis


def sep(ra, dec, v):
    a, b, a0, b0 = np.radians(ra), np.radians(dec), np.radians(v['ra']), np.radians(v['dec'])
    d = (np.cos(b) * np.cos(a) - np.cos(b0) * np.cos(a0)) ** 2 + (np.cos(b) * np.sin(a) - np.cos(b0) * np.sin(a0)) ** 2 + (np.sin(b) - np.sin(b0)) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(d) / 2))


@contract('C22', 'the catalogue of observed stars', [G + 'generate_catalog', G + 'build_tree', G + 'treexyz', T + 'assign_patches', T + 'stars_project'],
          bounded='KD-tree and record arrays of compiled libraries', trials=150)
def catalogue(S):
    r = S.r
    n, nv = r.randint(1, 40), r.randint(1, 5)
    st, vis = sky(S, n, nv)
    f = S.choice('filter', list('gr'))
    side = S.choice('side', [1, 2, 4])
    fov = S.choice('fov', [1.8, 1.0, 3.0])
    floor = r.choice([.005, 0., .1])
    seed = r.randrange(1000)
    for v in vis:
        S.assume(np.all(np.abs(sep(st['ra'], st['decl'], v) - fov) > 1e-6))
    st0, vis0 = st.copy(), vis.copy()

    class Own(of.BaseOffset):
        def __init__(self, key, a):
            self.newkey, self.a = key, a

        def __call__(self, stars, visit, dmags=None, **kw):
            return self.a * stars['id'] % 7 * .01 + visit['observationId'] * 1e-4

    own = [Own('own%d' % i, r.randint(1, 50)) for i in range(r.randint(1, 3))]
    offs = own + ([of.NoOffset()] if r.random() < .5 else [])
    cat = gc.generate_catalog(vis, st, offsets=offs, lsst_filter=f, n_patches=side * side, radius_fov=fov, seed=seed, uncert_floor=floor, verbose=False)
    S.draws.update(n=n, nv=nv, floor=floor)
    want = []
    for i, v in enumerate(vis):
        for s in st[sep(st['ra'], st['decl'], v) < fov]:
            m = s[f + 'mag'] + sum(o.a * s['id'] % 7 * .01 + v['observationId'] * 1e-4 for o in own)
            want.append((s['id'], i, m, math.hypot(2.5 * math.log10(1 + .2 * 10 ** (.4 * (m - v['fiveSigmaDepth']))), floor), s))
    S.ensure('each star in the field of each visit, once', len(cat) == len(want))
    got = sorted((int(c['id']), int(c['patch_id'] // side**2)) for c in cat)
    S.ensure('stars and visits', got == sorted((int(w[0]), int(vis['observationId'][w[1]])) for w in want))
    by = {(int(c['id']), int(c['patch_id'] // side**2)): c for c in cat}
    seen = {}
    for w in want:
        c = by[(int(w[0]), int(vis['observationId'][w[1]]))]
        S.ensure('observed magnitude with every offset', abs(c['observed_mag'] - w[2]) < 1e-9)
        S.ensure('uncertainty', abs(c['mag_uncert'] - w[3]) < 1e-9)
        S.ensure('true magnitude and position', c[f + 'mag'] == w[4][f + 'mag'] and c['ra'] == w[4]['ra'] and c['decl'] == w[4]['decl'])
        seen.setdefault(int(c['patch_id']), set()).add(w[1])
    S.ensure('a patch belongs to one visit', all(len(x) == 1 for x in seen.values()))
    S.ensure('stars and visits unchanged', np.array_equal(st, st0) and np.array_equal(vis, vis0))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S.ensure('nothing without offsets', gc.generate_catalog(vis, st, offsets=None, verbose=False) is None)
    a, b = (gc.generate_catalog(vis, st, offsets=[of.OffsetSNR(f)], lsst_filter=f, n_patches=side * side, radius_fov=fov, seed=seed, verbose=False) for _ in range(2))
    S.ensure('the same catalogue for the same seed', np.array_equal(a, b))


@contract('C22', 'positions out of range', [G + 'wrap_ra', G + 'cap_dec'])
def wrap(S):
    n = S.int('n', 0)
    ra, dec = S.arr('ra', n, lo=-800, hi=800), S.arr('dec', n, lo=-200, hi=200)
    a, d = gc.wrap_ra(ra), gc.cap_dec(dec)
    S.forall('longitude within the circle', n, lambda k: S.and_(a[k] >= 0, a[k] <= 360 if not S.symbolic else a[k] < 360))
    S.forall('same longitude', n, lambda k: S.eq((ra[k] - a[k]) / 360, S.floor((ra[k] - a[k]) / 360 + .5)))
    S.forall('latitude capped', n, lambda k: S.eq(d[k], S.ite(dec[k] > 90, 90, S.ite(dec[k] < -90, -90, dec[k]))))


@contract('C22', 'a tree needs radians', G + 'build_tree', bounded='KD-tree of a compiled library', trials=100)
def tree(S):
    r = S.r
    n = r.randint(1, 6)
    ra, dec = np.array([r.uniform(0, 6.28) for _ in range(n)]), np.array([r.uniform(-1.57, 1.57) for _ in range(n)])
    t = gc.build_tree(ra, dec, leafsize=r.choice([1, 100]))
    S.ensure('unit vectors', np.allclose(t.data, np.column_stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])))
    k = r.randrange(n)
    bad = (ra.copy(), dec.copy())
    bad[r.randrange(2)][k] = r.choice([-1, 1]) * r.uniform(6.3, 400)
    S.ensure('degrees are refused', S.raises(ValueError, lambda: gc.build_tree(*bad)))
    S.ensure('nothing is refused', S.raises(ValueError, lambda: gc.build_tree(ra[:0], dec[:0])))


# ---- the solver

def observations(S, n, np_, ns):
    r = S.r
    o = np.zeros(n, dtype=[('id', int), ('patch_id', int), ('observed_mag', float), ('mag_uncert', float), ('rmag', float)])
    P, N = r.sample(range(10**4), np_), r.sample(range(10**6), ns)
    o['id'] = [r.choice(N) for _ in range(n)]
    o['patch_id'] = [r.choice(P) for _ in range(n)]
    o['observed_mag'] = [r.uniform(15, 25) for _ in range(n)]
    o['mag_uncert'] = [r.uniform(.005, .2) for _ in range(n)]
    o['rmag'] = np.arange(n)
    return o


def core(o):
    """the largest set of observations in which every star and every patch occurs more than once"""
    o = o.copy()
    while True:
        keep = np.array([np.sum(o['id'] == x['id']) > 1 and np.sum(o['patch_id'] == x['patch_id']) > 1 for x in o], bool)
        if keep.all():
            return o
        o = o[keep]


@contract('C22', 'observations used in the solution', L + 'clean_data', bounded='repeated removal until nothing changes', trials=300)
def clean(S):
    r = S.r
    n = r.randint(2, 30)
    o = observations(S, n, r.randint(1, 8), r.randint(1, 8))
    want = core(o)
    s = so.LsqrSolver(o.copy())
    S.draws.update(obs=o.tolist())
    s.clean_data()
    got = np.sort(s.observations, order='rmag')
    want = np.sort(want, order='rmag')
    S.ensure('exactly those whose star and patch are seen again', np.array_equal(got['rmag'], want['rmag']))
    S.ensure('stars and patches by number', np.array_equal(s.stars, np.unique(want['id'])) and np.array_equal(s.patches, np.unique(want['patch_id']))
             and s.n_stars == len(s.stars) and s.n_patches == len(s.patches))
    S.ensure('renumbered', len(want) == 0 or (np.array_equal(s.stars[got['id'] - 1], want['id']) and np.array_equal(s.patches[got['patch_id']], want['patch_id'])))
    S.ensure('measurements unchanged', np.array_equal(got['observed_mag'], want['observed_mag']) and np.array_equal(got['mag_uncert'], want['mag_uncert']))


class Matrix:
    def __init__(self, args, shape=None):
        self.data, (self.row, self.col) = args
        self.shape = shape

    def tocsr(self):
        return self


def lsq(A, b, **kw):
    return [(A, b, kw)]


@contract('C22', 'equations of the fit', L + 'solve_matrix', stubs={'rubin_sim.selfcal.solver:coo_matrix': Matrix, 'rubin_sim.selfcal.solver:lsqr': lsq},
          assumes=['scipy: coo_matrix and lsqr, given the equations checked here, return their least-squares solution'])
def equations(S):
    if not S.symbolic:
        return fit(S)
    n = S.int('n', 1)
    P, N = S.int('P', 1), S.int('N', 1)
    pid, sid = S.arr('pid', n, 'i', lo=0, hi=P - 1), S.arr('sid', n, 'i', lo=1, hi=N)
    j = S.int('last', 0, n - 1)
    S.assume(S.eq(pid[j], P - 1))
    mag, err = S.arr('mag', n, lo=10, hi=30), S.arr('err', n, lo=0, lo_open=True, hi=2)
    s = so.LsqrSolver(S.table(patch_id=pid, id=sid, observed_mag=mag, mag_uncert=err), atol=1e-9, btol=1e-7)
    s.n_patches, s.n_stars = P, N
    s.solve_matrix()
    A, b, kw = s.solution[0]
    S.ensure('one equation per observation, one unknown per patch and star', S.and_(S.eq(A.shape[0], n), S.eq(A.shape[1], P + N), S.eq(S.size(b), n)))
    S.ensure('two entries for each', S.and_(S.eq(S.size(A.data), 2 * n), S.eq(S.size(A.row), 2 * n), S.eq(S.size(A.col), 2 * n)))
    S.forall('weighted magnitude', n, lambda k: S.eq(b[k] * err[k], mag[k]))
    S.forall('zeropoint of the patch', n, lambda k: S.and_(S.eq(A.row[k], k), S.eq(A.col[k], pid[k]), S.eq(A.data[k] * err[k], 1)))
    S.forall('magnitude of the star', n, lambda k: S.and_(S.eq(A.row[k + n], k), S.eq(A.col[k + n], P + sid[k] - 1), S.eq(A.data[k + n] * err[k], 1)))
    S.ensure('tolerances as asked', kw['atol'] == 1e-9 and kw['btol'] == 1e-7)


def fit(S):
    r = S.r
    o = observations(S, r.randint(6, 40), r.randint(1, 5), r.randint(1, 6))
    truth = r.random() < .5
    zp, mg = {p: r.uniform(-1, 1) for p in o['patch_id']}, {i: r.uniform(16, 24) for i in o['id']}
    if truth:
        o['observed_mag'] = [zp[x['patch_id']] + mg[x['id']] for x in o]
    use = core(o)
    S.assume(len(use) > 0)
    s = so.LsqrSolver(o.copy(), atol=1e-12, btol=1e-12, iter_lim=3000)
    S.draws.update(obs=o.tolist())
    s.run()
    p, q = s.return_solution()
    S.ensure('every patch and star of the solution', np.array_equal(p['patch_id'], np.unique(use['patch_id'])) and np.array_equal(q['id'], np.unique(use['id'])))
    pz, qm = dict(zip(p['patch_id'].tolist(), p['zp'])), dict(zip(q['id'].tolist(), q['fit_mag']))
    res = np.array([(pz[x['patch_id']] + qm[x['id']] - x['observed_mag']) / x['mag_uncert'] for x in use])
    if truth:
        S.ensure('consistent magnitudes are reproduced', np.all(np.abs(res) < 1e-4))
    for col in ('patch_id', 'id'):
        for v in np.unique(use[col]):
            i = use[col] == v
            S.ensure('weighted residuals balance', abs(np.sum(res[i] / use['mag_uncert'][i])) < 1e-4 * np.sum(1 / use['mag_uncert'][i]) * (1 + np.max(np.abs(res))))


@contract('C22', 'the fitted zeropoints and magnitudes', L + 'return_solution')
def solution(S):
    P, N = S.int('P', 0), S.int('N', 0)
    s = so.LsqrSolver(None)
    s.patches, s.stars = S.arr('patches', P, 'i', order='strict', lo=0), S.arr('stars', N, 'i', order='strict', lo=0)
    s.n_patches, s.n_stars = P, N
    x = S.arr('x', P + N, lo=-30, hi=30)
    s.solution = [x]
    p, q = s.return_solution()
    S.ensure('sizes', S.and_(S.eq(S.size(p), P), S.eq(S.size(q), N)))
    S.forall('zeropoint of each patch', P, lambda k: S.and_(S.eq(p['patch_id'][k], s.patches[k]), S.eq(p['zp'][k], x[k])))
    S.forall('magnitude of each star', N, lambda k: S.and_(S.eq(q['id'][k], s.stars[k]), S.eq(q['fit_mag'][k], x[P + k])))


# ---- matching the fit to the input stars

@contract('C22', 'matching of identifiers', U + '_match', bounded='search in a sorted permutation', trials=300)
def match(S):
    r = S.r
    n, m = r.randint(1, 12), r.randint(1, 12)
    a, b = np.array(r.sample(range(20), n)), np.array(r.sample(range(20), m))
    i, j = su._match(a, b)
    S.draws.update(a=a.tolist(), b=b.tolist())
    S.ensure('same identifier', np.array_equal(a[i], b[j]))
    S.ensure('every shared identifier once', sorted(a[i].tolist()) == sorted(set(a.tolist()) & set(b.tolist())))


@contract('C22', 'uniformity of the calibration', [U + 'PhotometricSelfCalUniformityMetric.run'] + [U + 'PhotometricSelfCalUniformityMetric.reduce_' + k for k in ('scatter_full', 'scatter_highglat', 'outlier_frac_full', 'outlier_frac_highglat')],
          bounded='whole chain of catalogue, fit and map', trials=12)
def uniformity(S):
    import contextlib
    import io
    import healpy as hp
    from astropy.coordinates import SkyCoord
    r = S.r
    c = r.choice([(150., -10.), (200., -40.)])
    n, nv = 120, 14
    st = np.zeros(n, dtype=[('id', int), ('ra', float), ('dec', float), ('decl', float), ('rmag', float), ('gmag', float)])
    st['id'] = r.sample(range(10**6), n)
    st['dec'] = [c[1] + r.uniform(-3, 3) for _ in range(n)]
    st['decl'] = st['dec']
    st['ra'] = [c[0] + r.uniform(-3, 3) for _ in range(n)]
    for b in 'rg':
        st[b + 'mag'] = [r.choice([np.nan, 0, 0, 0, 0]) + r.uniform(16, 20) for _ in range(n)]
    t = np.zeros(nv, dtype=[('observationId', int), ('fieldRA', float), ('fieldDec', float), ('fiveSigmaDepth', float), ('rotSkyPos', float)])
    t['observationId'] = r.sample(range(1000), nv)
    t['fieldRA'] = [c[0] + r.uniform(-1.5, 1.5) for _ in range(nv)]
    t['fieldDec'] = [c[1] + r.uniform(-1.5, 1.5) for _ in range(nv)]
    t['fiveSigmaDepth'] = 24.
    t['rotSkyPos'] = [r.uniform(0, 360) for _ in range(nv)]
    m = su.PhotometricSelfCalUniformityMetric.__new__(su.PhotometricSelfCalUniformityMetric)
    f = S.choice('filter', ['r', 'g'])
    m.stars, m.nside_residual, m.highglat_cut, m.outlier_nsig, m.filter_name = st, 64, r.choice([30., 45.]), r.choice([1., 4.]), f
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = m.run(t)
    # the same stars, fit with the same noise
    good = st[np.isfinite(st[f + 'mag'])]
    vis = np.zeros(nv, dtype=[('observationId', int), ('ra', float), ('dec', float), ('fiveSigmaDepth', float), ('rotSkyPos', float)])
    for a, b in (('observationId', 'observationId'), ('ra', 'fieldRA'), ('dec', 'fieldDec'), ('fiveSigmaDepth', 'fiveSigmaDepth'), ('rotSkyPos', 'rotSkyPos')):
        vis[a] = t[b]
    cat = gc.generate_catalog(vis, good, offsets=[of.OffsetSys(error_sys=.03), of.OffsetSNR(lsst_filter=f)], lsst_filter=f, n_patches=16, verbose=False)
    s = so.LsqrSolver(cat)
    s.run()
    fs = s.return_solution()[1]
    true = {x['id']: x for x in good}
    res = {i: true[i][f + 'mag'] - x for i, x in zip(fs['id'].tolist(), fs['fit_mag'])}
    med = np.median(list(res.values()))
    pix = {}
    for i, x in res.items():
        pix.setdefault(int(hp.ang2pix(64, true[i]['ra'], true[i]['dec'], lonlat=True)), []).append(x - med)
    want = np.full(hp.nside2npix(64), hp.UNSEEN)
    for k, x in pix.items():
        want[k] = np.median(x)
    S.draws.update(stars=len(res))
    S.ensure('map of the median residuals', np.allclose(v['uniformity_map'], want, atol=1e-6))
    ok = np.array(sorted(pix))
    x = want[ok]
    b = SkyCoord(*hp.pix2ang(64, ok, lonlat=True), unit='deg').galactic.b.value
    for nm, w in (('full', x), ('highglat', x[np.abs(b) > m.highglat_cut])):
        mad = np.median(np.abs(w - np.median(w))) * 1.482602218505602 if len(w) else np.nan
        S.ensure('scatter ' + nm, np.isclose(v['scatter_' + nm], mad * 1000, rtol=1e-5, equal_nan=True))
        S.ensure('reduced ' + nm, np.isclose(getattr(m, 'reduce_scatter_' + nm)(v), v['scatter_' + nm], equal_nan=True) and getattr(m, 'reduce_outlier_frac_' + nm)(v) == v['outlier_frac_' + nm])
        S.ensure('outliers ' + nm, abs(v['outlier_frac_' + nm] * len(ok) - np.sum(np.abs(w) > m.outlier_nsig * mad)) < .01)
