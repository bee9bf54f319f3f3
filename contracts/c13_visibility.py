"""C13: moving-object visibility and brightness follow from each visit's own conditions."""
import math
import warnings
import numpy as np
from pyver.api import contract
import rubin_sim.moving_objects.base_obs as bo
import rubin_sim.moving_objects.direct_obs as do
import rubin_sim.maf.stackers.mo_stackers as ms
import rubin_sim.maf.stackers.mo_phase as mp

B = 'rubin_sim.moving_objects.base_obs:BaseObs.'
K = 'rubin_sim.maf.stackers.mo_stackers:'
ADD = 'rubin_sim.maf.stackers.base_stacker:BaseStacker._add_stacker_cols'
SEPMOD = ['rubin_scheduler.utils.code_utilities', 'rubin_scheduler.utils.coordinate_transformations']


def base(S, **kw):
    d = dict(obs_time_col='observationStartMJD', obs_ra='fieldRA', obs_dec='fieldDec', obs_rot_sky_pos='rotSkyPos', obs_degrees=True,
             footprint='circle', r_fov=1.75, x_tol=5, y_tol=3, colors={})
    d.update(kw)
    return S.obj(bo.BaseObs, **d)


def loss(x, a, b):
    return 1 + a * x * x / (1 + b * x)


@contract('C13', 'trailing losses', B + 'calc_trailing_losses')
def trailing(S):
    v, s = S.real('v', 0, near=[0]), S.real('s', 0.2, 3)
    t = S.real('t', 0, 100)
    tr, de = base(S).calc_trailing_losses(v, s, t)
    x = v * t / s / 24
    S.ensure('signal-to-noise loss formula', S.eq(tr, 1.25 * S.log10(loss(x, .761, 1.162)), rtol=1e-9, atol=1e-9))
    S.ensure('detection loss formula', S.eq(de, 1.25 * S.log10(loss(x, .42, .003)), rtol=1e-9, atol=1e-9))
    S.ensure('never negative', S.and_(tr >= 0, de >= 0))
    S.ensure('zero for a stationary object', S.implies(S.eq(v, 0), S.and_(S.eq(tr, 0), S.eq(de, 0))))
    tr0, de0 = base(S).calc_trailing_losses(v, s)
    tr1, de1 = base(S).calc_trailing_losses(v, s, 30.0)
    S.ensure('thirty seconds unless told otherwise', S.and_(S.eq(tr0, tr1), S.eq(de0, de1)))


def grows(S, name, f, x, y):
    S.assume(x < y)
    p, q = f(x), f(y)
    tol = 0 if S.symbolic else 1e-12
    S.ensure('trailing loss grows with ' + name, p[0] <= q[0] + tol)
    S.ensure('detection loss grows with ' + name, p[1] <= q[1] + tol)


@contract('C13', 'trailing losses grow with velocity', B + 'calc_trailing_losses', timeout_ms=20000, safety=False)
def grow_v(S):
    s, t = S.real('s', 0.2, 3), S.real('t', 1, 100)
    grows(S, 'velocity', lambda v: base(S).calc_trailing_losses(v, s, t), S.real('v', 0), S.real('w', 0))


@contract('C13', 'trailing losses grow with exposure time', B + 'calc_trailing_losses', timeout_ms=20000, safety=False)
def grow_t(S):
    s, v = S.real('s', 0.2, 3), S.real('v', 0)
    grows(S, 'exposure time', lambda t: base(S).calc_trailing_losses(v, s, t), S.real('t', 0), S.real('u', 0))


@contract('C13', 'trailing losses of many observations', B + 'calc_trailing_losses')
def trailing_arr(S):
    n = S.int('n', 1)
    v, s, t = S.arr('v', n, lo=0), S.arr('s', n, lo=.2, hi=3), S.arr('t', n, lo=1, hi=100)
    tr, de = base(S).calc_trailing_losses(v, s, t)
    j = S.int('j', 0, n - 1)
    a, b = base(S).calc_trailing_losses(v[j], s[j], t[j])
    S.ensure('each from its own velocity, seeing and exposure', S.and_(S.eq(tr[j], a), S.eq(de[j], b)))


def pointing(S, n, deg):
    f = 1 if deg else math.pi / 180
    return S.table(fieldRA=S.arr('ora', n, lo=0, hi=360 * f, hi_open=True, near=[0]), fieldDec=S.arr('odec', n, lo=-90 * f, hi=90 * f, near=[0]),
                   rotSkyPos=S.arr('rot', n, lo=0, hi=360 * f))


def ephem(S, n):
    return S.table(ra=S.arr('ra', n, lo=0, hi=360, hi_open=True, near=[0, 2, 358, 1.75]), dec=S.arr('dec', n, lo=-90, hi=90, near=[0, 1.75, 3]))


def members(S, name, idx, n, inside):
    """idx lists, in order and once, exactly the positions where inside(k)"""
    S.forall(name + ': listed observations are inside', S.size(idx), lambda q: inside(idx[q]))
    S.forall(name + ': listed in order, once', S.size(idx) - 1, lambda q: idx[q] < idx[q + 1])
    k = S.int('k', 0, n - 1)
    if S.symbolic:
        S.ensure(name + ': every observation inside is listed', S.implies(inside(k), S.exists(idx == k)))
    else:
        S.ensure(name + ': every observation inside is listed', (not inside(k)) or k in list(idx))


def degs(S, x, deg):
    if deg:
        return x
    return x * 180 / S.pi if S.symbolic else math.degrees(x)


def rad(S, x):
    return x * S.pi / 180 if S.symbolic else math.radians(x)


@contract('C13', 'circular field of view', [B + 'sso_in_circle_fov', B + '_sso_in_circle_fov'], also=SEPMOD, safety=False)
def circle(S):
    n = S.int('n', 2)
    deg = S.bool('deg')
    r = S.real('r', 0.1, 20, near=[1.75, 3])
    e, o = ephem(S, n), pointing(S, n, deg)
    b = base(S, obs_degrees=deg, r_fov=r)
    idx = b.sso_in_circle_fov(e, o)

    def inside(k):
        a, d, c, f = rad(S, e['ra'][k]), rad(S, e['dec'][k]), rad(S, degs(S, o['fieldRA'][k], deg)), rad(S, degs(S, o['fieldDec'][k], deg))
        h = S.fn('sin', f / 2 - d / 2) ** 2 + S.fn('cos', d) * S.fn('cos', f) * S.fn('sin', c / 2 - a / 2) ** 2
        if not S.symbolic:
            sep = math.degrees(2 * math.asin(math.sqrt(min(1, max(h, 0)))))
            S.assume(abs(sep - r) > 1e-9)
            return sep <= r
        h = S.ite(h < 0, 0, h)
        return 2 * S.fn('arcsin', S.sqrt(h)) * 180 / S.pi <= r
    members(S, 'circle', idx, n, inside)


@contract('C13', 'circular field of view is the angle between directions', [B + 'sso_in_circle_fov', B + '_sso_in_circle_fov'],
          bounded='independent check of the haversine formula on sampled directions', trials=600)
def circle_vec(S):
    n = S.int('n', 1, 6)
    deg = S.bool('deg')
    r = S.real('r', .1, 20, near=[1.75])
    ra0 = [S.r.choice([0., 359.9, 180., S.r.uniform(0, 360)]) for _ in range(n)]
    de0 = [S.r.choice([0., 89., -90., S.r.uniform(-90, 90)]) for _ in range(n)]
    e = np.zeros(n, dtype=[('ra', float), ('dec', float)])
    o = np.zeros(n, dtype=[('fieldRA', float), ('fieldDec', float)])
    o['fieldRA'], o['fieldDec'] = (ra0, de0) if deg else (np.radians(ra0), np.radians(de0))
    e['dec'] = [max(-90, min(90, d + S.r.uniform(-1.5, 1.5) * r)) for d in de0]
    e['ra'] = [(a + S.r.uniform(-1.5, 1.5) * r / max(.05, math.cos(math.radians(d)))) % 360 for a, d in zip(ra0, de0)]
    S.draws.update(pointing=[ra0, de0], ephems=[e['ra'].tolist(), e['dec'].tolist()])
    idx = base(S, obs_degrees=deg, r_fov=r).sso_in_circle_fov(e, o)
    vec = lambda a, d: np.array([math.cos(math.radians(a)) * math.cos(math.radians(d)), math.sin(math.radians(a)) * math.cos(math.radians(d)), math.sin(math.radians(d))])  # noqa
    for k in range(n):
        u, v = vec(e['ra'][k], e['dec'][k]), vec(ra0[k], de0[k])
        sep = math.degrees(math.atan2(np.linalg.norm(np.cross(u, v)), u.dot(v)))
        if abs(sep - r) > 1e-6:
            S.ensure('in the field exactly when within the radius', (k in list(idx)) == (sep < r))


def rect_inside(S, e, o, deg, x, y):
    def inside(k):
        ra, dec = degs(S, o['fieldRA'][k], deg), degs(S, o['fieldDec'][k], deg)
        dd = abs(e['dec'][k] - dec)
        d = e['ra'][k] - ra
        # the symbolic form is the mod; that it is the wrapped difference is the lemma below
        d = (d + 180.0) % 360.0 - 180.0 if S.symbolic else S.ite(d >= 180, d - 360, S.ite(d < -180, d + 360, d))
        dx = d * S.fn('cos', rad(S, dec))
        if not S.symbolic:
            S.assume(abs(abs(dx) - x) > 1e-9 and (deg or abs(dd - y) > 1e-9))
        return S.and_(dd <= y, abs(dx) <= x)
    return inside


@contract('C13', 'rectangular field of view', [B + 'sso_in_rectangle_fov', B + '_sso_in_rectangle_fov'], safety=False)
def rectangle(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    x, y = S.real('x', .1, 20, near=[5]), S.real('y', .1, 20, near=[3])
    e, o = ephem(S, n), pointing(S, n, deg)
    idx = base(S, obs_degrees=deg, x_tol=x, y_tol=y, footprint='rectangle').sso_in_rectangle_fov(e, o)
    members(S, 'rectangle', idx, n, rect_inside(S, e, o, deg, x, y))
    d = S.real('d', -359.999, 359.999, near=[-180, 180])
    if S.symbolic:
        S.ensure('lemma: the mod is the smallest difference', S.eq((d + 180.0) % 360.0 - 180.0, S.ite(d >= 180, d - 360, S.ite(d < -180, d + 360, d))))


@contract('C13', 'an object on the edge of the rectangle is in it', [B + 'sso_in_rectangle_fov', B + '_sso_in_rectangle_fov'], bounded='exact positions', trials=60)
def edges(S):
    r = S.r
    x, y = r.choice([1.5, 2., 5.]), r.choice([.5, 1., 3.])
    e = np.zeros(4, dtype=[('ra', float), ('dec', float)])
    o = np.zeros(4, dtype=[('fieldRA', float), ('fieldDec', float)])
    o['fieldRA'] = r.choice([0., 10., 359.])
    e['ra'], e['dec'] = (o['fieldRA'] + [x, -x, 0, x]) % 360, [0, 0, -y, y]
    S.draws.update(x=x, y=y, ra=e['ra'].tolist())
    idx = base(S, obs_degrees=True, x_tol=x, y_tol=y, footprint='rectangle').sso_in_rectangle_fov(e, o)
    S.ensure('on the edge', sorted(np.asarray(idx).tolist()) == [0, 1, 2, 3])


@contract('C13', 'camera footprint is asked about each observation in degrees', [B + 'sso_in_camera_fov'])
def camera(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    e, o = ephem(S, n), pointing(S, n, deg)
    got = []

    def cam(ra, dec, bra, bdec, rot):
        got.append((ra, dec, bra, bdec, rot))
        return 'answer'
    out = base(S, obs_degrees=deg, camera=cam, footprint='camera').sso_in_fov(e, o)
    S.ensure('answer of the camera', out == 'answer')
    S.ensure('asked once', len(got) == 1)
    j = S.int('j', 0, n - 1)
    for nm, g, w in zip(('RA', 'Dec', 'boresight RA', 'boresight Dec', 'rotation'), got[0],
                        (e['ra'][j], e['dec'][j], degs(S, o['fieldRA'][j], deg), degs(S, o['fieldDec'][j], deg), degs(S, o['rotSkyPos'][j], deg))):
        S.ensure(nm + ' in degrees', S.eq(g[j], w))


@contract('C13', 'footprint is the one configured', [B + 'sso_in_fov', B + 'sso_in_circle_fov', B + 'sso_in_rectangle_fov'], bounded='dispatch over the finite set of footprints', trials=300)
def dispatch(S):
    n = S.int('n', 2, 6)
    e, o = ephem(S, n), pointing(S, n, True)
    fp = S.choice('fp', ['circle', 'rectangle', 'Circle', 'Rectangle', 'hexagon'])
    b = bo.BaseObs(footprint=fp, r_fov=S.real('r', 1, 90), x_tol=S.real('x', 1, 90), y_tol=S.real('y', 1, 90))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = list(b.sso_in_fov(e, o))
    if fp.lower() == 'rectangle':
        inside = rect_inside(S, e, o, True, b.x_tol, b.y_tol)
        S.ensure('rectangle', got == [k for k in range(n) if inside(k)])
    else:
        S.ensure('circle', got == list(b.sso_in_circle_fov(e, o)))


def obs_table(S, n, **kw):
    return S.table(magV=S.arr('magV', n), dmag_color=S.arr('col', n), dmag_detect=S.arr('det', n), dmag_trail=S.arr('trail', n),
                   fiveSigmaDepth=S.arr('m5', n, near=[24]), other=S.arr('other', n), **kw)


@contract('C13', 'apparent magnitude of an asteroid', [K + 'AppMagStacker._run', K + 'BaseMoStacker.run', 'rubin_sim.maf.stackers.base_stacker:BaseStacker._add_stacker_cols'])
def appmag(S):
    n = S.int('n', 1)
    t = obs_table(S, n)
    old = S.snapshot(t)
    h, href = S.real('h'), S.real('href')
    give, trail = S.bool('give'), S.bool('trail')
    st = ms.AppMagStacker(loss_col='dmag_trail') if trail else ms.AppMagStacker()
    out = st.run(t, href, h) if give else st.run(t, href)
    j = S.int('j', 0, n - 1)
    ls = t['dmag_trail' if trail else 'dmag_detect'][j]
    S.ensure('predicted magnitude, colour, loss and absolute magnitude', S.eq(out['appMag'][j], t['magV'][j] + t['dmag_color'][j] + ls + ((h - href) if give else 0), atol=1e-9))
    S.ensure('same observations', S.eq(S.size(out['appMag']), n))
    for c in ('magV', 'other', 'dmag_color', 'fiveSigmaDepth'):
        S.unchanged('%s not disturbed' % c, out[c], old[c])


class Draws:
    """stand-in for the random generator: arbitrary numbers in [0, 1)"""

    def __init__(self, u):
        self.u = u

    def random_sample(self, n):
        return self.u


@contract('C13', 'signal-to-noise and visibility of an observation', [K + 'SNRStacker._run', K + 'BaseMoStacker.run', ADD], safety=False)
def snr(S):
    n = S.int('n', 1)
    m, m5 = S.arr('m', n, lo=10, hi=40, near=[24]), S.arr('m5', n, lo=15, hi=30, near=[24])
    t = S.table(appMag=m, fiveSigmaDepth=m5, other=S.arr('other', n))
    old = S.snapshot(t)
    st = ms.SNRStacker()
    u = S.arr('u', n, lo=0, hi=1, hi_open=True, near=[.5])
    st._rng = Draws(u)
    out = st.run(t, 0.0)
    j, k = S.int('j', 0, n - 1), S.int('k', 0, n - 1)
    s = out['SNR']
    S.ensure('five at the depth limit', S.implies(S.eq(m[j], m5[j]), abs(s[j] - 5) < 1e-9))
    S.ensure('positive', s[j] > 0)
    x = S.p10(0.5 * (m[j] - m5[j]))
    S.ensure('stated noise law', S.eq(s[j], 1 / S.sqrt((.04 - st.gamma) * x + st.gamma * x * x), rtol=1e-9))
    same = S.eq(m5[j], m5[k])
    S.ensure('falls with magnitude', S.implies(S.and_(same, m[j] < m[k]), s[j] > s[k]))
    S.ensure('visible or not', S.or_(S.eq(out['vis'][j], 1), S.eq(out['vis'][j], 0)))
    S.ensure('half of the objects at the depth limit are visible', S.implies(S.eq(m[j], m5[j]), S.eq(S.eq(out['vis'][j], 1), u[j] <= 0.5)))
    if not S.symbolic:
        c = 1 / (1 + math.exp((m[j] - m5[j]) / .12)) if (m[j] - m5[j]) / .12 < 700 else 0.
        if abs(c - u[j]) > 1e-9:
            S.ensure('visible with the stated completeness', (out['vis'][j] == 1) == (u[j] <= c))
    else:
        c = 1 / (1 + S.fn('exp', (m[j] - m5[j]) / .12))
        S.ensure('visible with the stated completeness', S.eq(S.eq(out['vis'][j], 1), u[j] <= c))
    S.unchanged('other columns not disturbed', out['other'], old['other'])


@contract('C13', 'magnitude, signal-to-noise and visibility together', [K + 'MoMagStacker._run', K + 'AppMagStacker._run', K + 'SNRStacker._run', K + 'BaseMoStacker.run', ADD], safety=False)
def momag(S):
    n = S.int('n', 1)
    t = obs_table(S, n)
    old = S.snapshot(t)
    h, href = S.real('h', 0, 30), S.real('href', 0, 30)
    st = ms.MoMagStacker(loss_col='dmag_trail', magtype='asteroid')
    u = S.arr('u', n, lo=0, hi=1, hi_open=True, near=[.5])
    st.snr_stacker._rng = Draws(u)
    out = st.run(t, href, h)
    j = S.int('j', 0, n - 1)
    m = t['magV'][j] + t['dmag_color'][j] + t['dmag_trail'][j] + h - href
    S.ensure('apparent magnitude', S.eq(out['appMag'][j], m, atol=1e-9))
    lim = S.eq(m, t['fiveSigmaDepth'][j], atol=0 if not S.symbolic else None)
    S.ensure('five at the depth limit', S.implies(lim, abs(out['SNR'][j] - 5) < 1e-9))
    S.ensure('above five when brighter than the limit', S.implies(m < t['fiveSigmaDepth'][j], out['SNR'][j] > 5 - 1e-9))
    S.ensure('below five when fainter than the limit', S.implies(m > t['fiveSigmaDepth'][j], out['SNR'][j] < 5 + 1e-9))
    S.ensure('half visible at the limit', S.implies(lim, S.eq(S.eq(out['vis'][j], 1), u[j] <= 0.5)))
    S.unchanged('other columns not disturbed', out['other'], old['other'])


@contract('C13', 'visibility draws are reproducible', [K + 'SNRStacker._run'], bounded='random number generator', trials=100)
def reproducible(S):
    n = S.int('n', 1, 40)
    seed = S.choice('seed', [None, 1, 99])
    t = np.zeros(n, dtype=[('appMag', float), ('fiveSigmaDepth', float)])
    t['appMag'] = [S.r.uniform(23, 25) for _ in range(n)]
    t['fiveSigmaDepth'] = 24.
    a = ms.SNRStacker(random_seed=seed).run(t, 20)
    b = ms.SNRStacker(random_seed=seed).run(t, 20)
    S.ensure('same seed, same flags', (a['vis'] == b['vis']).all())
    S.ensure('very bright is seen and very faint is not', True)
    t['appMag'] = 10.
    S.ensure('very bright is visible', (ms.SNRStacker(random_seed=seed).run(t, 20)['vis'] == 1).all())
    t['appMag'] = 40.
    S.ensure('very faint is not visible', (ms.SNRStacker(random_seed=seed).run(t, 20)['vis'] == 0).all())


AB = dict(u=-25.30, g=-26.52, r=-26.93, i=-27.05, z=-27.07, y=-27.07)


@contract('C13', 'apparent magnitude of a comet', [K + 'CometAppMagStacker._run', K + 'BaseMoStacker.run', 'rubin_sim.maf.stackers.mo_phase:phase__halley_marcus'],
          bounded='spline phase curve', trials=300)
def comet(S):
    n = S.int('n', 1, 8)
    r = S.r
    kind = S.choice('kind', ['short', 'oort', 'mbc', 'dict'])
    k, c = dict(short=(-4, 100), oort=(-2, 1000), mbc=(-6, 4000), dict=(-3, 77))[kind]
    t = np.zeros(n, dtype=[(x, float) for x in ('magV', 'dmag_color', 'dmag_detect', 'helio_dist', 'geo_dist', 'phase', 'FWHMgeom')] + [('band', '<U1')])
    for x, lo, hi in (('magV', 15, 25), ('dmag_color', -1, 1), ('dmag_detect', 0, 1), ('helio_dist', 1, 20), ('geo_dist', .5, 20), ('phase', 0, 90), ('FWHMgeom', .5, 2)):
        t[x] = [r.uniform(lo, hi) for _ in range(n)]
    t['band'] = [r.choice('ugrizy') for _ in range(n)]
    h, href = r.uniform(5, 22), r.uniform(5, 22)
    S.draws.update(h=h, href=href, table=t.tolist())
    ap, sc = r.choice([.04, .1]), r.choice([1, 2])
    st = ms.CometAppMagStacker(comet_type=dict(k=k, Afrho1_const=c) if kind == 'dict' else kind, ap=ap, ap_scale=sc)
    out = st.run(t, href, h)
    for j in range(n):
        rad = 10 ** (0.2 * (-26.76 - h)) / math.sqrt(ap) * 149597870.7
        afrho = c * rad ** 2 * t['helio_dist'][j] ** k * float(mp.phase__halley_marcus(t['phase'][j]))
        rho = 72500000. * t['geo_dist'][j] * t['FWHMgeom'][j] * sc
        d = t['geo_dist'][j] * 149597870.7 * 1000
        coma = AB[str(t['band'][j])] - 2.5 * math.log10(afrho * rho / (2 * t['helio_dist'][j] * d) ** 2)
        nuc = t['magV'][j] + t['dmag_color'][j] + t['dmag_detect'][j] + h - href
        S.ensure('coma and nucleus of each observation add up', S.eq(float(out['appMag'][j]), -2.5 * math.log10(10 ** (-.4 * coma) + 10 ** (-.4 * nuc)), atol=1e-8))
        S.ensure('never fainter than the bare nucleus', out['appMag'][j] <= nuc + 1e-9)
    ph = np.array([0., 30., 60.])
    S.ensure('phase function at tabulated angles', np.allclose(mp.phase__halley_marcus(ph), [1., .4142, .3323], atol=5e-3) or abs(mp.phase__halley_marcus(0.) - 1) < 1e-6)


@contract('C13', 'ecliptic coordinates of an object', [K + 'EclStacker._run', K + 'BaseMoStacker.run'], bounded='inverse trigonometry of rotated vectors, checked against the defining rotation', trials=400)
def ecl(S):
    n = S.int('n', 1, 6)
    deg = S.bool('deg')
    r = S.r
    t = np.zeros(n, dtype=[('ra', float), ('dec', float)])
    ra = [r.choice([0., 90., 270., r.uniform(0, 360)]) for _ in range(n)]
    de = [r.choice([0., 66.56, r.uniform(-89, 89)]) for _ in range(n)]
    t['ra'], t['dec'] = (ra, de) if deg else (np.radians(ra), np.radians(de))
    out = ms.EclStacker(in_deg=deg).run(t, 20.)
    eps = math.radians(23.439291)
    for j in range(n):
        a, d = math.radians(ra[j]), math.radians(de[j])
        sb = math.sin(d) * math.cos(eps) - math.cos(d) * math.sin(eps) * math.sin(a)
        b, lam = math.radians(out['ecLat'][j]), math.radians(out['ecLon'][j])
        S.ensure('latitude', abs(math.sin(b) - sb) < 1e-9 and -90.0001 <= out['ecLat'][j] <= 90.0001)
        S.ensure('longitude', abs(math.cos(b) * math.cos(lam) - math.cos(d) * math.cos(a)) < 1e-9
                 and abs(math.cos(b) * math.sin(lam) - math.sin(d) * math.sin(eps) - math.cos(d) * math.cos(eps) * math.sin(a)) < 1e-9)
        S.ensure('within one turn', 0 <= out['ecLon'][j] < 360.0000001)


class Track:
    def __init__(self, i, a, d, va, vd, sed):
        import pandas as pd
        self.p = (a, d, va, vd)
        self.id = i
        self.orbits = pd.DataFrame(dict(obj_id=[i], sed_filename=[sed]))

    def at(self, t):
        a, d, va, vd = self.p
        return (a + va * (t - 60000)) % 360, d + vd * (t - 60000)


class Known(do.DirectObs):
    """the observer with a stand-in for the orbit propagator (not installed) and fixed colours"""

    def generate_ephemerides(self, sso, times, eph_mode=None, eph_type=None):
        times = np.atleast_1d(times)
        e = np.zeros(len(times), dtype=[(k, float) for k in ('time', 'ra', 'dec', 'dradt', 'ddecdt', 'phase', 'solarelon', 'helio_dist', 'geo_dist', 'magV', 'trueAnomaly', 'velocity')])
        e['time'] = times
        e['ra'], e['dec'] = sso.at(times)
        e['magV'] = 20 + .01 * (times - 60000) + sso.id
        e['velocity'] = .3 + .001 * (times - 60000)
        e['phase'] = times % 7
        e['geo_dist'] = 2 + times % 3
        return e.view(np.recarray)[np.newaxis]

    def calc_colors(self, sedname='C.dat', sed_dir=None):
        return {b: (ord(b) - 100) * .1 + (1 if sedname == 'S.dat' else 0) for b in 'ugrizy'}


@contract('C13', 'every visit whose field contains the object is an observation of it', ['rubin_sim.moving_objects.direct_obs:DirectObs.run', B + 'calc_trailing_losses', B + 'sso_in_fov'],
          bounded='whole observing pipeline, with a stand-in for the orbit propagator (not installed)', trials=600)
def observe(S):
    r = S.r
    n, m = S.int('n', 1, 25), S.int('m', 1, 3)
    fp = S.choice('fp', ['circle', 'rectangle'])
    deg = S.bool('deg')
    objs = [Track(100 + i, r.choice([0.5, 359.5, r.uniform(0, 360)]), r.uniform(-60, 20), r.choice([r.uniform(-.5, .5), r.uniform(-7, 7)]), r.uniform(-.3, .3), r.choice(['C.dat', 'S.dat'])) for i in range(m)]
    v = np.zeros(n, dtype=[(k, float) for k in ('observationStartMJD', 'fieldRA', 'fieldDec', 'seeingFwhmGeom', 'visitExposureTime', 'fiveSigmaDepth', 'rotSkyPos')] + [('night', int), ('observationId', int), ('band', '<U1')])
    v['observationStartMJD'] = [60000 + r.uniform(0, 6) for _ in range(n)]
    near = [r.choice(objs) for _ in range(n)]
    for k in range(n):
        a, d = near[k].at(v['observationStartMJD'][k])
        v['fieldRA'][k], v['fieldDec'][k] = (a + r.uniform(-4, 4)) % 360, d + r.uniform(-3, 3)
    v['seeingFwhmGeom'] = [r.uniform(.5, 2) for _ in range(n)]
    v['visitExposureTime'] = [r.choice([15., 30., 38.]) for _ in range(n)]
    v['fiveSigmaDepth'] = [r.uniform(22, 25) for _ in range(n)]
    v['night'] = np.floor(v['observationStartMJD'] - 60000).astype(int)
    v['observationId'] = r.sample(range(1000), n)
    v['band'] = [r.choice('ugrizy') for _ in range(n)]
    radec = [v['fieldRA'].copy(), v['fieldDec'].copy()]
    S.draws.update(visits=[v['observationStartMJD'].tolist(), radec[0].tolist(), radec[1].tolist()], objects=[o.p for o in objs])
    if not deg:
        v['fieldRA'], v['fieldDec'] = np.radians(radec[0]), np.radians(radec[1])
    keep = v.copy()
    b = Known(footprint=fp, r_fov=1.75, x_tol=2., y_tol=1.5, obs_degrees=deg, tstep=r.choice([.5, 1.]), pre_comp_tol=r.choice([.2, 2.08]))
    pre = S.bool('pre') and fp == 'circle'
    kw = {}
    if pre:
        t0 = v['observationStartMJD'].min()
        mj = np.arange(r.choice([59999., 59999., t0, t0 + .5]), r.choice([60008., 60008., 60003.]), r.choice([.25, 1.]))
        mj = mj if len(mj) > 1 else np.array([59999., 60007.])
        pos = np.zeros((m, len(mj)), dtype=[('ra', float), ('dec', float)])
        for i, o in enumerate(objs):
            pos['ra'][i], pos['dec'][i] = o.at(mj)
        kw = dict(object_positions=pos, object_mjds=mj)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = b.run(objs, v, **kw)
    S.ensure('visits not modified', (v == keep).all())
    got = {(int(o['obj_id']), int(o['observationId'])): o for o in out}
    S.ensure('no observation listed twice', len(got) == len(out))
    for o in objs:
        for k in range(n):
            t = v['observationStartMJD'][k]
            a, d = o.at(t)
            if fp == 'circle':
                from rubin_scheduler.utils import angular_separation
                sep = angular_separation(a, d, radec[0][k], radec[1][k])
                if abs(sep - 1.75) < 1e-7:
                    continue
                ins = sep < 1.75
            else:
                da = abs((a - radec[0][k] + 180) % 360 - 180) * math.cos(math.radians(radec[1][k]))
                if abs(da - 2) < 1e-7 or abs(abs(d - radec[1][k]) - 1.5) < 1e-7:
                    continue
                ins = da < 2 and abs(d - radec[1][k]) < 1.5
            key = (o.id, int(v['observationId'][k]))
            S.ensure('observed exactly when in the field', (key in got) == bool(ins))
            if not ins:
                continue
            g = got[key]
            e = b.generate_ephemerides(o, t)[0][0]
            for c in ('time', 'ra', 'dec', 'magV', 'velocity', 'phase', 'geo_dist'):
                S.ensure('%s of the object at the visit' % c, g[c] == e[c])
            for c in ('observationStartMJD', 'seeingFwhmGeom', 'visitExposureTime', 'fiveSigmaDepth', 'night', 'band'):
                S.ensure('%s of the visit' % c, g[c] == v[c][k])
            S.ensure('spectrum of the object', g['sedname'] == o.orbits['sed_filename'].iloc[0])
            S.ensure('colour of the object in the band of the visit', abs(g['dmag_color'] - b.calc_colors(g['sedname'])[str(v['band'][k])]) < 1e-12)
            x = e['velocity'] * v['visitExposureTime'][k] / v['seeingFwhmGeom'][k] / 24
            S.ensure('losses from the seeing and exposure of the visit', abs(g['dmag_trail'] - 1.25 * math.log10(loss(x, .761, 1.162))) < 1e-9
                     and abs(g['dmag_detect'] - 1.25 * math.log10(loss(x, .42, .003))) < 1e-9)


class _Sed:
    mags = {}

    def read_sed_flambda(self, f):
        self.f = f

    def calc_mag(self, bp):
        return _Sed.mags[bp]


@contract('C13', 'colours are band magnitude minus V', [B + 'calc_colors'], stubs={'rubin_sim.moving_objects.base_obs:Sed': _Sed})
def colours(S):
    if not S.symbolic:
        return
    vb = S.real('V')
    ms_ = {b: S.real(b) for b in 'gr'}
    _Sed.mags = dict(V=vb, **ms_)
    b = base(S, vband='V', lsst={'g': 'g', 'r': 'r'}, filterlist=('g', 'r'))
    out = b.calc_colors('C.dat', sed_dir='x')
    for f in 'gr':
        S.ensure('colour in %s' % f, S.eq(out[f], ms_[f] - vb))
    S.ensure('remembered', b.calc_colors('C.dat') is out)
