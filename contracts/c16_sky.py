"""C16: sky-component interpolation is a true linear interpolation on its grid, point by point."""
import importlib
import math
import warnings
import numpy as np
import healpy as hp
from pyver.api import contract
from pyver.ctx import standin
import rubin_sim.skybrightness.interp_components as ic
import rubin_sim.skybrightness.sky_model as sm
import rubin_sim.skybrightness.utils as ut
tf = importlib.import_module('rubin_sim.skybrightness.twilight_func')

I = 'rubin_sim.skybrightness.interp_components:'
T = 'rubin_sim.skybrightness.twilight_func:'
M = 'rubin_sim.skybrightness.sky_model:'
U = 'rubin_sim.skybrightness.utils:'
TWO = 'tables with a spectrum in every row are outside the array model'
ASTRO = 'celestial mechanics (astropy) is outside the verifier'


def mk(cls, **kw):
    o = standin(cls)
    o.__dict__.update(kw)
    return o


@contract('C16', 'grid weights', I + 'BaseSingleInterp._indx_and_weights', safety=False)
def weights(S):
    n, g = S.int('n', 1), S.int('g', 1)
    grid = S.arr('grid', g, lo=-50, hi=50, order='strict')
    p = S.arr('p', n, lo=grid[0], hi=grid[g - 1], near=None if S.symbolic else grid.tolist())
    p0, g0 = S.snapshot(p), S.snapshot(grid)
    o = S.obj(ic.BaseSingleInterp)
    ir, il, wr, wl = o._indx_and_weights(p, grid)
    S.ensure('one for each point', S.and_(S.size(ir) == n, S.size(il) == n, S.size(wr) == n, S.size(wl) == n))
    S.forall('weights between zero and one', n, lambda k: S.and_(wr[k] >= 0, wr[k] <= 1, wl[k] >= 0, wl[k] <= 1))
    S.forall('weights add to one', n, lambda k: S.eq(wr[k] + wl[k], 1))
    S.forall('right neighbour is on the grid', n, lambda k: S.and_(ir[k] >= 0, ir[k] < g))
    S.forall('left neighbour is on the grid where it counts', n, lambda k: S.implies(wl[k] != 0, S.and_(il[k] >= 0, il[k] < g)))
    S.forall('point is not above its right neighbour', n, lambda k: p[k] <= grid[ir[k]])
    S.forall('weighting the grid gives the point', n,
             lambda k: S.ite(il[k] >= 0, S.eq(wr[k] * grid[ir[k]] + wl[k] * grid[S.ite(il[k] >= 0, il[k], 0)], p[k]), S.eq(grid[ir[k]], p[k])))
    S.forall('neighbours are adjacent', n, lambda k: S.implies(wl[k] != 0, il[k] == ir[k] - 1))
    S.unchanged('points', p, p0)
    S.unchanged('grid', grid, g0)


@contract('C16', 'identifiers to compact numbers and back', [I + 'id2intid', I + 'intid2id'], bounded='runs of equal identifiers written by slices of data-dependent length', trials=1500)
def ids(S):
    r = S.r
    n = r.choice([1, 1, 2, 3, 8, 40])
    x = np.array([r.choice([-5, 0, 1, 3, 900, 1009, 1010]) if r.random() < .7 else r.randint(-2000, 2000) for _ in range(n)])
    S.draws['ids'] = x.tolist()
    x0 = x.copy()
    intids, uids, uintids = ic.id2intid(x)
    S.ensure('identifiers left alone', np.array_equal(x, x0))
    S.ensure('one compact number for each', intids.shape == x.shape)
    S.ensure('different identifiers, increasing', np.array_equal(uids, sorted(set(x.tolist()))))
    S.ensure('compact numbers without gaps', np.array_equal(uintids, np.arange(len(set(x.tolist())))))
    S.ensure('compact number of each identifier', all(uids[i] == v for i, v in zip(intids, x)))
    S.ensure('back to the same identifiers', np.array_equal(ic.intid2id(intids, uintids, uids), x))
    # numbers that map to something else, some of them without a counterpart
    keys = np.array(sorted(set(r.randint(0, 30) for _ in range(r.randint(1, 12)))))
    vals = np.array([r.randint(0, 99) for _ in keys])
    q = np.array([r.choice(keys) if r.random() < .8 else r.randint(0, 30) for _ in range(n)])
    S.draws.update(keys=keys.tolist(), vals=vals.tolist(), q=q.tolist())
    out = ic.intid2id(q, keys, vals)
    d = dict(zip(keys.tolist(), vals.tolist()))
    S.ensure('each number gets its own value', out.shape == q.shape and all(o == d[k] for o, k in zip(out, q.tolist()) if k in d))


# ---- interpolation of tabulated rows

def conv(f, x, y):
    return f(x), f(y)


def multilin(axes, table, point):
    """multilinear interpolation of table (an array indexed by the axes in order) at a point inside the axes"""
    if not axes:
        return np.asarray(table, dtype=float)
    g, p = axes[0], point[0]
    j = max(i for i in range(len(g)) if g[i] <= p)
    lo = multilin(axes[1:], table[j], point[1:])
    if g[j] == p:
        return lo
    hi = multilin(axes[1:], table[j + 1], point[1:])
    t = (p - g[j]) / (g[j + 1] - g[j])
    return lo * (1 - t) + hi * t


def axis(S, lo, hi, m=None, least=2):
    r = S.r
    m = m or r.randint(least, 5)
    return np.array(sorted({lo, round(r.uniform(lo, hi), 3), *(round(r.uniform(lo, hi), 3) for _ in range(m))})[:m]) if m == 1 else np.array(sorted({lo + (hi - lo) * k / 64. for k in r.sample(range(65), m)}))


def pts(S, g, n, outside=False):
    r = S.r
    out = []
    for _ in range(n):
        c = r.random()
        if c < .4:
            out.append(float(r.choice(g.tolist())))
        elif outside and c < .6:
            out.append(r.choice([g[0] - r.uniform(.001, 1), g[-1] + r.uniform(.001, 1)]))
        else:
            out.append(min(max(r.uniform(g[0], g[-1]), g[0]), g[-1]))
    return np.array(out)


def tab(n, **cols):
    t = np.zeros(n, dtype=[(k, float) for k in cols])
    for k, v in cols.items():
        t[k] = v
    return t


def close(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9)


def base(S):
    r = S.r
    g = axis(S, 1, 3, least=1)
    vals = np.array([[r.choice([0., r.uniform(-20, 5)]) for _ in range(6)] for _ in g])
    n = r.choice([1, 2, 5, 9])
    p = pts(S, g, n, outside=True)
    S.draws.update(grid=g.tolist(), values=vals.tolist(), airmass=p.tolist())
    inn = (p >= g[0]) & (p <= g[-1])
    want = np.array([multilin([g], vals, [x]) if i else np.zeros(6) for x, i in zip(p, inn)])
    return g, vals, p, inn, want


@contract('C16', 'interpolation in airmass', I + 'BaseSingleInterp._weighting', bounded=TWO, trials=800)
def wbase(S):
    g, vals, p, inn, want = base(S)
    t = tab(len(p), airmass=p)
    o = mk(ic.BaseSingleInterp, dim_dict={'airmass': g})
    v0, t0 = vals.copy(), t.copy()
    out = o._weighting(t, vals)
    S.ensure('one row for each point', out.shape == want.shape)
    S.ensure('linear between neighbours, zero outside the table', close(out, want))
    S.ensure('between the neighbours', all((row >= vals.min(0) - 1e-9).all() and (row <= vals.max(0) + 1e-9).all() for row in out[inn]))
    S.ensure('inputs left alone', np.array_equal(vals, v0) and np.array_equal(t, t0))


@contract('C16', 'interpolated spectra and magnitudes', [I + 'BaseSingleInterp.interp_spec', I + 'BaseSingleInterp.interp_mag', I + 'BaseSingleInterp.__call__'], bounded=TWO, trials=600)
def sbase(S):
    r = S.r
    g, vals, p, inn, want = base(S)
    spec = np.zeros(len(g), dtype=[('mags', float, 6), ('spectra', float, 6)])
    spec['mags'] = vals
    d = {k: i for i, k in enumerate('ugrizy')}
    t = tab(len(p), airmass=p)
    names = r.sample(list('ugrizy'), r.randint(1, 6))
    S.draws['filters'] = names
    wave = np.arange(6.)
    with np.errstate(all='ignore'):
        o = mk(ic.BaseSingleInterp, dim_dict={'airmass': g}, log_spec=vals, spec=spec, wave=wave, filter_wave=wave + 1, filter_name_dict=d, mags=False)
        out = o(t, filter_names=names)
        S.ensure('spectrum of each point', close(out['spec'], np.where(want == 0, 0, 10. ** want)) and out['wave'] is wave)
        o.mags = True
        out = o(t, filter_names=names)
        sub = want[:, [d[x] for x in names]]
        S.ensure('flux of each point in the filters asked for', out['spec'].shape == sub.shape and close(out['spec'], np.where(sub == 0, 0, 10. ** (-.4 * (sub - math.log10(3631.))))))
        S.ensure('nothing outside the table', (out['spec'][~inn] == 0).all())


@contract('C16', 'interpolation in airmass and solar flux', I + 'Airglow._weighting', bounded=TWO, trials=500)
def wair(S):
    r = S.r
    ga, gf = axis(S, 1, 3), axis(S, 100, 200)
    vals = np.array([[r.uniform(-20, 5) for _ in range(3)] for _ in range(len(ga) * len(gf))])
    n = r.choice([1, 2, 5, 9])
    a, f = pts(S, ga, n, True), pts(S, gf, n, True)
    S.draws.update(ga=ga.tolist(), gf=gf.tolist(), values=vals.tolist(), airmass=a.tolist(), flux=f.tolist())
    o = mk(ic.Airglow, dim_dict={'airmass': ga, 'solarFlux': gf}, n_solar_flux=len(gf))
    out = o._weighting(tab(n, airmass=a, solar_flux=f), vals)
    t = vals.reshape(len(ga), len(gf), 3)
    inn = (a >= ga[0]) & (a <= ga[-1]) & (f >= gf[0]) & (f <= gf[-1])
    S.ensure('bilinear inside, zero outside', close(out, [multilin([ga, gf], t, [x, y]) if i else np.zeros(3) for x, y, i in zip(a, f, inn)]))


def sphere(table, ids, nside, theta, phi):
    """weighted mean of the tabulated pixels around a direction, weights rescaled to the pixels in the table"""
    pix, w = hp.get_interp_weights(nside, theta, phi)
    row = {int(h): i for i, h in enumerate(ids)}
    use = [(row[int(h)], x) for h, x in zip(pix, w) if int(h) in row]
    tot = sum(x for _, x in use)
    return use, tot


@contract('C16', 'interpolation in airmass and ecliptic position', I + 'ZodiacalInterp._weighting', bounded=TWO, trials=250)
def wzod(S):
    r = S.r
    nside = r.choice([1, 2, 4])
    npix = hp.nside2npix(nside)
    ga = axis(S, 1, 3, r.randint(2, 4))
    vals = np.array([[r.uniform(-20, 5) for _ in range(2)] for _ in range(len(ga) * npix)])
    n = r.choice([1, 2, 6])
    a, lat, lon = pts(S, ga, n, True), np.array([r.uniform(-math.pi / 2, math.pi / 2) for _ in range(n)]), np.array([r.uniform(0, 2 * math.pi) for _ in range(n)])
    S.draws.update(ga=ga.tolist(), nside=nside, airmass=a.tolist(), lat=lat.tolist(), lon=lon.tolist())
    o = mk(ic.ZodiacalInterp, dim_dict={'airmass': ga, 'hpid': np.arange(npix)}, nside=nside)
    out = o._weighting(tab(n, airmass=a, altEclip=lat, azEclipRelSun=lon), vals)
    t = vals.reshape(len(ga), npix, 2)
    want = []
    for x, b, l in zip(a, lat, lon):
        if x < ga[0] or x > ga[-1]:
            want.append(np.zeros(2))
            continue
        rows = multilin([ga], t, [x])
        pix, w = hp.get_interp_weights(nside, math.pi / 2 - b, l)
        want.append(sum(rows[h] * q for h, q in zip(pix, w)))
    S.ensure('linear in airmass of the pixels around the direction', close(out, want))


@contract('C16', 'interpolation of moonlight', I + 'MoonInterp._weighting', bounded=TWO, trials=250)
def wmoon(S):
    r = S.r
    nside = 4
    npix = hp.nside2npix(nside)
    ids = np.array(sorted(r.sample(range(npix), r.choice([npix, npix // 2, 40])))) if r.random() < .7 else np.arange(npix // 2)
    gs, gm = axis(S, 0, 180, r.randint(2, 4)), axis(S, -10, 90, r.randint(2, 4))
    vals = np.array([[r.uniform(-20, 5) for _ in range(2)] for _ in range(len(gs) * len(gm) * len(ids))])
    n = r.choice([1, 2, 6])
    alt, az = np.array([r.uniform(.05, math.pi / 2) for _ in range(n)]), np.array([r.uniform(0, math.pi) for _ in range(n)])
    ma, ms = pts(S, gm, n), pts(S, gs, n)
    S.draws.update(gs=gs.tolist(), gm=gm.tolist(), ids=ids.tolist(), alt=alt.tolist(), az=az.tolist(), ma=ma.tolist(), ms=ms.tolist())
    o = mk(ic.MoonInterp, dim_dict={'moonSunSep': gs, 'moonAltitude': gm, 'hpid': ids}, nside=nside)
    out = o._weighting(tab(n, alt=alt, azRelMoon=az, moonAltitude=ma, moonSunSep=ms), vals)
    t = vals.reshape(len(gs), len(gm), len(ids), 2)
    for k in range(n):
        rows = multilin([gs, gm], t, [ms[k], ma[k]])
        use, tot = sphere(t, ids, nside, math.pi / 2 - alt[k], az[k])
        want = sum(rows[i] * (w / tot) for i, w in use) if tot > 0 else np.zeros(2)
        S.ensure('linear in separation and altitude of the pixels around the direction', close(out[k], want))
    low = o._weighting(tab(n, alt=alt, azRelMoon=az, moonAltitude=np.full(n, gm[0] - 1.), moonSunSep=ms), vals)
    S.ensure('none when the moon is below the table', (low == 0).all())


# ---- twilight

def twi(S, am, az, sun, a):
    e = a[0] * a[4] * S.p10(a[1] * (sun + math.radians(12.)) + a[2] * (am - 1))
    return e, S.p10(a[3] * S.fn('cos', az) * (am - 1))


@contract('C16', 'twilight of each point', T + 'twilight_func', safety=False)
def twilight(S):
    n = S.int('n', 1)
    hi = np.pi if not S.symbolic else S.pi
    az, am, sun = S.arr('az', n, lo=0, hi=2 * hi), S.arr('am', n, lo=1, hi=3, near=[1, 1.1]), S.arr('sun', n, lo=-.4, hi=.3)
    a = [S.real('a%d' % i, -2, 2) for i in range(5)]
    cut = S.real('cut', 1, 1.2)
    t = S.table(azRelSun=az, airmass=am, sunAlt=sun)
    t0 = S.snapshot(t)
    f = tf.twilight_func(t, *a, amCut=cut)
    S.ensure('one for each point', S.size(f) == n)

    def want(k):
        away = S.or_(am[k] <= cut, S.and_(az[k] >= hi / 2, az[k] <= 3 * hi / 2))
        e, h = twi(S, am[k], az[k], sun[k], a)
        return S.eq(f[k], S.ite(away, e, e * h))
    S.forall('flux from its own airmass, azimuth and sun altitude', n, want)
    S.unchanged('points', t, t0)


@contract('C16', 'twilight with a dark sky of each pixel', T + 'twilight_func', safety=False, timeout_ms=8000)
def twilighthp(S):
    n = S.int('n', 1)
    hi = np.pi if not S.symbolic else S.pi
    az, am, sun = S.arr('az', n, lo=0, hi=2 * hi), S.arr('am', n, lo=1, hi=3, near=[1, 1.1]), S.arr('sun', n, lo=-.4, hi=.3)
    hpid = S.arr('hpid', n, 'i', lo=0, hi=2)
    a = [S.real('a%d' % i, -2, 2) for i in range(8)]
    f = tf.twilight_func(S.table(azRelSun=az, airmass=am, sunAlt=sun, hpid=hpid), *a)

    def want(k):
        away = S.or_(am[k] <= 1, S.and_(az[k] >= hi / 2, az[k] <= 3 * hi / 2))
        e, h = twi(S, am[k], az[k], sun[k], a)
        c = S.ite(hpid[k] == 0, a[5], S.ite(hpid[k] == 1, a[6], a[7]))
        return S.eq(f[k], S.ite(away, e, e * h) + a[4] * S.fn('exp', c * (am[k] - 1)))
    S.forall('flux from its own coordinates and pixel', n, want)


@contract('C16', 'twilight at the zenith', [T + 'zenith_twilight', T + 'twilight_func'], safety=False)
def zenith(S):
    a = [S.real('a%d' % i, -2, 2) for i in range(5)]
    n = S.int('n', 1)
    sun, az = S.arr('sun', n, lo=-.4, hi=.3), S.arr('az', n, lo=0, hi=6)
    z = tf.zenith_twilight(sun, *a)
    f = tf.twilight_func(S.table(azRelSun=az, airmass=S.arr('one', n, lo=1, hi=1), sunAlt=sun), *a)
    S.forall('twilight plus the dark sky', n, lambda k: S.eq(z[k], f[k] + a[4]))


@contract('C16', 'twilight by pixel alone', T + 'simple_twi', bounded='positions looked up at data-dependent places', trials=500)
def simple(S):
    r = S.r
    m, n = r.randint(1, 5), r.choice([1, 2, 6])
    h = np.array([r.randrange(m) for _ in range(n)])
    h[r.randrange(n)] = m - 1
    sun = np.array([r.uniform(-.4, .3) for _ in range(n)])
    a = [r.uniform(-3, 3) for _ in range(1 + 2 * m)]
    t = np.zeros(n, dtype=[('hpid', int), ('sunAlt', float)])
    t['hpid'], t['sunAlt'] = h, sun
    S.draws.update(hpid=h.tolist(), sun=sun.tolist(), args=a)
    out = tf.simple_twi(t, *a)
    S.ensure('scale and dark sky of each pixel', close(out, [a[1 + k] * math.exp(s * a[0]) + a[1 + m + k] for k, s in zip(h, sun)]))


def twobj(S, mags):
    r = S.r
    eq = np.array([[r.uniform(.1, 2) for _ in range(5)] for _ in range(6)])
    d = {k: i for i, k in enumerate('ugrizy')}
    return mk(ic.TwilightInterp, mags=mags, lsst_equations=eq, filter_name_dict=d, lsst_eff_wave=list(range(6)),
              filter_names=np.array(list('ugrizy')), fit_results={k: list(eq[i]) for k, i in d.items()}, eff_wave=np.array([350., 480, 620, 750, 870, 970]),
              solar_mag=np.array([r.uniform(-1, 1) for _ in range(6)]), solar_wave=np.array([300., 350, 400, 480, 600, 970, 1050]),
              solar_flux=np.array([r.uniform(.5, 2) for _ in range(7)])), eq, d


@contract('C16', 'twilight spectrum and magnitudes', [I + 'TwilightInterp.interp_mag', I + 'TwilightInterp.interp_spec', I + 'TwilightInterp.__call__'], bounded=TWO, trials=300)
def twinterp(S):
    r = S.r
    warnings.simplefilter('ignore')
    n = r.choice([1, 2, 6])
    sun = np.array([math.radians(r.choice([-25, -20.5, -19.5, -12, -5, 0, 14.9, r.uniform(-25, 15)])) for _ in range(n)])
    am = np.array([r.choice([1., 3., .9, 3.2, r.uniform(1, 3)]) for _ in range(n)])
    az = np.array([r.uniform(0, 2 * math.pi) for _ in range(n)])
    S.draws.update(sun=sun.tolist(), am=am.tolist(), az=az.tolist())
    t = tab(n, sunAlt=sun, airmass=am, azRelSun=az)
    good = (sun >= math.radians(-20)) & (sun <= math.radians(15)) & (am >= 1) & (am <= 3)
    o, eq, d = twobj(S, True)
    names = r.sample(list('ugrizy'), r.randint(1, 6))
    out = o(t, filter_names=names)['spec']

    def flux(k, a):
        x = a[0] * a[4] * 10 ** (a[1] * (sun[k] + math.radians(12)) + a[2] * (am[k] - 1))
        if am[k] > 1 and (az[k] < math.pi / 2 or az[k] > 1.5 * math.pi):
            x *= 10 ** (a[3] * math.cos(az[k]) * (am[k] - 1))
        return x
    S.ensure('each point in each filter asked for', close(out, [[flux(k, eq[d[f]]) if good[k] else 0 for f in names] for k in range(n)]))
    o.mags = False
    out = o(t)['spec']
    S.ensure('a spectrum for each point', out.shape == (n, 7))
    for k in range(n):
        if not good[k]:
            S.ensure('nothing out of range', (out[k] == 0).all())
            continue
        y = np.array([flux(k, eq[i]) / 10 ** (-.4 * (o.solar_mag[i] - math.log10(3631))) for i in range(6)])
        ratio = np.interp(o.solar_wave, o.eff_wave, y)
        blue = o.solar_wave < o.eff_wave[0]
        ratio[blue] = y[0] + (y[1] - y[0]) / (o.eff_wave[1] - o.eff_wave[0]) * (o.solar_wave[blue] - o.eff_wave[0])
        S.ensure('solar spectrum scaled by the twilight colours', np.allclose(out[k], o.solar_flux * ratio, rtol=1e-7))
    hot = t.copy()
    hot['sunAlt'] = math.radians(16)
    o.mags = True
    S.ensure('undefined in daylight', np.isnan(o(hot, filter_names=names)['spec']).all())


# ---- angles

@contract('C16', 'right ascension in one turn', U + 'wrap_ra')
def wrap(S):
    n = S.int('n', 1)
    x = S.arr('x', n, lo=-20, hi=20)
    pi = S.pi if S.symbolic else np.pi
    out = ut.wrap_ra(x)
    S.forall('in one turn', n, lambda k: S.and_(out[k] >= 0, out[k] <= 2 * pi))
    if not S.symbolic:
        S.ensure('same direction', close(np.cos(out), np.cos(x)) and close(np.sin(out), np.sin(x)))
    else:
        S.forall('same direction', n, lambda k: S.eq(S.floor((x[k] - out[k]) / (2 * pi)) * (2 * pi), x[k] - out[k]))


@contract('C16', 'azimuth from the moon, any number of points', M + 'calc_az_rel_moon', also=['rubin_sim.skybrightness.utils'])
def azmoons(S):
    n = S.int('n', 1)
    pi = S.pi if S.symbolic else np.pi
    a, m = S.arr('a', n, lo=0, hi=2 * pi), S.real('m', 0, 7)
    S.assume(m <= 2 * pi)
    a0 = S.snapshot(a)
    out = sm.calc_az_rel_moon(a, m)
    S.forall('between zero and a half turn', n, lambda k: S.and_(out[k] >= 0, out[k] <= pi + 1e-12))

    def want(k):
        d = S.ite(a[k] >= m, a[k] - m, m - a[k])
        return S.eq(out[k], S.ite(d <= pi, d, 2 * pi - d))
    S.forall('the shorter way round', n, want)
    S.unchanged('azimuths', a, a0)


@contract('C16', 'azimuth from the moon', M + 'calc_az_rel_moon', bounded='angular distance is compared through sine and cosine', trials=1500)
def azmoon(S):
    r = S.r
    n = r.choice([1, 2, 7])
    a = np.array([r.choice([0, math.pi, 2 * math.pi, r.uniform(0, 2 * math.pi)]) for _ in range(n)])
    m = r.choice([0, math.pi, 1., r.uniform(0, 2 * math.pi)])
    S.draws.update(az=a.tolist(), moon=m)
    out = sm.calc_az_rel_moon(a, m)
    S.ensure('between zero and a half turn', (out >= 0).all() and (out <= math.pi + 1e-12).all())
    S.ensure('angular distance in azimuth', np.allclose(np.cos(out), np.cos(a - m), atol=1e-12))
    S.ensure('single values alike', close([sm.calc_az_rel_moon(float(x), m) for x in a], out))


@contract('C16', 'value within limits', M + 'inrange')
def inr(S):
    n = S.int('n', 1)
    x = S.arr('x', n, lo=-3, hi=3, near=[-1, 1])
    lo, hi = S.real('lo', -2, 0), S.real('hi', 0, 2)
    x0 = S.snapshot(x)
    out = sm.inrange(x, minimum=lo, maximum=hi)
    S.forall('nearest value within the limits', n, lambda k: S.eq(out[k], S.ite(x[k] < lo, lo, S.ite(x[k] > hi, hi, x[k]))))
    S.unchanged('input', x, x0)


@contract('C16', 'robust scatter', U + 'robust_rms', bounded='percentiles', trials=500)
def rms(S):
    r = S.r
    n = r.choice([0, 1, 2, 3, 10])
    x = np.array([r.uniform(-5, 5) for _ in range(n)])
    S.draws['x'] = x.tolist()
    out = ut.robust_rms(x, missing=-7.)
    if n < 2:
        S.ensure('missing value', out == -7.)
    else:
        s = sorted(x)
        q = lambda f: s[int(f * (n - 1))] + (f * (n - 1) - int(f * (n - 1))) * (s[min(n - 1, int(f * (n - 1)) + 1)] - s[int(f * (n - 1))])  # noqa
        S.ensure('interquartile range over 1.349', abs(out - (q(.75) - q(.25)) / 1.349) < 1e-9)
        S.ensure('not changed by a shift or the order', abs(ut.robust_rms(np.array(s) + 3) - out) < 1e-9)


# ---- the whole sky model, with stand-ins for the tabulated components

class Comp:
    """a component whose flux in each column is a function of each point's own coordinates"""

    def __init__(self, S, wave, zero, fields):
        self.c = [S.r.uniform(.1, 2) for _ in wave]
        self.wave, self.zero, self.fields = wave, zero, fields

    def row(self, p):
        s = sum(math.sin(float(p[f]) * (i + 1)) for i, f in enumerate(self.fields))
        if p['airmass'] > self.zero:
            return [0.] * len(self.c)
        return [c * (1.5 + len(self.fields) + s) for c in self.c]

    def __call__(self, pts, filter_names=None):
        rows = np.array([self.row(p) for p in pts])
        if self.mags:
            rows = rows[:, ['ugrizy'.index(f) for f in filter_names]]
        return {'spec': rows, 'wave': self.wave}


NAMES = ['moon', 'lower_atm', 'twilight', 'upper_atm', 'airglow', 'zodiacal', 'scattered_star', 'merged_spec']
FIELDS = {'moon': ['alt', 'azRelMoon', 'moonAltitude', 'moonSunSep'], 'twilight': ['airmass', 'azRelSun', 'sunAlt'], 'airglow': ['airmass', 'solar_flux'],
          'zodiacal': ['airmass', 'altEclip', 'azEclipRelSun']}


def model(S, mags, limit=None, fixed=None):
    from astropy import units as u
    from astropy.coordinates import EarthLocation
    from rubin_scheduler.utils import Site
    r = S.r
    on = {k: (r.random() < .5 if fixed is None else k in fixed) for k in NAMES}
    if not any(on.values()):
        on['airglow'] = True
    wave = np.linspace(300., 1100., 6 if mags else 5)
    site = Site('LSST')
    o = mk(sm.SkyModel, mags=mags, npix=len(wave), precise_alt_az=False, azs=None, airmass_limit=limit or r.choice([2., 2.5, 3., 3.]), params_set=False,
           telescope=site, location=EarthLocation(lat=site.latitude_rad * u.rad, lon=site.longitude_rad * u.rad, height=site.height * u.m), components={}, **on)
    o.interp_objs = {}
    for k in NAMES:
        if on[k]:
            c = Comp(S, wave, r.choice([1.5, 2.4, 99, 99]), FIELDS.get(k, ['airmass']))
            c.mags = mags
            o.interp_objs[k] = c
    S.draws.update(on=[k for k in NAMES if on[k]], mags=mags, limit=o.airmass_limit)
    return o


def total(o, P, names):
    """sum of the components at one point (a dict of its coordinates); nothing when a component is missing and the sky ends at 2.5 airmasses"""
    cols = ['ugrizy'.index(f) for f in names] if o.mags else slice(None)
    rows = {k: np.array(c.row(P))[cols] for k, c in o.interp_objs.items()}
    return rows


def expect(o, points, names):
    n = len(points)
    good = [1 <= p['airmass'] <= o.airmass_limit for p in points]
    rows = [total(o, p, names) for p in points]
    some = {k: any(rows[i][k].max() > 0 for i in range(n) if good[i]) for k in o.interp_objs}
    out = []
    for i in range(n):
        if not good[i]:
            out.append(np.full_like(next(iter(rows[i].values())), np.nan))
            continue
        s = sum(rows[i].values())
        if o.airmass_limit <= 2.5 and any(some[k] and rows[i][k].sum() == 0 for k in rows[i]):
            s = s * 0
        out.append(s)
    return np.array(out), np.array(good)


def par(S, n):
    r = S.r
    w = 2 * math.pi
    d = dict(azs=np.array([r.uniform(0, w) for _ in range(n)]), moon_phase=r.uniform(0, 100), moon_alt=r.uniform(-1.5, 1.5), moon_az=r.uniform(0, w), sun_alt=r.uniform(-1, 0),
             sun_az=r.uniform(0, w), sun_eclip_lon=r.uniform(0, w), eclip_lon=np.array([r.uniform(0, w) for _ in range(n)]), eclip_lat=np.array([r.uniform(-1.5, 1.5) for _ in range(n)]),
             solar_flux=r.uniform(90, 200))
    am = np.array([r.choice([1., 1.2, 2., 2.5, 3., r.uniform(1, 3.5)]) for _ in range(n)])
    return d, am


def coords(d, am, k):
    w = 2 * math.pi
    rel = (d['azs'][k] - d['moon_az']) % w
    return dict(airmass=am[k], nightTimes=0, alt=math.pi / 2 - math.acos(min(1, 1 / am[k])), az=d['azs'][k], azRelMoon=min(rel, w - rel), moonSunSep=d['moon_phase'] * 1.8,
                moonAltitude=math.degrees(d['moon_alt']), altEclip=d['eclip_lat'][k], azEclipRelSun=(d['eclip_lon'][k] - d['sun_eclip_lon']) % w, sunAlt=d['sun_alt'],
                azRelSun=(d['azs'][k] - d['sun_az']) % w, solar_flux=d['solar_flux'])


@contract('C16', 'sky at given conditions', [M + 'SkyModel.set_params', M + 'SkyModel._interp_sky', M + 'SkyModel.return_mags', M + 'SkyModel.return_wave_spec', M + 'SkyModel.get_computed_vals'], bounded=TWO, trials=400)
def params(S):
    r = S.r
    warnings.simplefilter('ignore')
    mags = r.random() < .5
    o = model(S, mags)
    S.ensure('nothing to return before any conditions are set', S.raises(ValueError, o.return_mags) and S.raises(ValueError, o.return_wave_spec) and S.raises(ValueError, o._interp_sky))
    names = r.sample(list('ugrizy'), r.randint(1, 6)) if mags else list('ugrizy')
    for rep in range(r.choice([1, 1, 2])):
        n = r.choice([1, 2, 6])
        d, am = par(S, n)
        am[0] = r.uniform(1.05, 1.9)
        byalt = r.random() < .5
        deg = r.random() < .5
        f = np.degrees if deg else (lambda x: x)
        kw = {k: (v if k in ('moon_phase', 'solar_flux') else f(v)) for k, v in d.items()}
        if byalt:
            kw['alts'] = f(np.pi / 2 - np.arccos(1 / am))
        else:
            kw['airmass'] = am
        S.draws.update(par={k: np.asarray(v).tolist() for k, v in kw.items()}, names=names, degrees=deg)
        o.set_params(degrees=deg, filter_names=names, **kw)
        P = [coords(d, am, k) for k in range(n)]
        edge = np.abs(am - o.airmass_limit) < 1e-9
        if byalt and (edge.any() or (np.abs(am - 1) < 1e-9).any()):
            am = o.airmass          # the airmass of an altitude may round to either side of the limit
            P = [coords(d, am, k) for k in range(n)]
        want, good = expect(o, P, names)
        cv = o.get_computed_vals()
        ref = dict(alts=[p['alt'] for p in P], azs=d['azs'], airmass=am, solar_flux=d['solar_flux'], moon_phase=d['moon_phase'], moon_az=d['moon_az'], moon_alt=d['moon_alt'], sun_alt=d['sun_alt'], sun_az=d['sun_az'],
                   moon_sun_sep=d['moon_phase'] * math.pi / 100, az_rel_moon=[p['azRelMoon'] for p in P], eclip_lon=d['eclip_lon'], eclip_lat=d['eclip_lat'], sun_eclip_lon=d['sun_eclip_lon'])
        for k, v in ref.items():
            S.ensure('%s reported' % k, cv[k] is not None and np.allclose(cv[k], v, atol=1e-7))
        S.ensure('no value reported for what was not given', all(cv[k] is None for k in ('ra', 'dec', 'moon_ra', 'moon_dec', 'sun_ra', 'sun_dec')))
        for c in P[0]:
            S.ensure('%s of each point' % c, np.allclose(o.points[c], [p[c] for p in P], atol=1e-7))
        S.ensure('distance from the moon', np.allclose(np.cos(o.moon_targ_sep), [math.sin(p['alt']) * math.sin(d['moon_alt']) + math.cos(p['alt']) * math.cos(d['moon_alt']) * math.cos(p['az'] - d['moon_az']) for p in P], atol=1e-7))
        if mags:
            S.ensure('no spectrum in magnitude mode', S.raises(ValueError, o.return_wave_spec))
            got = o.return_mags({'g': None} if r.random() < .3 else None)
            S.ensure('the filters asked for', list(got) == names)
            with np.errstate(all='ignore'):
                ref = -2.5 * np.log10(want) + math.log10(3631.)
            S.ensure('magnitude of the summed flux of each point', all(np.allclose(got[f], ref[:, i], equal_nan=True, atol=1e-7) for i, f in enumerate(names)))
        else:
            wv, got = o.return_wave_spec()
            S.ensure('wavelengths', np.allclose(wv, np.linspace(300, 1100, 5)))
            S.ensure('summed flux of each point', np.allclose(got, want, equal_nan=True, atol=1e-7))
            wv[:] = 0
            got[:] = 7
            S.ensure('what is returned is a copy', not (o.wave == 0).any() and not (o.spec == 7).any())


@contract('C16', 'broad-band sky from a spectrum', M + 'SkyModel.return_mags', bounded=TWO, trials=150)
def bandmags(S):
    from rubin_sim.phot_utils import Bandpass, Sed
    r = S.r
    warnings.simplefilter('ignore')
    o = model(S, False)
    n = r.choice([1, 2, 5])
    d, am = par(S, n)
    am[0] = r.uniform(1.05, 1.9)
    dark = [r.random() < .3 for _ in range(5)]
    for c in o.interp_objs.values():
        c.c = [0. if z else x for x, z in zip(c.c, dark)]
    o.set_params(degrees=False, airmass=am, **d)
    wl = np.linspace(400., 800., 9)
    bps = {}
    for k in r.sample(['a', 'b', 'c'], r.randint(1, 3)):
        sb = np.array([r.choice([0., r.uniform(.1, 1)]) for _ in wl])
        sb[r.choice([2, 6])] = 1.
        bps[k] = Bandpass(wavelen=wl, sb=sb)
    S.draws.update(am=am.tolist(), bands=list(bps))
    got = o.return_mags(bandpasses=bps)
    S.ensure('the bands asked for', set(got) == set(bps))
    for k, b in bps.items():
        S.ensure('one for each point', got[k].shape == (n,))
        on = b.wavelen[b.sb > 0]
        inb = (o.wave >= on.min()) & (o.wave <= on.max())
        if not inb.any():
            continue
        for i in range(n):
            if not 1 <= am[i] <= o.airmass_limit:
                S.ensure('undefined beyond the airmass limit', np.isnan(got[k][i]))
            elif o.spec[i][inb].max() > 0:
                s = Sed()
                s.set_sed(o.wave, flambda=o.spec[i])
                S.ensure('magnitude of each point', np.isclose(got[k][i], s.calc_mag(b)))
            else:
                S.ensure('flag where there is no flux', got[k][i] == -666)


@contract('C16', 'no sky outside the airmass limits', [M + 'SkyModel.set_params', M + 'SkyModel.set_ra_dec_alt_az_mjd'], bounded=TWO, trials=60)
def outside(S):
    r = S.r
    warnings.simplefilter('ignore')
    mags = r.random() < .5
    o = model(S, mags)
    n = r.choice([1, 3])
    d, am = par(S, n)
    if r.random() < .5 or not mags:
        o.set_params(degrees=False, airmass=np.full(n, 1.1), **d)
    o.set_params(degrees=False, airmass=am + 3., **d)
    S.draws.update(n=n)
    out = np.array(list(o.return_mags().values())).T if mags else o.return_wave_spec()[1]
    S.ensure('undefined at every point', np.isnan(out).all() and out.shape[0] == n)
    if n > 1:
        S.ensure('no position within the limits is an error', S.raises(ValueError, lambda: o.set_ra_dec_alt_az_mjd(np.ones(n), np.ones(n), np.full(n, .1), np.ones(n), 60000.)))


@contract('C16', 'sky at a place and time', [M + 'SkyModel.set_ra_dec_mjd', M + 'SkyModel.set_ra_dec_alt_az_mjd', M + 'SkyModel._setup_point_grid', M + 'SkyModel._init_points'], bounded=ASTRO, trials=25)
def place(S):
    from rubin_scheduler.utils import _approx_ra_dec2_alt_az
    r = S.r
    warnings.simplefilter('ignore')
    mags = r.random() < .5
    o = model(S, mags, fixed=['moon', 'twilight', 'zodiacal', 'airglow', 'merged_spec'])
    mjd = 60000 + r.uniform(0, 700)
    n = r.choice([2, 5])
    deg = r.random() < .5
    f = np.degrees if deg else (lambda x: x)
    azs, alts = np.array([r.uniform(0, 2 * math.pi) for _ in range(n)]), np.array([r.uniform(.2, 1.5) for _ in range(n)])
    alts[0] = 1.2
    sf = r.uniform(90, 200)
    S.draws.update(mjd=mjd, azs=azs.tolist(), alts=alts.tolist(), deg=deg)
    names = r.sample(list('ugrizy'), r.randint(1, 6)) if mags else list('ugrizy')
    o.set_ra_dec_mjd(f(azs), f(alts), mjd, degrees=deg, az_alt=True, solar_flux=sf, filter_names=names)
    spec, pts1, ra, dec = o.spec.copy(), o.points.copy(), o.ra.copy(), o.dec.copy()
    w = 2 * math.pi
    rel = (azs - o.moon_az) % w
    want = dict(airmass=1 / np.sin(alts), alt=alts, az=azs, azRelMoon=np.minimum(rel, w - rel), moonAltitude=np.degrees(o.moon_alt), moonSunSep=np.degrees(o.moon_sun_sep), sunAlt=o.sun_alt,
                azRelSun=(azs - o.sun_az) % w, altEclip=o.eclip_lat, azEclipRelSun=(o.eclip_lon - o.sun_eclip_lon) % w, solar_flux=sf, nightTimes=0)
    for c, v in want.items():
        S.ensure('%s of each point' % c, np.allclose(pts1[c], v, atol=1e-7))
    from astropy.coordinates import get_sun, get_body, AltAz
    from astropy.time import Time
    tm = Time(mjd, format='mjd')
    sun, moon = get_sun(tm), get_body('moon', tm)
    cv = o.get_computed_vals()
    up = {'sun': sun.transform_to(AltAz(location=o.location, obstime=tm)), 'moon': moon.transform_to(AltAz(location=o.location, obstime=tm))}
    for nm, b in (('sun', sun), ('moon', moon)):
        for k, v in (('ra', b.ra.rad), ('dec', b.dec.rad), ('alt', up[nm].alt.rad), ('az', up[nm].az.rad)):
            S.ensure('%s of the %s' % (k, nm), abs(math.sin((cv['%s_%s' % (nm, k)] - v) / 2)) < 1e-6)
    S.ensure('sun and moon apart', abs(o.moon_sun_sep - sun.separation(moon).rad) < 1e-6)
    eps = math.radians(23.4393)
    vec = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    ecl = np.array([vec[0], vec[1] * math.cos(eps) + vec[2] * math.sin(eps), vec[2] * math.cos(eps) - vec[1] * math.sin(eps)])
    got = np.array([np.cos(o.eclip_lat) * np.cos(o.eclip_lon), np.cos(o.eclip_lat) * np.sin(o.eclip_lon), np.sin(o.eclip_lat)])
    S.ensure('ecliptic coordinates of each position', np.abs(ecl - got).max() < .012)      # of date or of 2000: 0.35 degrees
    se = math.atan2(math.cos(sun.dec.rad) * math.sin(sun.ra.rad) * math.cos(eps) + math.sin(sun.dec.rad) * math.sin(eps), math.cos(sun.dec.rad) * math.cos(sun.ra.rad))
    S.ensure('ecliptic longitude of the sun', abs(math.sin((o.sun_eclip_lon - se) / 2)) < .012)
    for k, v in (('ra', ra), ('dec', dec), ('alts', alts), ('azs', azs), ('airmass', 1 / np.sin(alts)), ('solar_flux', sf), ('moon_phase', o.moon_phase)):
        S.ensure('%s reported' % k, np.allclose(cv[k], v))
    S.ensure('moon phase is its separation from the sun', abs(o.moon_phase - np.degrees(o.moon_sun_sep) / 1.8) < 1e-9)
    S.ensure('distance from the moon', np.allclose(np.cos(o.moon_targ_sep), np.sin(alts) * np.sin(o.moon_alt) + np.cos(alts) * np.cos(o.moon_alt) * np.cos(azs - o.moon_az), atol=1e-7))
    e, _ = expect(o, [{c: pts1[c][k] for c in pts1.dtype.names} for k in range(n)], names)
    S.ensure('summed flux of each point', np.allclose(spec, e, equal_nan=True))
    a2, z2 = _approx_ra_dec2_alt_az(ra, dec, o.telescope.latitude_rad, o.telescope.longitude_rad, mjd)
    o.set_ra_dec_mjd(f(ra), f(dec), mjd, degrees=deg, solar_flux=sf, filter_names=names)
    S.ensure('altitude and azimuth of each position', np.allclose(o.alts, a2) and np.allclose(o.azs, z2))
    o.set_ra_dec_alt_az_mjd(f(ra), f(dec), f(alts), f(azs), mjd, degrees=deg, solar_flux=sf, filter_names=names)
    S.ensure('the same conditions from position, altitude and azimuth', all(np.allclose(o.points[c], pts1[c], atol=1e-7) for c in pts1.dtype.names))
    S.ensure('the same sky from position, altitude and azimuth', np.allclose(o.spec, spec, equal_nan=True, atol=1e-6))
    p = np.array(r.sample(range(n), n))
    o.set_ra_dec_alt_az_mjd(f(ra[p]), f(dec[p]), f(alts[p]), f(azs[p]), mjd, degrees=deg, solar_flux=sf, filter_names=names)
    S.ensure('each point regardless of the order', np.allclose(o.spec, spec[p], equal_nan=True, atol=1e-6))
    S.ensure('one time only', S.raises(ValueError, lambda: o.set_ra_dec_mjd(f(ra), f(dec), np.array([mjd, mjd]), degrees=deg)))
