"""C17: parallax and proper-motion precision combine visits by inverse variance."""
import math
import numpy as np
from pyver.api import contract
from pyver.sym import Unsupported
import rubin_sim.maf.metrics.calibration_metrics as cm
import rubin_sim.maf.metrics.dcr_metric as dm
import rubin_sim.maf.utils.astrometry_utils as au
import rubin_sim.maf.utils.stellar_mags as smag_m  # noqa: F401
from rubin_sim.maf.utils import stellar_mags

A = 'rubin_sim.maf.utils.astrometry_utils:'
C = 'rubin_sim.maf.metrics.calibration_metrics:'
D = 'rubin_sim.maf.metrics.dcr_metric:'
ALSO = ['rubin_sim.maf.utils.astrometry_utils']
COLORS = {'O': (-0.4835688497, -0.5201721327, -0.3991733698, -0.3106800468, -0.2072290744), 'B': (-0.3457202828, -0.4834762052, -0.3812792176, -0.2906072887, -0.1927230035),
          'A': (0.8823182684, -0.237288029, -0.2280783991, -0.1587960264, -0.03043824335), 'F': (0.9140316091, 0.1254277486, -0.03419150003, -0.0802010739, -0.03802756413),
          'G': (1.198219095, 0.3915608688, 0.09129426676, 0.002604263747, -0.004659443668), 'K': (1.716635024, 0.6081567546, 0.1796910856, 0.06492278686, 0.0425155827),
          'M': (2.747842719, 1.287599638, 0.5375622482, 0.4313486709, 0.219308065)}


# ---- the building blocks

@contract('C17', 'signal to noise from depth', A + 'm52snr', safety=False)
def snr(S):
    n = S.int('n', 1)
    m, m5 = S.arr('m', n, lo=10, hi=30), S.arr('m5', n, lo=10, hi=30)
    g = S.choice('g', [None, 0.04])
    f = au.m52snr(m, m5, gamma=g)
    S.forall('five at the depth, times ten for each 2.5 magnitudes', n, lambda k: S.eq(f[k], 5 / S.p10((m[k] - m5[k]) * .4) if g is not None else 5 * S.p10((m5[k] - m[k]) * .4)))


@contract('C17', 'signal to noise with a photon noise term', A + 'm52snr', safety=False)
def snrg(S):
    m, m5 = S.real('m', 10, 30), S.real('m5', 10, 30)
    g = S.real('g', 0.01, 0.04)
    f = au.m52snr(m, m5, gamma=g)
    x = S.p10((m - m5) * .4)
    S.ensure('variance of both terms', S.eq(f * f * ((0.04 - g) * x + g * x * x), 1))
    S.ensure('positive', f > 0)


@contract('C17', 'position error', A + 'astrom_precision', safety=False)
def precision(S):
    n = S.int('n', 1)
    w, s = S.arr('w', n, lo=.3, hi=4), S.arr('s', n, lo=0, lo_open=True, hi=1000)
    fl = S.real('fl', 0, 1)
    e = au.astrom_precision(w, s, fl)
    S.forall('size over signal to noise, and the floor, in quadrature', n, lambda k: S.and_(e[k] > 0, S.eq(e[k] * e[k], (w[k] / s[k]) * (w[k] / s[k]) + fl * fl)))
    S.forall('never below the floor', n, lambda k: e[k] >= fl)


@contract('C17', 'error of a weighted slope', A + 'sigma_slope', safety=False)
def slope(S):
    n = S.int('n', 0)
    x, s = S.arr('x', n, lo=-10, hi=10), S.arr('s', n, lo=.1, hi=3)
    f = au.sigma_slope(x, s)
    w = 1 / (s * s)
    a, b, c = S.sum(w), S.sum(w * x), S.sum(w * (x * x))
    d = a * c - b * b
    if S.symbolic:
        if S.cond(d <= 0):
            S.ensure('undefined without two dates', np.isnan(f))
        else:
            S.ensure('weighted least squares', S.and_(f >= 0, S.eq(f * f * d, a)))
    elif len(set(x.tolist())) < 2:
        S.ensure('undefined without two dates', np.isnan(f) or f > 1e5)
    else:
        X = np.column_stack([np.ones(len(x)), x])
        cov = np.linalg.inv(X.T @ np.diag(w) @ X)
        S.ensure('weighted least squares', d <= 1e-9 or abs(f - math.sqrt(cov[1, 1])) < 1e-6 * f)


@contract('C17', 'slope error with one more measurement', A + 'sigma_slope', safety=False)
def slopeapp(S):
    n = S.int('n', 2)
    x, s = S.arr('x', n, lo=-10, hi=10), S.arr('s', n, lo=.1, hi=3)
    x1, s1 = S.real('x1', -10, 10), S.real('s1', .1, 3)
    w, w1 = 1 / (s * s), 1 / (s1 * s1)
    xx, ss = np.append(x, x1), np.append(s, s1)
    ww = 1 / (ss * ss)
    S.ensure('weights', S.eq(S.sum(ww), S.sum(w) + w1))
    S.ensure('first moment', S.eq(S.sum(ww * xx), S.sum(w * x) + w1 * x1))
    S.ensure('second moment', S.eq(S.sum(ww * (xx * xx)), S.sum(w * (x * x)) + w1 * x1 * x1))
    a, b, c = S.sum(w), S.sum(w * x), S.sum(w * (x * x))
    S.assume(a * c - b * b > 1e-6)
    f = au.sigma_slope(xx, ss)
    if not S.symbolic:
        S.ensure('not larger than without it', f <= au.sigma_slope(x, s) * (1 + 1e-7))


@contract('C17', 'one more measurement never hurts the slope', A + 'sigma_slope', safety=False)
def slopemore(S):
    """lemma over the two contracts above: a, b, c are the weighted sums without the new measurement"""
    a, b, c, w, x = S.real('a', .01, 100), S.real('b', -100, 100), S.real('c', .01, 1000), S.real('w', .01, 100), S.real('x', -10, 10)
    d = a * c - b * b
    S.assume(d > 0)
    d1 = (a + w) * (c + w * x * x) - (b + w * x) * (b + w * x)
    q = a * x - b
    S.ensure('gain', S.eq(a * d1 - (a + w) * d, w * q * q))
    S.ensure('still determined', a * d1 >= (a + w) * d)
    S.ensure('positive', d1 * a > 0)
    f2, g2 = S.real('f2', 0, 1000) if S.symbolic else a / d, S.real('g2', 0, 1000) if S.symbolic else (a + w) / d1
    S.assume(S.and_(S.eq(f2 * d, a), S.eq(g2 * d1, a + w)))
    S.assume(S.and_(a * d1 >= (a + w) * d, d1 > 0))
    S.ensure('squared error not larger', g2 * (d * d1) <= f2 * (d * d1) * (1 + 1e-9) if not S.symbolic else g2 * (d * d1) <= f2 * (d * d1))


@contract('C17', 'magnitudes of stellar templates', 'rubin_sim.maf.utils.stellar_mags:stellar_mags', bounded='seven templates', trials=60)
def stars(S):
    t = S.r.choice(list(COLORS))
    r = S.r.uniform(10, 30)
    S.draws.update(type=t, r=r)
    m = stellar_mags(t, rmag=r)
    c = COLORS[t]
    S.ensure('r magnitude as asked', m['r'] == r)
    S.ensure('colours of the type', np.allclose([m['u'] - m['g'], m['g'] - m['r'], m['r'] - m['i'], m['i'] - m['z'], m['z'] - m['y']], c))
    S.ensure('six bands', set(m) == set('ugrizy'))
    S.ensure('unknown types are refused', S.raises(ValueError, lambda: stellar_mags('Q')))


# ---- the metrics

def visits(S, n, pool=('g', 'r'), **extra):
    cols = dict(fiveSigmaDepth=S.arr('m5', n, lo=18, hi=27), band=S.arr('band', n, kind='s', pool=list(pool)), seeingFwhmGeom=S.arr('see', n, lo=.3, hi=3))
    for k, (nm, lo, hi) in extra.items():
        cols[k] = S.arr(nm, n, lo=lo, hi=hi)
    return S.table(**cols)


def perr2(S, t, mags, floor):
    """squared position error of each visit"""
    m = S.ite(t['band'] == 'g', mags['g'], mags['r'])
    sn = 5 / S.p10((m - t['fiveSigmaDepth']) * .4)
    return (t['seeingFwhmGeom'] / sn) ** 2 + floor * floor


class Any:
    pass


def star(S, met):
    """any magnitude in each band, any floor"""
    met.mags = {f: (S.real('mag_' + f, 15, 25) if f in 'gr' else 20.) for f in 'ugrizy'}
    met.atm_err = S.real('floor', .001, .1)
    return met


@contract('C17', 'parallax error from position errors', C + 'ParallaxMetric._final_sigma', safety=False)
def final(S):
    n = S.int('n', 1)
    e, ra, de = S.arr('e', n, lo=.001, hi=3), S.arr('ra', n, lo=.001, hi=1), S.arr('de', n, lo=-1, hi=-.001)
    out = cm.ParallaxMetric()._final_sigma(e, ra, de)
    a, b = S.sum(ra * ra / (e * e)), S.sum(de * de / (e * e))
    S.ensure('inverse variances of both coordinates add', S.and_(out >= 0, S.eq(out * out * (a + b), 1e6)))


@contract('C17', 'parallax error of a slice', C + 'ParallaxMetric.run', also=ALSO, safety=False)
def parallax(S):
    n = S.int('n', 1)
    t = visits(S, n, ra_pi_amp=('ra', -1, 1), dec_pi_amp=('de', -1, 1))
    t0 = S.snapshot(t)
    m = star(S, cm.ParallaxMetric())
    if S.symbolic:
        seen = []
        m._final_sigma = lambda e, a, b: (seen.append((e, a, b)), 7)[1]     # under contract above
        out = m.run(t)
        if len(seen) != 1:
            raise Unsupported('the error of a slice does not come from one call of _final_sigma')
        e, a, b = seen[0]
        e2 = perr2(S, t, m.mags, m.atm_err)
        S.ensure('that of all visits', S.and_(S.size(e) == n, S.size(a) == n, S.size(b) == n, out == 7))
        S.forall('position error of each visit', n, lambda k: S.and_(e[k] > 0, S.eq(e[k] * e[k], e2[k])))
        S.forall('parallax offsets of each visit', n, lambda k: S.and_(S.eq(a[k], t['ra_pi_amp'][k]), S.eq(b[k], t['dec_pi_amp'][k])))
    else:
        out = m.run(t)
        info = S.sum((t['ra_pi_amp'] ** 2 + t['dec_pi_amp'] ** 2) / perr2(S, t, m.mags, m.atm_err))
        if info > 1e-12:
            S.ensure('inverse variances of both coordinates add', np.isclose(out, 1000 / math.sqrt(info), rtol=1e-7))
    S.unchanged('visits', t, t0)


@contract('C17', 'parallax error, any bands, order and extra visits', [C + 'ParallaxMetric.run', C + 'ParallaxMetric._final_sigma', C + 'ParallaxMetric.__init__'], bounded='pairs of slices', trials=400)
def parallaxb(S):
    r = S.r
    n = r.choice([1, 2, 5, 12])
    t = draw(S, n)
    sed, rmag, atm = r.choice(['flat', 'flat', 'G', 'M', 'O']), r.uniform(16, 25), r.choice([0., .01, .1])
    S.draws.update(visits=t.tolist(), sed=sed, rmag=rmag, atm=atm)
    met = cm.ParallaxMetric(rmag=rmag, sed_template=sed, atm_err=atm)
    e = errors(t, sed, rmag, atm)
    info = float(np.sum((t['ra_pi_amp'] ** 2 + t['dec_pi_amp'] ** 2) / e ** 2))
    out = met.run(t)
    if info > 1e-12:
        S.ensure('inverse variances add', np.isclose(out, 1000 / math.sqrt(info), rtol=1e-7))
    else:
        S.ensure('nothing known without an offset', np.isinf(out) or out > 1e6)
    p = r.sample(range(n), n)
    S.ensure('not changed by the order', np.isclose(met.run(t[p]), out, rtol=1e-9, equal_nan=True))
    S.ensure('not worse for one more visit', not met.run(np.concatenate([t, draw(S, 1)])) > out * (1 + 1e-9))
    norm = cm.ParallaxMetric(rmag=rmag, sed_template=sed, atm_err=atm, normalize=True).run(t)
    if info > 1e-12:
        S.ensure('normalized by visits at full offset', np.isclose(norm, math.sqrt(info / float(np.sum(1 / e ** 2))), rtol=1e-7))
    S.ensure('columns it uses are asked for', {'fiveSigmaDepth', 'band', 'seeingFwhmGeom', 'ra_pi_amp', 'dec_pi_amp'} <= set(met.col_name_arr))


def draw(S, n, bands='ugrizy'):
    r = S.r
    t = np.zeros(n, dtype=[('observationStartMJD', float), ('fiveSigmaDepth', float), ('band', 'U1'), ('seeingFwhmGeom', float), ('ra_pi_amp', float), ('dec_pi_amp', float),
                           ('ra_dcr_amp', float), ('dec_dcr_amp', float), ('zenithDistance', float), ('paraAngle', float)])
    same = r.random() < .2
    for k in range(n):
        mjd = 60000 + (r.uniform(0, 3650) if not same else 5)
        t[k] = (mjd, r.uniform(18, 27), r.choice(bands), r.uniform(.3, 3), r.choice([0, 1, -1, r.uniform(-1, 1), r.uniform(-1, 1)]), r.choice([0, 1, r.uniform(-1, 1), r.uniform(-1, 1)]),
                r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(5, 70), r.uniform(-180, 180))
    return t


def errors(t, sed, rmag, atm):
    m = {f: rmag for f in 'ugrizy'}
    if sed != 'flat':
        ug, gr, ri, iz, zy = COLORS[sed]
        m = dict(u=rmag + gr + ug, g=rmag + gr, r=rmag, i=rmag - ri, z=rmag - ri - iz, y=rmag - ri - iz - zy)
    sn = np.array([5 * 10 ** (-.4 * (m[b] - d)) for b, d in zip(t['band'], t['fiveSigmaDepth'])])
    return np.sqrt((t['seeingFwhmGeom'] / sn) ** 2 + atm ** 2)


@contract('C17', 'visits of a proper motion error', C + 'ProperMotionMetric.run', also=ALSO, safety=False)
def motion1(S):
    n = S.int('n', 2)
    t = visits(S, n, observationStartMJD=('mjd', 0, 2000))
    m = star(S, cm.ProperMotionMetric())
    band = t['band']
    ng, nr = S.count(band == 'g'), S.count(band == 'r')
    if S.symbolic:
        seen = []

        def stub(x, s):
            seen.append((x, s))
            return 3
        fns = 'sigma_slope', 'm52snr', 'astrom_precision'
        old = [getattr(cm.mafUtils, f) for f in fns]
        # the callees are under contract above
        cm.mafUtils.sigma_slope = stub
        cm.mafUtils.m52snr = lambda m, m5: S.upos('snr', m, m5)
        cm.mafUtils.astrom_precision = lambda fwhm, snr, systematic_floor=0.: S.upos('err', fwhm, snr, systematic_floor)
        try:
            out = m.run(t)
        finally:
            for f, o in zip(fns, old):
                setattr(cm.mafUtils, f, o)
        e = S.upos('err', t['seeingFwhmGeom'], S.upos('snr', S.ite(band == 'g', m.mags['g'], m.mags['r']), t['fiveSigmaDepth']), m.atm_err)
        if len(seen) != 1:
            raise Unsupported('the error does not come from one call of sigma_slope')
        x, s = seen[0]
        S.ensure('mas per year', S.eq(out, 3 * 365250))
        S.ensure('visits of bands with two or more', S.and_(S.size(x) == S.size(s), S.size(x) == S.ite(ng >= 2, ng, 0) + S.ite(nr >= 2, nr, 0)))
        use = S.ite(band == 'g', ng >= 2, nr >= 2)
        S.ensure('error of each visit', S.eq(S.sum(s), S.sum(S.ite(use, e, 0))))
        S.ensure('date of each visit', S.eq(S.sum(x * s), S.sum(S.ite(use, t['observationStartMJD'] * e, 0))))
    else:
        out = m.run(t)
        use = np.where(band == 'g', ng, nr) >= 2
        e2 = perr2(S, t, m.mags, m.atm_err)
        x, w = t['observationStartMJD'][use], 1 / e2[use]
        if len(set(x.tolist())) > 1:
            c = x - np.sum(w * x) / np.sum(w)
            S.ensure('weighted least squares, mas per year', np.isclose(out, 365250 / math.sqrt(np.sum(w * c * c)), rtol=1e-3))


@contract('C17', 'proper motion error of a slice', [C + 'ProperMotionMetric.run', C + 'ProperMotionMetric.__init__'], bounded='bands with a single visit are left out, a count for each band', trials=500)
def motion(S):
    r = S.r
    n = r.choice([1, 2, 3, 5, 12])
    bands = r.choice(['g', 'gr', 'ugrizy'])
    t = draw(S, n, bands)
    sed, rmag, atm = r.choice(['flat', 'flat', 'G', 'M', 'O']), r.uniform(16, 25), r.choice([.001, .01, .1])
    S.draws.update(visits=t.tolist(), sed=sed, rmag=rmag, atm=atm)
    met = cm.ProperMotionMetric(rmag=rmag, sed_template=sed, atm_err=atm)
    use = np.array([list(t['band']).count(b) >= 2 for b in t['band']])

    def ref(x, e):
        if len(x) < 2 or np.ptp(x) == 0:
            return None
        w = 1 / e ** 2
        x = x - np.sum(w * x) / np.sum(w)
        return 365250. / math.sqrt(np.sum(w * x * x))
    e = errors(t, sed, rmag, atm)
    want = ref(t['observationStartMJD'][use], e[use])
    out = met.run(t)
    if want is None:
        S.ensure('bad value without two dates', out == met.badval or out > 1e3)
    else:
        S.ensure('weighted least squares over bands with two visits', np.isclose(out, want, rtol=1e-3))
        p = r.sample(range(n), n)
        S.ensure('not changed by the order', np.isclose(met.run(t[p]), out, rtol=1e-3))
        S.ensure('not worse for one more visit', not met.run(np.concatenate([t, draw(S, 1, bands)])) > out * (1 + 1e-3))
        base = r.uniform(1, 12)
        norm = cm.ProperMotionMetric(rmag=rmag, sed_template=sed, atm_err=atm, normalize=True, baseline=base).run(t)
        k = int(use.sum())
        best = ref(np.where(np.arange(k) < k // 2, 0., base * 365.25), e[use])
        if best is not None:
            S.ensure('normalized by visits at both ends of the survey', np.isclose(norm, best / want, rtol=1e-3))
    S.ensure('columns it uses are asked for', {'fiveSigmaDepth', 'band', 'seeingFwhmGeom', 'observationStartMJD'} <= set(met.col_name_arr))


def arc(theta):
    """length of the shortest arc containing all the directions"""
    s = sorted(x % (2 * math.pi) for x in theta)
    gaps = [b - a for a, b in zip(s, s[1:])] + [s[0] + 2 * math.pi - s[-1]]
    return 2 * math.pi - max(gaps)


@contract('C17', 'parallax coverage', [C + 'ParallaxCoverageMetric.run', C + 'ParallaxCoverageMetric._theta_check', C + 'ParallaxCoverageMetric._weighted_r', C + 'ParallaxCoverageMetric._compute_weights', C + 'ParallaxCoverageMetric.__init__'], bounded='angles', trials=700)
def coverage(S):
    r = S.r
    n = r.choice([1, 2, 3, 5, 12])
    t = draw(S, n)
    c0, wd = r.uniform(0, 2 * math.pi), r.choice([.2, 1., 3., 6.])
    if r.random() < .6:
        ang = np.array([c0 + r.uniform(0, wd) for _ in range(n)])
        t['ra_pi_amp'], t['dec_pi_amp'] = np.cos(ang) * .8, np.sin(ang) * .8
    sed, rmag, atm, th, lim = r.choice(['flat', 'G']), r.uniform(16, 25), r.choice([.001, .01]), r.choice([0., 0., .5, 1.5, 3.]), r.choice([5, 20, 1e9])
    S.draws.update(visits=t.tolist(), sed=sed, rmag=rmag, atm=atm, theta=th, snr_limit=lim)
    met = cm.ParallaxCoverageMetric(rmag=rmag, sed_template=sed, atm_err=atm, theta_range=th, snr_limit=lim)
    out = met.run(t)
    if n < 2:
        S.ensure('bad value for a single visit', out == met.badval)
        return
    w = 1 / errors(t, sed, rmag, atm) ** 2
    x, y = t['ra_pi_amp'], t['dec_pi_amp']
    mx, my = np.sum(w * x) / w.sum(), np.sum(w * y) / w.sum()
    rad = float(np.sum(w * np.hypot(x - mx, y - my)) / w.sum())
    if th > 0:
        sn = t['seeingFwhmGeom'] / np.sqrt(1 / w - atm ** 2)
        good = sn >= lim
        a = arc(np.arctan2(y[good], x[good])) if good.any() else 0
        if abs(a - th) < 1e-6 or abs(a - math.pi) < 1e-6:
            return
        if a < th:
            rad = 0
    S.ensure('weighted mean distance from the weighted centre, none if too few directions', np.isclose(out, rad, rtol=1e-6, atol=1e-9))


@contract('C17', 'degeneracy of parallax and refraction', [C + 'ParallaxDcrDegenMetric.run', C + 'ParallaxDcrDegenMetric._positions', C + 'ParallaxDcrDegenMetric.__init__'], bounded='nonlinear fit by scipy', trials=150)
def degen(S):
    r = S.r
    n = r.choice([2, 5, 12])
    t = draw(S, n)
    sed, rmag, atm = r.choice(['flat', 'G']), r.uniform(16, 24), r.choice([.001, .01])
    S.draws.update(visits=t.tolist(), sed=sed, rmag=rmag, atm=atm)
    met = cm.ParallaxDcrDegenMetric(rmag=rmag, sed_template=sed, atm_err=atm)
    w = np.tile(1 / errors(t, sed, rmag, atm) ** 2, 2)
    p, d = np.concatenate([t['ra_pi_amp'], t['dec_pi_amp']]), np.concatenate([t['ra_dcr_amp'], t['dec_dcr_amp']])
    pp, dd, pd = np.sum(w * p * p), np.sum(w * d * d), np.sum(w * p * d)
    if pp * dd - pd * pd < 1e-3 * pp * dd:
        return
    out = met.run(t)
    S.ensure('correlation of the two amplitudes in the weighted fit', np.isclose(out, -pd / math.sqrt(pp * dd), atol=1e-3))
    S.ensure('columns it uses are asked for', {'fiveSigmaDepth', 'band', 'seeingFwhmGeom', 'ra_pi_amp', 'dec_pi_amp', 'ra_dcr_amp', 'dec_dcr_amp'} <= set(met.col_name_arr))


@contract('C17', 'precision of a refraction amplitude', D + 'DcrPrecisionMetric.run', also=ALSO, safety=False)
def dcr(S):
    n = S.int('n', 1)
    t = visits(S, n, pool=('g',), zenithDistance=('zd', 5, 70), paraAngle=('pa', 10, 80), ra_dcr_amp=('x1', -1, 1), dec_dcr_amp=('x2', -1, 1))
    m = star(S, dm.DcrPrecisionMetric())
    if S.symbolic:
        fns = 'm52snr', 'astrom_precision'
        old = [getattr(dm.mafUtils, f) for f in fns]
        dm.mafUtils.m52snr = lambda m, m5: S.upos('snr', m, m5)          # callees under contract above
        dm.mafUtils.astrom_precision = lambda fwhm, snr, systematic_floor=0.: S.upos('err', fwhm, snr, systematic_floor)
        try:
            out = m.run(t)
        finally:
            for f, o in zip(fns, old):
                setattr(dm.mafUtils, f, o)
        e = S.upos('err', t['seeingFwhmGeom'], S.upos('snr', m.mags['g'], t['fiveSigmaDepth']), 0.)
        e2 = e * e + m.atm_err * m.atm_err
        rad = lambda x: S.fn('radians', x)  # noqa
        tz = S.fn('tan', rad(t['zenithDistance']))
        x, y = tz * S.fn('sin', rad(t['paraAngle'])), tz * S.fn('cos', rad(t['paraAngle']))
        a, b = S.sum(1 / (S.sqrt(e2) / x) ** 2), S.sum(1 / (S.sqrt(e2) / y) ** 2)
        S.assume(S.and_(a > 0, b > 0))
        S.ensure('inverse variances of both coordinates add', S.eq(out, 1 / S.sqrt(a + b)))
    else:
        out = m.run(t)
        info = float(np.sum(np.tan(np.radians(t['zenithDistance'])) ** 2 / perr2(S, t, m.mags, m.atm_err)))
        S.ensure('inverse variances of both coordinates add', np.isclose(out, 1 / math.sqrt(info), rtol=1e-7))


@contract('C17', 'precision of a refraction amplitude, any bands', [D + 'DcrPrecisionMetric.run', D + 'DcrPrecisionMetric.__init__'], bounded='pairs of slices', trials=300)
def dcrb(S):
    r = S.r
    n = r.choice([1, 2, 5, 12])
    t = draw(S, n)
    sed, rmag, atm = r.choice(['flat', 'flat', 'G', 'M', 'O']), r.uniform(16, 25), r.choice([0., .01, .1])
    S.draws.update(visits=t.tolist(), sed=sed, rmag=rmag, atm=atm)
    met = dm.DcrPrecisionMetric(rmag=rmag, sed_template=sed, atm_err=atm)
    e = errors(t, sed, rmag, atm)
    out = met.run(t)
    S.ensure('inverse variances add', np.isclose(out, 1 / math.sqrt(np.sum(np.tan(np.radians(t['zenithDistance'])) ** 2 / e ** 2)), rtol=1e-7))
    S.ensure('not changed by the order', np.isclose(met.run(t[r.sample(range(n), n)]), out, rtol=1e-9))
    S.ensure('not worse for one more visit', met.run(np.concatenate([t, draw(S, 1)])) <= out * (1 + 1e-9))


@contract('C17', 'distance of visits from the slice point', [C + 'RadiusObsMetric.run', C + 'calc_dist_cosines', C + 'RadiusObsMetric.reduce_mean', C + 'RadiusObsMetric.reduce_rms', C + 'RadiusObsMetric.reduce_full_range'], bounded='spherical trigonometry', trials=400)
def radius(S):
    r = S.r
    n = r.choice([1, 2, 6])
    ra, dec = r.uniform(0, 360), r.choice([90., -90., 0., r.uniform(-90, 90)])
    t = np.zeros(n, dtype=[('fieldRA', float), ('fieldDec', float)])
    for k in range(n):
        t[k] = (ra, dec) if r.random() < .4 else (r.uniform(0, 360), r.uniform(-90, 90))
    S.draws.update(ra=ra, dec=dec, t=t.tolist())
    met = cm.RadiusObsMetric()
    out = met.run(t, {'ra': math.radians(ra), 'dec': math.radians(dec)})

    def vec(a, d):
        a, d = np.radians(a), np.radians(d)
        return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
    v = vec(ra, dec)
    want = [math.degrees(math.atan2(np.linalg.norm(np.cross(v, vec(a, d))), v @ vec(a, d))) for a, d in t]
    S.ensure('angular distance in degrees', np.allclose(out, want, atol=1e-5))
    S.ensure('mean', np.isclose(met.reduce_mean(out), sum(out) / n))
    S.ensure('scatter', np.isclose(met.reduce_rms(out), math.sqrt(max(0, sum((x - sum(out) / n) ** 2 for x in out) / n)), atol=1e-9))
    S.ensure('full range', np.isclose(met.reduce_full_range(out), max(out) - min(out)))
