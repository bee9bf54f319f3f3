"""C14: moving-object metrics use exactly the detections; completeness is the found fraction, weighted by the population."""
import itertools
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
import numpy.ma as ma
from pyver.api import contract
import rubin_sim.maf.metrics.mo_metrics as mm
import rubin_sim.maf.metrics.mo_summary_metrics as ms

K = 'rubin_sim.maf.metrics.mo_metrics:'
Z = 'rubin_sim.maf.metrics.mo_summary_metrics:'
VIS = K + '_set_vis'


def obs(S, n, **kw):
    """an observation table, and which rows count as detections for a given limit"""
    snr = S.arr('snr', n, near=[5])
    vis = S.arr('vis', n, lo=0, hi=1, near=[0, 1])
    t = S.table(SNR=snr, vis=vis, night=S.arr('night', n, 'i', lo=0, near=[3]), observationStartMJD=S.arr('mjd', n),
                velocity=S.arr('vel', n, lo=0), seeingFwhmGeom=S.arr('fwhm', n, lo=.25, hi=3), visitExposureTime=S.arr('exp', n, lo=1, hi=60), **kw)
    lim = S.real('lim', near=[5]) if S.bool('give_limit') else None
    return t, lim, ((snr >= lim) if lim is not None else (vis > 0))


def common(name, cls, spec, lo=0, **kw):
    @contract('C14', name, [K + cls + '.run', VIS], **kw)
    def body(S):
        n = S.int('n', lo)
        t, lim, det = obs(S, n)
        old = S.snapshot(t)
        m = getattr(mm, cls)(snr_limit=lim)
        spec(S, n, t, det, m.run(t, None, 20.0), m)
        S.unchanged('observations not modified', t, old)
    return body


common('number of observations', 'NObsMetric', lambda S, n, t, det, r, m: S.ensure('number of detections', S.eq(r, S.count(det))))


def nnights(S, n, t, det, r, m):
    x = t['night'][det]
    S.ensure('number of different nights with a detection', S.eq(r, S.size(S.fn('unique', x)) if S.symbolic else len(set(x.tolist()))))
    S.ensure('no more than detections, none without', S.and_(r <= S.count(det), S.implies(S.count(det) > 0, r >= 1)))


def arc(S, n, t, det, r, m):
    x = t['observationStartMJD']
    S.ensure('zero without detections', S.implies(S.eq(S.count(det), 0), S.eq(r, 0)))
    S.forall2('at least every interval between detections', n, lambda i, j: S.implies(S.and_(det[i], det[j]), r >= x[i] - x[j]))
    if S.cond(S.count(det) > 0):
        y = x[det]
        S.ensure('last minus first detection', S.eq(r, S.fn('max', y) - S.fn('min', y)))


common('number of nights', 'NNightsMetric', nnights)
common('observed arc', 'ObsArcMetric', arc)


def trailed(t, m):
    return t['velocity'] >= 24.0 * m.psf_factor * t['seeingFwhmGeom'] / t['visitExposureTime']


common('trailed detections', 'HighVelocityMetric', lambda S, n, t, det, r, m: S.ensure(
    'number of detections longer than the trail limit', S.eq(r, S.count(det & trailed(t, m)))))


@contract('C14', 'peak brightness', K + 'PeakVMagMetric.run')
def peak(S):
    n = S.int('n', 1)
    t = S.table(appMagV=S.arr('v', n))
    r = mm.PeakVMagMetric().run(t, None, 20.)
    S.forall('not exceeded', n, lambda k: t['appMagV'][k] >= r)
    S.ensure('attained', S.exists(t['appMagV'] == r))


@contract('C14', 'activity windows', [K + 'ActivityOverTimeMetric.run', K + 'ActivityOverTimeMetric.__init__', VIS], bounded='counts over a computed list of windows', trials=2400)
def activity(S):
    n = S.int('n', 0)
    t, lim, det = obs(S, n)
    yr, w = S.choice('yr', [1.0, 2.0, 10.0]), S.choice('w', [30.0, 100.0, 365.0])
    m = mm.ActivityOverTimeMetric(w, snr_limit=lim, survey_years=yr)
    r = m.run(t, None, 20.)
    edges = [i * w for i in range(int(np.floor((yr * 365 + w / 2) / w - 1e-9)) + 1)]
    hit = 0
    for i, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        night = t['night']
        seen = det & (night >= a) & ((night <= b) if i == len(edges) - 2 else (night < b))
        hit = hit + S.ite(S.count(seen) > 0, 1, 0)
    if len(edges) > 1:
        S.ensure('fraction of the windows with a detection', S.eq(r * (len(edges) - 1), hit, rtol=1e-9))
        S.ensure('between zero and one', S.and_(r >= 0, r <= 1))


# ---- bounded: algorithms on sorted nights

def draw(S, n, **extra):
    """a concrete observation table in any order"""
    mjd = sorted(S.r.choice([S.r.uniform(0, 30), S.r.randint(0, 30) + S.r.choice([.1, .11, .125, .15, .2, .5])]) for _ in range(n))
    mjd = sorted(set(mjd))
    if S.r.random() < .5:
        S.r.shuffle(mjd)
    n = len(mjd)
    cols = dict(observationStartMJD=mjd, night=[math.floor(t) for t in mjd], SNR=[S.r.choice([4., 5., 8., 30.]) for _ in mjd],
                vis=[S.r.choice([0, 1, 1]) for _ in mjd], band=[S.r.choice('ugrizy') for _ in mjd], velocity=[S.r.choice([.1, .5, 2., 5.]) for _ in mjd],
                seeingFwhmGeom=[S.r.choice([.6, 1.]) for _ in mjd], visitExposureTime=[S.r.choice([15., 30.]) for _ in mjd], row=list(range(n)),
                ra=[S.r.uniform(0, 360) for _ in mjd], dec=[S.r.uniform(-90, 90) for _ in mjd], ec_lon=[S.r.uniform(0, 360) for _ in mjd],
                ec_lat=[S.r.uniform(-90, 90) for _ in mjd], solar_elong=[S.r.uniform(0, 180) for _ in mjd], geo_dist=[S.r.uniform(0, 5) for _ in mjd])
    cols.update({k: [f() for _ in mjd] for k, f in extra.items()})
    S.draws.update({k: list(v) for k, v in cols.items()})
    t = np.zeros(n, dtype=[(k, 'U1' if k == 'band' else float) for k in cols])
    for k, v in cols.items():
        t[k] = v
    lim = S.r.choice([None, 5., 6.])
    S.draws['limit'] = lim
    det = [bool(s >= lim) if lim is not None else v > 0 for s, v in zip(cols['SNR'], cols['vis'])]
    return t, lim, det


SORT = 'runs of equal nights found by sorting and binary search, checked against the definition'


@contract('C14', 'observations on nights with more than one', [K + 'NObsNoSinglesMetric.run', VIS], bounded=SORT, trials=2500)
def nosingles(S):
    t, lim, det = draw(S, S.r.randint(0, 12))
    nights = t['night'][np.array(det, bool)].tolist() if len(det) else []
    r = mm.NObsNoSinglesMetric(snr_limit=lim).run(t, None, 20.)
    S.ensure('detections whose night has another', r == sum(nights.count(x) > 1 for x in nights))


def chances(times, nights, nobs, tmin, tmax, nn, w):
    """the discovery opportunities, from the definition: nights with nobs detections in a span within the limits; nn such nights within the window"""
    good = []
    for x in sorted(set(nights)):
        ts = sorted(t for t, y in zip(times, nights) if y == x)
        if len(ts) < nobs:
            continue
        span = ts[-1] - ts[0]
        ok = tmin <= span <= tmax
        if not ok and span > tmax and len(ts) > nobs:
            ok = any(tmin <= ts[i + nobs - 1] - ts[i] <= tmax for i in range(len(ts) - nobs + 1))
        if ok:
            good.append((x, ts[0], ts[-1]))
    return [good[i:] for i in range(len(good) - nn + 1) if good[i + nn - 1][0] - good[i][0] <= w]


@contract('C14', 'discovery opportunities', [K + 'DiscoveryMetric.run', VIS], bounded=SORT, trials=6000)
def discovery(S):
    t, lim, det = draw(S, S.r.randint(0, 25))
    nobs, nn, w = S.r.choice([1, 2, 3]), S.r.choice([1, 2, 3]), S.r.choice([3, 9, 15])
    tmin, tmax = S.r.choice([0., .01]), S.r.choice([.05, .3])
    S.draws.update(nobs=nobs, nn=nn, w=w, tmin=tmin, tmax=tmax)
    m = mm.DiscoveryMetric(n_obs_per_night=nobs, t_min=tmin, t_max=tmax, n_nights_per_window=nn, t_window=w, snr_limit=lim)
    before = t.copy()
    r = m.run(t, None, 20.)
    d = np.array(det, bool)
    rows = sorted(np.where(d)[0].tolist(), key=lambda i: t['observationStartMJD'][i])
    want = chances(t['observationStartMJD'][d].tolist(), t['night'][d].tolist(), nobs, tmin, tmax, nn, w)
    S.ensure('observations not modified', bool(np.array_equal(t, before)))
    if r is None or not r['n_chances']:
        S.ensure('not found only when there is no opportunity', not want)
        return
    S.ensure('number of opportunities', r['n_chances'] == len(want))
    first = [rows[i] for i in range(len(rows)) if t['observationStartMJD'][rows[i]] == want[0][0][1]][0]
    last = max(e for x, s, e in want[0] if x - want[0][0][0] <= w)
    S.ensure('discovery starts with the first detection of its first night', rows[int(r['start'][0])] == first)
    S.ensure('discovery ends with the last detection of its last night', t['observationStartMJD'][rows[int(r['end'][0])]] == last)
    for name, cls, col in (('time', 'DiscoveryTimeMetric', 'observationStartMJD'), ('distance', 'DiscoveryDistanceMetric', 'geo_dist'),
                           ('velocity', 'DiscoveryVelocityMetric', 'velocity')):
        S.ensure('%s at discovery' % name, getattr(mm, cls)(m).run(t, None, 20., r) == t[col][first])
    S.ensure('time since the start of the survey', mm.DiscoveryTimeMetric(m, t_start=3.0).run(t, None, 20., r) == t['observationStartMJD'][first] - 3.0)
    S.ensure('position at discovery', tuple(mm.DiscoveryRadecMetric(m).run(t, None, 20., r)) == (t['ra'][first], t['dec'][first]))
    S.ensure('ecliptic position at discovery', tuple(mm.DiscoveryEclonlatMetric(m).run(t, None, 20., r)) == (t['ec_lon'][first], t['ec_lat'][first], t['solar_elong'][first]))
    S.ensure('chances', mm.DiscoveryNChancesMetric(m).run(t, None, 20., r) == len(want))


@contract('C14', 'magic discovery', [K + 'MagicDiscoveryMetric.run', VIS], bounded=SORT, trials=2600)
def magic(S):
    t, lim, det = draw(S, S.r.randint(0, 20))
    k, w = S.r.choice([1, 2, 3, 5]), S.r.choice([1, 3, 10])
    S.draws.update(k=k, w=w)
    nights = t['night'][np.array(det, bool)].tolist()
    want = sum(sum(a <= x < a + w for x in nights) >= k for a in set(nights))
    S.ensure('nights starting a window with enough detections', mm.MagicDiscoveryMetric(n_obs=k, t_window=w, snr_limit=lim).run(t, None, 20.) == want)


@contract('C14', 'first night with enough trailed detections', [K + 'HighVelocityNightsMetric.run', VIS], bounded=SORT, trials=2600)
def hvnights(S):
    t, lim, det = draw(S, S.r.randint(0, 20))
    k = S.r.choice([1, 2, 3])
    S.draws['k'] = k
    m = mm.HighVelocityNightsMetric(n_obs_per_night=k, snr_limit=lim)
    r = m.run(t, None, 20.)
    g = np.array(det, bool) & trailed(t, m)
    nights = t['night'][g].tolist()
    good = sorted(x for x in set(nights) if nights.count(x) >= k)
    S.ensure('first trailed detection of the first such night, else the bad value',
             r == (t['observationStartMJD'][g & (t['night'] == good[0])].min() if good else 0))


def clipped(t, det, mx):
    return np.where(np.array(det, bool), np.minimum(t['SNR'], mx), 0.)


@contract('C14', 'asteroid colours', [K + 'ColorAsteroidMetric.run'], bounded='flag over combinations of six bands', trials=2800)
def colours(S):
    t, lim, det = draw(S, S.r.randint(0, 40))
    lim = S.r.choice([None, 4.5, 6.])          # between the drawn values: the limit itself is documented as exclusive here, inclusive elsewhere
    det = (t['SNR'] > lim) if lim is not None else t['vis'] > 0
    S.draws['limit'] = lim
    wd, mx = S.r.choice([.5, 1., 2.]), S.r.choice([5., 20.])
    S.draws.update(wd=wd, mx=mx)
    r = mm.ColorAsteroidMetric(weight_det=wd, snr_max=mx, snr_limit=lim).run(t, None, 20.)
    c = clipped(t, det, mx)
    ok = {f for f in 'ugrizy' if c[t['band'] == f].sum() / mx > wd}
    g5 = len(ok & set('grizy'))
    want = 4 if len(ok) == 6 else 3 if g5 == 5 else 2 if g5 == 4 else int('g' in ok and bool(ok & set('ri')) and bool(ok & set('zy')))
    S.ensure('documented flag', r == want)


@contract('C14', 'outer solar system colours', [K + 'LightcurveColorOuterMetric.run', VIS], bounded='flag over combinations of six bands', trials=2600)
def outer(S):
    t, lim, det = draw(S, S.r.randint(0, 40))
    a, b = S.r.choice([3, 4]), S.r.choice([1, 2, 3])
    S.draws.update(a=a, b=b)
    r = mm.LightcurveColorOuterMetric(snr_limit=lim, num_req=a, num_sec_filt=b).run(t, None, 20.)
    d = t['band'][np.array(det, bool)].tolist()
    lc = [f for f in 'ugrizy' if d.count(f) >= a]
    sec = [f for f in 'ugrizy' if b <= d.count(f) and f not in lc]
    S.ensure('lightcurves, plus one for colour only', r == (len(lc) + (1 if sec else 0) if lc else 0))


@contract('C14', 'instantaneous colours', [K + 'InstantaneousColorMetric.run'], bounded=SORT, trials=2800)
def instant(S):
    t, lim, det = draw(S, S.r.randint(0, 20))
    k, h = S.r.choice([1, 2, 3]), S.r.choice([.5, 2., 10.])
    S.draws.update(k=k, h=h)
    r = mm.InstantaneousColorMetric(n_pairs=k, snr_limit=5., n_hours=h, b_one='g', b_two='r').run(t, None, 20.)
    g = t['observationStartMJD'][(t['SNR'] >= 5.) & (t['band'] == 'g')]
    q = t['observationStartMJD'][(t['SNR'] >= 5.) & (t['band'] == 'r')]
    close = sum(any(abs(x - y) < h / 24. for y in g) for x in q)
    if min((abs(abs(x - y) - h / 24.) for x in q for y in g), default=1) > 1e-9:
        S.ensure('enough observations with the other band within the time', r == int(close >= k and (t['SNR'] >= 5.).sum() >= 2 * k))


@contract('C14', 'lightcurve inversion', [K + 'LightcurveInversionAsteroidMetric.run'], bounded='sequence of thresholds on drawn lightcurves', trials=2500)
def inversion(S):
    t, lim, det = draw(S, S.r.randint(0, 40), ecLon=lambda: S.r.uniform(0, 300), phase=lambda: S.r.uniform(0, S.r.choice([4, 40])))
    lim = S.r.choice([None, 4.5, 6.])
    det = (t['SNR'] > lim) if lim is not None else t['vis'] > 0
    wd = S.r.choice([.3, 1., 2.])
    S.draws.update(wd=wd, limit=lim)
    r = mm.LightcurveInversionAsteroidMetric(weight_det=wd, snr_limit=lim, snr_max=20.).run(t, None, 20.)
    c = clipped(t, det, 20.)
    ok = 0
    for f in 'ugrizy':
        g = t['band'] == f
        v = g & (c > 0)
        if c[g].sum() / 20. >= wd and v.any():
            e = t['ecLon'][v]
            span = e.max() - e.min()
            x = (e - np.median(e)) % 360.
            if span >= 90 and np.mean(np.abs(x - x.mean())) >= span / 8 and np.ptp(t['phase'][v]) >= 5:
                ok = 1
    S.ensure('one when a band passes every criterion', r == ok)


@contract('C14', 'orbit activity', [K + 'ActivityOverPeriodMetric.run', VIS], bounded='trigonometric phase on drawn orbits', trials=2400)
def period(S):
    t, lim, det = draw(S, S.r.randint(0, 20))
    a, M0, ep, b = S.r.choice([.02, .05, .1, 1.]), S.r.uniform(0, 360), S.r.uniform(-100, 100), S.r.choice([10., 45., 100., 360.])
    usea = S.r.random() < .5
    orb = dict(meanAnomaly=M0, epoch=ep, **(dict(a=a) if usea else dict(q=a * .75, e=.25)))
    S.draws.update(orb=orb, bin=b)
    r = mm.ActivityOverPeriodMetric(b, snr_limit=lim).run(t, orb, 20.)
    edges = [x for x in np.arange(0, 360, b)] + [360.]
    ph = [(M0 + (x - ep) / (a ** 1.5 * 365.25) * 360.) % 360. for x, d in zip(t['observationStartMJD'], det) if d]
    if all(abs(p - e) > 1e-6 for p in ph for e in edges):
        hit = {int(np.searchsorted(edges, p, 'right')) for p in ph}
        S.ensure('fraction of the orbit with a detection', abs(r - len(hit) / (len(edges) - 1)) < 1e-9)


def peri_bins(t, det, a, tp, b, turn):
    edges = [x for x in np.arange(0, 360, b)] + [360.]
    ph = [math.degrees((x - tp) / (a ** 1.5 * 365.25) * turn % (2 * math.pi)) for x, d in zip(t['observationStartMJD'], det) if d]
    sharp = all(abs(p - e) > 1e-6 for p in ph for e in edges)
    return len({int(np.searchsorted(edges, p, 'right')) for p in ph}) / (len(edges) - 1), sharp


@contract('C14', 'orbit activity, phase from the time of perihelion', [K + 'ActivityOverPeriodMetric.run', VIS], bounded='trigonometric phase on drawn orbits', trials=2000)
def period_peri(S):
    t, lim, det = draw(S, S.r.randint(0, 20))
    a, tp, b = S.r.choice([.02, .05, .1, 1.]), S.r.uniform(-100, 100), S.r.choice([10., 45., 100., 360.])
    S.draws.update(a=a, tp=tp, bin=b)
    r = mm.ActivityOverPeriodMetric(b, snr_limit=lim).run(t, dict(q=a * .75, e=.25, tPeri=tp), 20.)
    (w1, s1), (w2, s2) = peri_bins(t, det, a, tp, b, 2 * math.pi), peri_bins(t, det, a, tp, b, 1.)
    if s1 and s2:
        # w2: the recorded finding (phase in orbits taken for radians), see KNOWN_FINDINGS.txt
        S.ensure('fraction of the orbit with a detection, up to the recorded finding', min(abs(r - w1), abs(r - w2)) < 1e-9)


@contract('C14', 'orbit activity over one whole orbit', [K + 'ActivityOverPeriodMetric.run'], bounded='one orbit: a=1 au observed monthly for a year', trials=1)
def period_one(S):
    t = np.zeros(12, dtype=[('observationStartMJD', float), ('SNR', float)])
    t['observationStartMJD'], t['SNR'] = 10. + 365.25 / 12 * np.arange(12), 30.
    r = mm.ActivityOverPeriodMetric(90., snr_limit=5.).run(t, dict(q=1., e=0., tPeri=0.), 20.)
    S.ensure('every quarter of the orbit is covered', abs(r - 1) < 1e-9)


@contract('C14', 'previously known objects', [K + 'KnownObjectsMetric.run', K + 'KnownObjectsMetric._pick_obs'], bounded='random picks replaced by a recorded sequence', trials=2400)
def known(S):
    n = S.r.randint(0, 15)
    t = np.zeros(n, dtype=[('MJD(UTC)', float), ('Elongation', float), ('appMagV', float)])
    t['MJD(UTC)'] = [S.r.choice([10., 20., 30.]) + S.r.randint(-9, 9) for _ in range(n)]
    t['Elongation'] = [S.r.choice([50., 100., 150.]) for _ in range(n)]
    t['appMagV'] = [S.r.choice([18., 20., 21., 23.]) for _ in range(n)]
    S.draws.update(table=t.tolist())
    eff = [S.r.choice([0, 1]) for _ in range(4)]
    th = [S.r.choice([18., 20., 22.]) for _ in range(4)]
    S.draws.update(eff=eff, th=th)
    m = mm.KnownObjectsMetric(elong_thresh=100., v_mag_thresh1=th[0], eff1=eff[0], t_switch1=10., v_mag_thresh2=th[1], eff2=eff[1], t_switch2=20.,
                              v_mag_thresh3=th[2], eff3=eff[2], t_switch3=30., v_mag_thresh4=th[3], eff4=eff[3])
    st = np.random.get_state()
    np.random.seed(S.r.randint(0, 10 ** 6))
    try:
        r = m.run(t, None, 20.)
    finally:
        np.random.set_state(st)
    ok = []
    for x, e, v in t.tolist():
        k = sum(x >= s for s in (10., 20., 30.))
        if e >= 100. and v <= th[k] and eff[k]:
            ok.append(x)
    S.ensure('earliest bright observation away from the Sun (efficiency zero or one)', r == (min(ok) if ok else m.badval))


# ---- population weights and completeness

def hgrid(S):
    n = S.int('n', 2)
    h = S.arr('h', n, order='strict', lo=5, hi=30)
    return n, h


for fname in ('power_law_dndh', 'neo_dndh_granvik', 'neo_dndh_grav', 'pha_dndh_granvik', 'pha_dndh_grav'):
    @contract('C14', 'population model ' + fname, Z + fname)
    def _dndh(S, fname=fname):
        n, h = hgrid(S)
        old = S.snapshot(h)
        r = getattr(ms, fname)(h)
        S.ensure('one weight for each brightness', S.eq(S.size(r), n))
        S.forall('weights are positive', n, lambda k: r[k] > 0)
        S.unchanged('brightness grid', h, old)


@contract('C14', 'power law slope', Z + 'power_law_dndh')
def slope(S):
    n, h = hgrid(S)
    a, no, ho = S.real('a', .05, 1), S.real('no', .5, 100), S.real('ho', 5, 30)
    r = ms.power_law_dndh(h, hindex=a, no=no, ho=ho)
    j = S.int('j', 0, n - 2)
    S.ensure('number in a bin of the grid', S.eq(r[j], no * S.p10(a * (h[j] - ho)) * (h[j + 1] - h[j]), rtol=1e-9))
    S.ensure('number in the last bin', S.eq(r[n - 1], no * S.p10(a * (h[n - 1] - ho)) * (h[n - 1] - h[n - 2]), rtol=1e-9))


def weights(S, n):
    w = S.arr('w', n, lo=0, lo_open=True, hi=100)
    return w, (lambda h, **kw: w)


@contract('C14', 'weighted running mean', Z + 'integrate_over_h', safety=False)
def integrate(S):
    n = S.int('n', 1)
    h = S.arr('h', n)
    v = S.arr('v', n, lo=0, hi=1, near=[0, 1])
    w, f = weights(S, n)
    r = ms.integrate_over_h(v, h, f)
    j = S.int('j', 0, n - 1)
    S.ensure('total weight is positive', S.sum(w[:j + 1]) > 0)
    S.ensure('running sum over running weight', S.eq(r[j] * S.sum(w[:j + 1]), S.sum(v[:j + 1] * w[:j + 1]), rtol=1e-9, atol=1e-12))
    S.ensure('one for each brightness', S.eq(S.size(r), n))
    S.ensure('the running sum of found objects is between zero and all', S.and_(S.sum(v[:j + 1] * w[:j + 1]) >= 0, S.sum(v[:j + 1] * w[:j + 1]) <= S.sum(w[:j + 1]) * (1 if S.symbolic else 1 + 1e-12)))
    S.ensure('between zero and one', S.and_(r[j] >= 0, r[j] <= (1 if S.symbolic else 1 + 1e-12)))


@contract('C14', 'running number of objects', Z + 'sum_over_h')
def running(S):
    n = S.int('n', 1)
    h = S.arr('h', n)
    v = S.arr('v', n, lo=0, hi=1)
    w, f = weights(S, n)
    r = ms.sum_over_h(v, h, f)
    j = S.int('j', 0, n - 1)
    S.ensure('running sum', S.eq(r[j], S.sum(v[:j + 1] * w[:j + 1]), rtol=1e-9, atol=1e-9))
    S.ensure('never falls', S.implies(j > 0, r[j] >= r[S.ite(j > 0, j - 1, 0)]))


@contract('C14', 'population options reach the model', [Z + 'integrate_over_h', Z + 'sum_over_h'])
def options(S):
    n, h = hgrid(S)
    v = S.arr('v', n, lo=0, hi=1)
    a = S.real('a', .05, 1)
    seen = []

    def f(hh, **kw):
        seen.append((hh is h, kw))
        return S.arr('w', n, lo=1, hi=2)
    if S.bool('integrate'):
        ms.integrate_over_h(v, h, f, hindex=a)
    else:
        ms.sum_over_h(v, h, f, hindex=a)
    S.ensure('asked once on the given grid', len(seen) == 1 and seen[0][0])
    S.ensure('with the given options', list(seen[0][1]) == ['hindex'] and seen[0][1]['hindex'] is a)


def table_m(S, n, k, vals):
    d = np.array([[S.r.choice(vals) for _ in range(k)] for _ in range(n)], float).reshape(n, k)
    m = np.array([[S.r.random() < .2 for _ in range(k)] for _ in range(n)], bool).reshape(n, k)
    S.draws.update(data=d.tolist(), mask=m.tolist())
    return ma.MaskedArray(d, m, fill_value=0)


def law(h, a):
    w = np.append(np.diff(h), h[-1] - h[-2])
    return 10. ** (a * (h - h.min())) * w


@contract('C14', 'completeness of a cloned population', Z + 'MoCompletenessMetric.run', bounded='two-dimensional masked tables are outside the array model', trials=2500)
def completeness(S):
    n, k = S.r.randint(1, 6), S.r.randint(2, 6)
    v = table_m(S, n, k, [0, 1, 2, 5])
    h = np.sort(np.array(S.r.sample(range(15, 28), k), float))
    cum, a, th = S.r.random() < .5, S.r.choice([.1, .33, .8]), S.r.choice([1, 2])
    S.draws.update(h=h.tolist(), cum=cum, a=a, th=th)
    before, bh = v.copy(), h.copy()
    r = ms.MoCompletenessMetric(threshold=th, cumulative=cum, hindex=a).run(v, h)
    frac = np.array([sum((not v.mask[i, j]) and v.data[i, j] >= th for i in range(n)) / n for j in range(k)])
    if cum:
        w = law(h, a)
        frac = np.cumsum(frac * w) / np.cumsum(w)
    S.ensure('found fraction at each brightness, or its running weighted mean', bool(np.allclose(r['value'], frac, rtol=1e-9, atol=1e-12)))
    S.ensure('between zero and one', bool((r['value'] >= 0).all() and (r['value'] <= 1 + 1e-12).all()))
    S.ensure('labels', [str(x) for x in r['name']] == [('H <= %f' if cum else 'H = %f') % x for x in h])
    S.ensure('inputs not modified', bool(np.array_equal(v.data, before.data) and np.array_equal(v.mask, before.mask) and np.array_equal(h, bh)))


@contract('C14', 'completeness of objects each with its own brightness', Z + 'MoCompletenessMetric.run', bounded='histogram over computed bins', trials=2500)
def completeness1(S):
    n = S.r.randint(2, 30)
    v = table_m(S, n, 1, [0, 1, 2, 5, 21])
    h = np.array([S.r.choice([20., 20.25, 20.5, 20.75, 22., 23.5]) + S.r.choice([0, .01]) for _ in range(n)])
    if S.r.random() < .3:
        h = 20 + (h - 20) / 8
    nb, mh = S.r.choice([2, 5, 8]), S.r.choice([.5, 1.])
    S.draws.update(h=h.tolist(), nb=nb, mh=mh)
    r = ms.MoCompletenessMetric(threshold=1, nbins=nb, min_hrange=mh, cumulative=False).run(v, h)
    rng = max(h.max() - h.min(), mh)
    lo = (h.max() + h.min()) / 2 - rng / 2
    edges = lo + np.arange(nb + 1) * rng / nb
    S.ensure('as many bins as asked', len(r) == nb)
    if min(abs(x - e) for x in h for e in edges[1:-1]) < 1e-6:
        return
    for j in range(nb):
        g = (h > edges[j] - 1e-9) & (h < edges[j + 1] + 1e-9)
        found = g & (~v.mask[:, 0]) & (v.data[:, 0] >= 1)
        if (np.abs(h - edges[-1]) < 1e-9).any() and j == nb - 1:
            continue          # an object on the outermost edge may fall off by rounding
        S.ensure('fraction of the objects of that brightness which were found', abs(r['value'][j] - (found.sum() / g.sum() if g.any() else 0)) < 1e-9)
    S.ensure('between zero and one', bool((r['value'] >= 0).all() and (r['value'] <= 1).all()))


@contract('C14', 'completeness with time', Z + 'MoCompletenessAtTimeMetric.run', bounded='two-dimensional masked tables are outside the array model', trials=2400)
def attime(S):
    n, k = S.r.randint(1, 6), S.r.randint(2, 5)
    v = table_m(S, n, k, [-1., 0., 1., 1.5, 2., 3.5, 4., 9.])
    h = np.sort(np.array(S.r.sample(range(15, 28), k), float))
    times = np.array([0., 1., 2., 4., 5.][:S.r.randint(2, 5)])
    hv, cum, a = S.r.choice([None, 18., 20.2, 40.]), S.r.random() < .5, S.r.choice([.1, .33, .8])
    S.draws.update(h=h.tolist(), times=times.tolist(), hv=hv, cum=cum, a=a)
    m = ms.MoCompletenessAtTimeMetric(times, hval=hv, cumulative=cum, hindex=a)
    r = m.run(v, h)
    j = k // 2 if hv is None else int(np.argmin(np.abs(h - hv)))
    want = []
    for t in times:
        f = np.array([sum((not v.mask[i, c]) and times[0] <= v.data[i, c] and (v.data[i, c] < t or (t == times[-1] and v.data[i, c] == t)) for i in range(n)) / n for c in range(k)])
        if cum:
            w = law(h, a)
            f = np.cumsum(f * w) / np.cumsum(w)
        want.append(f[j])
    S.ensure('fraction found by each time', bool(np.allclose(r['value'], want, rtol=1e-9, atol=1e-12)))
    S.ensure('never falls, between zero and one', bool((np.diff(r['value']) >= -1e-12).all() and (r['value'] >= 0).all() and (r['value'] <= 1 + 1e-12).all()))


@contract('C14', 'value at a brightness', [Z + 'ValueAtHMetric.run', Z + 'MeanValueAtHMetric.run', Z + 'TotalNumberSSO.run'], bounded='two-dimensional tables are outside the array model', trials=300)
def ath(S):
    k = S.r.randint(2, 6)
    h = np.sort(np.array(S.r.sample(range(15, 28), k), float))
    v = np.array([[S.r.choice([0, .25, .5, 1.]) for _ in range(k)] for _ in range(S.r.randint(1, 3))])
    mark = S.r.choice([14., 16., 20.5, 22., 27.])
    S.draws.update(h=h.tolist(), v=v.tolist(), mark=mark)

    def at(y):
        for a, b, p, q in zip(h, h[1:], y, y[1:]):
            if a <= mark <= b:
                return p + (q - p) * (mark - a) / (b - a)
    inside = h[0] <= mark <= h[-1]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        one, mean = ms.ValueAtHMetric(h_mark=mark).run(v, h), ms.MeanValueAtHMetric(h_mark=mark).run(v, h)
    ok = lambda got, want: (got is None) if want is None else (got is not None and abs(got - want) < 1e-9)  # noqa
    S.ensure('interpolated value, none outside the range or for several objects', ok(one, at(v[0]) if inside and len(v) == 1 else None))
    S.ensure('interpolated mean over objects', ok(mean, at(v.mean(axis=0)) if inside else None))
    if inside and len(v) == 1:
        w = 10. ** (.3 * (h - 18.5)) * 150 + 2500 * 10 ** (.92 * (h - 23.2))
        d = np.append(np.diff(h), h[-1] - h[-2]) / .1
        S.ensure('total number of objects', bool(np.isclose(ms.TotalNumberSSO(h_mark=mark).run(v[0], h), at(np.cumsum(v[0] * w * d)), rtol=1e-9)))


# ---- every object, every brightness

@contract('C14', 'discovery chances of every object and what is derived from them', ['rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundleGroup._run_compatible', 'rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundle.set_child_bundles',
                                                      'rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundle.compute_summary_stats', 'rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundle._setup_metric_values'],
          bounded='whole pipeline over files of orbits and observations', trials=25)
def children(S):
    import pandas as pd
    import rubin_sim.maf.metric_bundles.mo_metric_bundle as mb
    import rubin_sim.maf.stackers.mo_stackers as st
    from rubin_sim.maf.slicers.mo_slicer import MoObjSlicer
    import rubin_sim.maf.metrics.mo_summary_metrics as sm
    r = S.r
    d = tempfile.mkdtemp(prefix='c14')
    try:
        nobj = r.randint(1, 3)
        H0 = [r.choice([18., 20.]) for _ in range(nobj)]
        pd.DataFrame(dict(obj_id=range(nobj), q=1., e=.1, inc=2., Omega=3., argPeri=4., tPeri=60000., epoch=60000., H=H0, g=.15)).to_csv(os.path.join(d, 'orb.txt'), sep=' ', index=False)
        n = r.randint(0, 60)
        o = np.zeros(n, dtype=[('obj_id', int)] + [(c, float) for c in ('magV', 'dmag_color', 'dmag_trail', 'dmag_detect', 'fiveSigmaDepth', 'night', 'observationStartMJD', 'velocity')] + [('band', 'U1')])
        for i in range(n):
            mjd = r.randint(0, 9) + r.choice([.1, .12, .15, .3, r.random()])
            o[i] = (r.randrange(nobj), r.uniform(21, 24.5), .2, 0, 0, 24.5, math.floor(mjd), mjd, .1, r.choice('gr'))
        np.savez(os.path.join(d, 'obs.npz'), object_observations=o)
        hr = np.array(sorted(r.sample([16., 18., 20., 22.], r.randint(1, 3))))
        S.draws.update(H=H0, obs=o.tolist(), hrange=hr.tolist())
        sl = MoObjSlicer(h_range=hr)
        sl.setup_slicer(os.path.join(d, 'orb.txt'), obs_file=os.path.join(d, 'obs.npz'))
        lim, w = r.choice([5., 8.]), r.choice([3, 6])
        out = os.path.join(d, 'out')

        def metric():
            return mm.DiscoveryMetric(n_obs_per_night=2, t_min=0, t_max=.1, n_nights_per_window=2, t_window=w, snr_limit=lim)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pair = mb.MoMetricBundle(metric(), sl, constraint=None, stacker_list=[st.MoMagStacker(loss_col='dmag_detect')], run_name='r', info_label='x',
                                     child_metrics={'N_Chances': mm.DiscoveryNChancesMetric(metric()), 'N_Obs': mm.DiscoveryNObsMetric(metric()), 'Time': mm.DiscoveryTimeMetric(metric(), t_start=r.choice([None, 1.]))})
            pair.child_bundles['N_Chances'].set_summary_metrics([sm.MoCompletenessMetric(threshold=1, nbins=20, cumulative=False)])
            mb.MoMetricBundleGroup({'d': pair}, out_dir=out, verbose=False).run_all()
        S.ensure('every bundle written', len([f for f in os.listdir(out) if f.endswith('.npz')]) == 4)
        found = np.zeros((nobj, len(hr)))
        stk = st.MoMagStacker(loss_col='dmag_detect')
        for a in range(nobj):
            x = o[o['obj_id'] == a]
            for b, hv in enumerate(hr):
                v = None
                if len(x):
                    f = pd.DataFrame(x).copy()
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        rec = stk.run(f.to_records(index=False), H0[a], hv)
                    v = metric().run(rec, None, hv)
                    v = None if not isinstance(v, dict) else v
                S.ensure('a chance is recorded exactly when there is one', bool(pair.metric_values.mask[a, b]) == (v is None))
                if v is not None:
                    found[a, b] = v['n_chances']
                for k, c in pair.child_bundles.items():
                    if v is None:
                        S.ensure('nothing derived without a chance', bool(c.metric_values.mask[a, b]))
                        continue
                    y = c.metric.run(rec, None, hv, v)
                    if y == c.metric.badval:
                        S.ensure('bad value masked: ' + k, bool(c.metric_values.mask[a, b]))
                    else:
                        S.ensure('derived from the chances of this object: ' + k, not c.metric_values.mask[a, b] and c.metric_values.data[a, b] == y)
        if len(hr) > 1 and (found > 0).any():
            sv = [x for k, x in pair.child_bundles['N_Chances'].summary_values.items() if 'Completeness' in k][0]
            S.ensure('completeness of the found objects', np.allclose(sv['value'], (found >= 1).mean(axis=0)))
    finally:
        shutil.rmtree(d)


@contract('C14', 'every object at every brightness', ['rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundleGroup._run_compatible', 'rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundleGroup._find_compatible',
                                                      'rubin_sim.maf.metric_bundles.mo_metric_bundle:MoMetricBundleGroup.run_constraint', 'rubin_sim.maf.slicers.mo_slicer:MoObjSlicer._slice_obs'],
          bounded='whole pipeline over files of orbits and observations', trials=25)
def pipeline(S):
    import pandas as pd
    import rubin_sim.maf.metric_bundles.mo_metric_bundle as mb
    import rubin_sim.maf.stackers.mo_stackers as st
    from rubin_sim.maf.slicers.mo_slicer import MoObjSlicer
    d = tempfile.mkdtemp(prefix='c14')
    try:
        nobj = S.r.randint(1, 4)
        strid = S.r.random() < .5
        ids = ['ob%d' % i if strid else i * 3 + 1 for i in range(nobj)]
        H0 = [S.r.choice([18., 20., 21.5]) for _ in ids]
        orb = pd.DataFrame(dict(obj_id=ids, q=1., e=.1, inc=2., Omega=3., argPeri=4., tPeri=60000., epoch=60000., H=H0, g=.15))
        orb.to_csv(os.path.join(d, 'orb.txt'), sep=' ', index=False)
        n = S.r.randint(0, 25)
        o = np.zeros(n, dtype=[('obj_id', 'U6' if strid else int)] + [(c, float) for c in ('magV', 'dmag_color', 'dmag_trail', 'dmag_detect', 'fiveSigmaDepth', 'night', 'observationStartMJD', 'velocity')] + [('band', 'U1')])
        for i in range(n):
            mjd = S.r.uniform(0, 20)
            o[i] = (S.r.choice(ids), S.r.uniform(20, 26), .2, S.r.choice([0, .5]), S.r.choice([0, 1.]), 24.5, math.floor(mjd), mjd, .1, S.r.choice('gr'))
        np.savez(os.path.join(d, 'obs.npz'), object_observations=o)
        hr = np.array(S.r.sample([16., 18., 20., 22., 24.], S.r.randint(1, 3))) if S.r.random() < .6 else None
        S.draws.update(ids=ids, H=H0, obs=o.tolist(), hrange=None if hr is None else hr.tolist())
        sl = MoObjSlicer(h_range=hr)
        sl.setup_slicer(os.path.join(d, 'orb.txt'), obs_file=os.path.join(d, 'obs.npz'))
        cons = S.r.choice([None, 'band == "g"', 'magV < 23'])
        bs, spec = {}, {}
        for i in range(S.r.randint(1, 4)):
            loss = S.r.choice(['dmag_trail', 'dmag_detect'])
            lim = S.r.choice([5., 20.])
            m = mm.NObsMetric(snr_limit=lim, metric_name='m%d' % i, badval=S.r.choice([0, -1]))
            c = S.r.choice([None, cons])
            bs[i] = mb.MoMetricBundle(m, sl, constraint=c, stacker_list=[st.MoMagStacker(loss_col=loss)], info_label='x', run_name='r%d' % i)
            spec[i] = (loss, lim, c, m.badval)
        S.draws['bundles'] = [list(map(str, x)) for x in spec.values()]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mb.MoMetricBundleGroup(bs, out_dir=os.path.join(d, 'out'), verbose=False).run_all()
        for i, (loss, lim, c, bad) in spec.items():
            keep = o
            if c == 'band == "g"':
                keep = o[o['band'] == 'g']
            elif c:
                keep = o[o['magV'] < 23]
            mv = bs[i].metric_values
            S.ensure('one value for each object and brightness', mv.shape == (nobj, 1 if hr is None else len(hr)))
            for a in range(nobj):
                x = keep[keep['obj_id'] == ids[a]]
                for b, hv in enumerate([H0[a]] if hr is None else hr):
                    am = x['magV'] + x['dmag_color'] + x[loss] + hv - H0[a]
                    snr = st.SNRStacker()._run(pd.DataFrame(dict(appMag=am, fiveSigmaDepth=x['fiveSigmaDepth'], SNR=0., vis=0.)).to_records(), 0., 0.)['SNR'] if len(x) else np.zeros(0)
                    want = int((snr >= lim).sum())
                    if len(x) == 0 or want == bad:
                        S.ensure('nothing to report is masked', bool(mv.mask[a, b]))
                    else:
                        S.ensure('detections of this object at this brightness, with the stackers of the bundle', not mv.mask[a, b] and mv.data[a, b] == want)
    finally:
        shutil.rmtree(d)
