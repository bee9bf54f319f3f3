"""C04: basic statistics are the statistics they are named after."""
import math
import numpy as np
from pyver.api import contract
import rubin_sim.maf.metrics.simple_metrics as sm
import rubin_sim.maf.utils.maf_utils as mu

M = 'rubin_sim.maf.metrics.simple_metrics:'


def column(S, n=None, lo=1, kind='r', **kw):
    n = S.int('n', lo, None)
    x = S.arr('x', n, kind, **kw)
    y = S.arr('other', n)
    ds = S.table(col=x, other=y)
    return n, x, ds, S.snapshot(ds)


def simple(name, cls, spec, lo=1, **kw):
    @contract('C04', name, M + cls + '.run', **kw)
    def body(S):
        n, x, ds, old = column(S, lo=lo)
        m = getattr(sm, cls)(col='col')
        r = m.run(ds)
        spec(S, n, x, r)
        S.unchanged('visits not modified', ds, old)
    return body


simple('MaxMetric', 'MaxMetric', lambda S, n, x, r: (
    S.forall('not exceeded', n, lambda k: x[k] <= r), S.ensure('attained', S.exists(x == r))))
simple('MinMetric', 'MinMetric', lambda S, n, x, r: (
    S.forall('lower bound', n, lambda k: x[k] >= r), S.ensure('attained', S.exists(x == r))))
simple('AbsMaxMetric', 'AbsMaxMetric', lambda S, n, x, r: (
    S.forall('not exceeded', n, lambda k: abs(x[k]) <= r), S.ensure('attained', S.exists(abs(x) == r))))


def _range(S, n, x, r):
    S.forall2('at least every difference', n, lambda i, j: S.and_(r >= x[i] - x[j], r >= x[j] - x[i]))
    S.ensure('non-negative', r >= 0)
    S.ensure('largest minus smallest', S.eq(r, S.fn('max', x) - S.fn('min', x)))


simple('FullRangeMetric', 'FullRangeMetric', _range)
simple('MeanMetric', 'MeanMetric', lambda S, n, x, r: S.ensure('n times the mean is the sum', S.eq(r * n, S.sum(x))))
simple('AbsMeanMetric', 'AbsMeanMetric',
       lambda S, n, x, r: S.ensure('n times the mean is the sum of absolute values', S.eq(r * n, S.sum(abs(x)))))
simple('SumMetric', 'SumMetric', lambda S, n, x, r: S.ensure('is the sum', S.eq(r, S.sum(x))), lo=0)
simple('CountMetric', 'CountMetric', lambda S, n, x, r: S.ensure('is the number of visits', S.eq(r, n)), lo=0)


def _median(S, x):
    if S.symbolic:
        return S.fn('median', x)
    v = sorted(float(t) for t in x)
    h = len(v) // 2
    return v[h] if len(v) % 2 else (v[h - 1] + v[h]) / 2


def _pct(S, x, q):
    if S.symbolic:
        return S.fn('percentile', x, q)
    v = sorted(float(t) for t in x)
    p = (len(v) - 1) * float(q) / 100.0
    i = int(math.floor(p + 1e-12))
    if i >= len(v) - 1:
        return v[-1]
    return v[i] + (v[i + 1] - v[i]) * (p - i)


simple('MedianMetric', 'MedianMetric', lambda S, n, x, r: S.ensure('is the median', S.eq(r, _median(S, x))))
simple('AbsMedianMetric', 'AbsMedianMetric',
       lambda S, n, x, r: S.ensure('is the median of absolute values', S.eq(r, _median(S, abs(x)))))


def _rms(S, n, x, r):
    mu_ = S.div(S.sum(x), n)
    S.ensure('non-negative', r >= 0)
    S.ensure('squared is the mean squared deviation', S.eq(r * r * n, S.sum((x - mu_) * (x - mu_)), atol=1e-7))


simple('RmsMetric', 'RmsMetric', _rms)
simple('RobustRmsMetric', 'RobustRmsMetric', lambda S, n, x, r: S.ensure(
    'interquartile range over 1.349', S.eq(r * 1.349, _pct(S, x, 75.0) - _pct(S, x, 25.0))))


@contract('C04', 'RelRmsMetric', M + 'RelRmsMetric.run')
def relrms(S):
    n, x, ds, old = column(S, lo_open=True) if False else column(S)
    med = _median(S, x)
    S.assume(S.or_(med > 0.01, med < -0.01))
    r = sm.RelRmsMetric(col='col').run(ds)
    mu_ = S.div(S.sum(x), n)
    S.ensure('relative rms', S.eq(r * med * r * med * n, S.sum((x - mu_) * (x - mu_)), atol=1e-7))
    S.ensure('sign of the median', S.implies(med > 0, r >= 0))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'CountUniqueMetric', M + 'CountUniqueMetric.run')
def countunique(S):
    n, x, ds, old = column(S, lo=0)
    r = sm.CountUniqueMetric(col='col').run(ds)
    u = S.fn('unique', x) if S.symbolic else sorted(set(x.tolist()))
    S.ensure('number of distinct values', S.eq(r, S.size(u)))
    S.ensure('between one and n', S.and_(r <= n, S.implies(n > 0, r >= 1)))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'UniqueRatioMetric', M + 'UniqueRatioMetric.run')
def uniqueratio(S):
    n, x, ds, old = column(S)
    r = sm.UniqueRatioMetric(col='col').run(ds)
    u = S.fn('unique', x) if S.symbolic else sorted(set(x.tolist()))
    S.ensure('distinct values over visits', S.eq(r * n, S.size(u)))
    S.ensure('at most one', r <= 1)
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'CountRatioMetric', M + 'CountRatioMetric.run')
def countratio(S):
    n, x, ds, old = column(S, lo=0)
    nv = S.real('norm', 0.25, None)
    m = sm.CountRatioMetric(col='col', norm_val=1.0)
    m.norm_val = nv
    r = m.run(ds)
    S.ensure('visits over the norm', S.eq(r * nv, n))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'CountSubsetMetric', M + 'CountSubsetMetric.run')
def countsubset(S):
    n, x, ds, old = column(S, lo=0)
    v = S.real('v', near=x)
    r = sm.CountSubsetMetric(col='col', subset=v).run(ds)
    S.ensure('number equal to the value', S.eq(r, S.count(x == v)))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'CountSubsetMetric (band names)', M + 'CountSubsetMetric.run')
def countsubset_s(S):
    n = S.int('n', 0)
    b = S.arr('b', n, 's', pool=['u', 'g', 'r', 'i', 'z', 'y'])
    ds = S.table(col=b)
    r = sm.CountSubsetMetric(col='col', subset='g').run(ds)
    S.ensure('number equal to the value', S.eq(r, S.count(b == 'g')))


@contract('C04', 'CountBeyondThreshold', M + 'CountBeyondThreshold.run')
def countbeyond(S):
    n, x, ds, old = column(S, lo=0)
    lo = S.real('lo', near=x)
    hi = S.real('hi', near=x)
    which = S.choice('which', ['none', 'lower', 'upper', 'both'])
    m = sm.CountBeyondThreshold(col='col', lower_threshold=lo if which in ('lower', 'both') else None,
                                upper_threshold=hi if which in ('upper', 'both') else None)
    r = m.run(ds)
    want = {'none': lambda: n, 'lower': lambda: S.count(x > lo), 'upper': lambda: S.count(x < hi),
            'both': lambda: S.count((x > lo) & (x < hi))}[which]()
    S.ensure('number strictly beyond the thresholds', S.eq(r, want))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'CountExplimMetric', M + 'CountExplimMetric.run')
def countexplim(S):
    n = S.int('n', 0)
    x = S.arr('x', n, lo=0, hi=100, near=[15, 20, 30, 29, 45, 44, 46, 60, 19.75])
    ds = S.table(visitExposureTime=x)
    old = S.snapshot(ds)
    mn = S.choice('min_exp', [20.0, 10.0])
    r = sm.CountExplimMetric(min_exp=mn, expected_exp=30.0).run(ds)
    want = S.sum(S.ite(x < mn, 0.0, S.fn('round', x / 30.0)))
    S.ensure('sum of rounded exposure counts, short ones as zero', S.eq(r, want))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'MaxPercentMetric', M + 'MaxPercentMetric.run')
def maxpercent(S):
    n, x, ds, old = column(S)
    r = sm.MaxPercentMetric(col='col').run(ds)
    S.ensure('percent equal to the maximum', S.eq(r * n, 100.0 * S.count(x == S.fn('max', x))))
    S.ensure('positive', r > 0)
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'AbsMaxPercentMetric', M + 'AbsMaxPercentMetric.run')
def absmaxpercent(S):
    n, x, ds, old = column(S)
    r = sm.AbsMaxPercentMetric(col='col').run(ds)
    S.ensure('percent whose absolute value is that of the maximum', S.eq(r * n, 100.0 * S.count(abs(x) == abs(S.fn('max', x)))))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'BinaryMetric', M + 'BinaryMetric.run')
def binary(S):
    n, x, ds, old = column(S, lo=0)
    m = sm.BinaryMetric(col='col')
    r = m.run(ds)
    S.ensure('one where there is a visit', S.eq(r, S.ite(n > 0, 1.0, float(m.badval))))


for _nm, _above in (('FracAboveMetric', True), ('FracBelowMetric', False)):
    def _mk(nm, above):
        @contract('C04', nm, M + nm + '.run')
        def frac(S):
            n, x, ds, old = column(S)
            c = S.real('cutoff', near=x)
            sc = S.real('scale', 0.25, 8)
            r = getattr(sm, nm)(col='col', cutoff=c, scale=sc, metric_name='f').run(ds)
            S.ensure('scaled fraction', S.eq(r * n, sc * S.count(x >= c if above else x <= c)))
            S.unchanged('visits not modified', ds, old)
    _mk(_nm, _above)


@contract('C04', 'PercentileMetric', M + 'PercentileMetric.run')
def percentile(S):
    n, x, ds, old = column(S)
    q = S.real('q', 0, 100)
    r = sm.PercentileMetric(col='col', percentile=q, metric_name='p').run(ds)
    S.ensure('is the percentile', S.eq(r, _pct(S, x, q)))
    S.ensure('within the data', S.and_(r <= S.fn('max', x) + 1e-9, r >= S.fn('min', x) - 1e-9))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'NoutliersNsigmaMetric', M + 'NoutliersNsigmaMetric.run')
def noutliers(S):
    n, x, ds, old = column(S)
    ns = S.real('ns', -4, 4, near=[0, 1, 2, -1])
    r = sm.NoutliersNsigmaMetric(col='col', n_sigma=ns, metric_name='n').run(ds)
    mean = S.div(S.sum(x), n)
    std = S.sqrt(S.div(S.sum((x - mean) * (x - mean)), n)) if S.symbolic else float(np.std(x))
    mean = mean if S.symbolic else float(np.mean(x))
    b = mean + ns * std
    S.ensure('visits beyond n sigma', S.eq(r, S.ite(ns >= 0, S.count(x > b), S.count(x < b))))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'RealMeanMetric', M + 'RealMeanMetric.run')
def realmean(S):
    n, x, ds, old = column(S)
    r = sm.RealMeanMetric(col='col').run(ds)
    S.ensure('mean of the finite values', S.eq(r * n, S.sum(x)))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'RealMeanMetric (with nan)', M + 'RealMeanMetric.run', bounded='nan and infinity are not modelled by the verifier')
def realmean_nan(S):
    n, x, ds, old = column(S)
    bad = S.arr('bad', n, 'b')
    S.assume(S.count(~bad) > 0)
    ds['col'] = np.where(bad, S.choice('nanval', [np.nan, np.inf, -np.inf]), x)
    r = sm.RealMeanMetric(col='col').run(ds)
    S.ensure('mean of the finite values', S.eq(r * S.count(~bad), S.sum(x[~bad])))


@contract('C04', 'PassMetric', M + 'PassMetric.run')
def passm(S):
    n, x, ds, old = column(S, lo=0)
    r = sm.PassMetric(cols=['col']).run(ds)
    S.ensure('the slice itself', r is ds)
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'Coaddm5Metric', [M + 'Coaddm5Metric.run', M + 'Coaddm5Metric.coadd'])
def coaddm5(S):
    n = S.int('n', 0)
    x = S.arr('x', n, lo=15, hi=30)
    b = S.arr('b', n, 's', pool=['u', 'g', 'r', 'i', 'z', 'y'])
    ds = S.table(fiveSigmaDepth=x, Filter=b)
    old = S.snapshot(ds)
    which = S.choice('which', [None, 'g'])
    m = sm.Coaddm5Metric(filter_name=which)
    if which == 'g':
        S.assume(S.count(b == 'g') > 0)
    r = m.run(ds)
    if S.cond(n == 0):
        S.ensure('no visits: bad value', S.eq(r, m.badval))
    else:
        sel = x if which is None else x[b == 'g']
        S.ensure('inverse-variance coadd of the depths', S.eq(S.p10(0.8 * r), S.sum(S.p10(0.8 * sel)), rtol=1e-6))
        S.forall('never shallower than any of its visits', S.size(sel), lambda k: r >= sel[k] - (0 if S.symbolic else 1e-9))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'coadd_m5', 'rubin_sim.maf.utils.maf_utils:coadd_m5')
def coadd_fn(S):
    n = S.int('n', 1)
    x = S.arr('x', n, lo=15, hi=30)
    old = S.snapshot(x)
    r = mu.coadd_m5(x)
    S.ensure('inverse-variance coadd of the depths', S.eq(S.p10(0.8 * r), S.sum(S.p10(0.8 * x)), rtol=1e-6))
    S.unchanged('input not modified', x, old)


# ---------------------------------------------------------------- circular statistics
@contract('C04', 'MeanAngleMetric', M + 'MeanAngleMetric.run', timeout_ms=30000)
def meanangle(S):
    n, x, ds, old = column(S)
    r = sm.MeanAngleMetric(col='col').run(ds)
    c, s = S.fn('cos', S.fn('radians', x)), S.fn('sin', S.fn('radians', x))
    mx, my = S.div(S.sum(c), n), S.div(S.sum(s), n)
    rad2 = mx * mx + my * my
    if not S.symbolic:
        S.assume(abs(rad2 - 0.01) > 1e-6)
    if S.cond(rad2 < 0.01):
        S.ensure('isotropic angles give 180 degrees', S.eq(r, 180.0))
    else:
        S.ensure('in [0, 360)', S.and_(r >= 0, r < 360.0 if S.symbolic else r <= 360.0))
        ang = S.fn('radians', r)
        if S.symbolic:
            a = S.fn('arctan2', my, mx) if False else None
        S.ensure('direction of the mean vector',
                 S.eq(S.fn('sin', ang) * S.sqrt(rad2), my, atol=1e-9) if not S.symbolic else _same_turn(S, r, my, mx))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'MeanAngleMetric without direction', M + 'MeanAngleMetric.run', bounded='draws around the limit of a mean vector of one tenth')
def meanangle_iso(S):
    r = S.r
    m, a = r.randint(2, 6), r.uniform(0, 360)
    x = np.array([(a + 360. * k / m + r.uniform(0, 1) * r.choice([0, 3, 12, 25])) % 360 for k in range(m)])
    got = sm.MeanAngleMetric(col='col').run(S.table(col=x))
    c, s = np.mean(np.cos(np.radians(x))), np.mean(np.sin(np.radians(x)))
    rad = math.hypot(c, s)
    S.assume(abs(rad - .1) > 1e-6)
    w = 180. if rad < .1 else math.degrees(math.atan2(s, c)) % 360
    S.ensure('180 degrees where the mean vector is shorter than one tenth, its direction otherwise', min(abs(got - w), 360 - abs(got - w)) < 1e-6)


def _same_turn(S, deg, y, x):
    """deg (degrees) differs from atan2(y, x) by whole turns"""
    from pyver.npmodel import bmap, BIN2
    a = bmap(BIN2['arctan2'], y, x)
    turns = (deg * S.pi / 180.0 - a) / (2.0 * S.pi)
    return S.eq(S.real_of(S.floor(turns)), turns)


@contract('C04', 'AngularSpreadMetric', M + 'AngularSpreadMetric.run')
def angspread(S):
    n, x, ds, old = column(S)
    p = S.real('period', 0.5, 400)
    r = sm.AngularSpreadMetric(col='col', period=p).run(ds)
    a = S.div(x * 2.0 * S.pi, p)
    mx, my = S.div(S.sum(S.fn('cos', a)), n), S.div(S.sum(S.fn('sin', a)), n)
    S.ensure('one minus the mean resultant length', S.eq((1.0 - r) * (1.0 - r), mx * mx + my * my, atol=1e-9))
    S.ensure('at most one', r <= 1.0 + (0 if S.symbolic else 1e-12))
    S.unchanged('visits not modified', ds, old)


BND = 'the largest gap on the circle is found by sorting and locating a maximum among ties; its contract is checked on inputs only'


def _gapspec(x):
    v = sorted(float(t) for t in x)
    g = [b - a for a, b in zip(v, v[1:])] + [360.0 - v[-1] + v[0]]
    return 360.0 - max(g)


@contract('C04', 'FullRangeAngleMetric', [M + 'FullRangeAngleMetric.run', M + '_rotate_angles'], bounded=BND)
def fullrangeangle(S):
    n = S.int('n', 1)
    base = S.choice('base', [0.0, -180.0])
    x = S.arr('x', n, lo=base, hi=base + 360, hi_open=True, near=[base, base + 350, base + 10, base + 180])
    ds = S.table(col=x)
    old = S.snapshot(ds)
    r = sm.FullRangeAngleMetric(col='col').run(ds)
    S.ensure('full turn minus the largest gap', S.eq(r, _gapspec(x), atol=1e-8))
    S.unchanged('visits not modified', ds, old)


@contract('C04', 'RmsAngleMetric', [M + 'RmsAngleMetric.run', M + '_rotate_angles'], bounded=BND)
def rmsangle(S):
    n = S.int('n', 1)
    base = S.choice('base', [0.0, -180.0])
    x = S.arr('x', n, lo=base, hi=base + 360, hi_open=True, near=[base, base + 350, base + 10, base + 180])
    v = sorted(float(t) for t in x)
    g = [b - a for a, b in zip(v, v[1:])] + [360.0 - v[-1] + v[0]]
    S.assume(sum(abs(t - max(g)) < 1e-6 for t in g) == 1)
    ds = S.table(col=x)
    old = S.snapshot(ds)
    r = sm.RmsAngleMetric(col='col').run(ds)
    k = g.index(max(g))
    start = v[(k + 1) % len(v)]
    S.ensure('rms of the angles measured from the end of the largest gap', S.eq(r, np.std([(t - start) % 360.0 for t in x]), atol=1e-7))
    S.unchanged('visits not modified', ds, old)
