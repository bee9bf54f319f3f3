"""C05: survey-level summaries follow their definitions."""
import math
import healpy as hp
import numpy as np
from pyver.api import contract
from pyver.sym import SV
import rubin_sim.maf.metric_bundles.metric_bundle as mb
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.metrics.summary_metrics as su
import rubin_sim.maf.metrics.area_summary_metrics as am

M = 'rubin_sim.maf.metrics.summary_metrics:'
A = 'rubin_sim.maf.metrics.area_summary_metrics:'
FULLSKY = 4 * math.pi * (180.0 / math.pi) ** 2


class Nside:
    def __init__(self, npix):
        self.npix = npix


_npix2nside, _nside2pixarea = hp.npix2nside, hp.nside2pixarea


def npix2nside(n):
    """assumed contract of healpy: equal-area pixels, npix of them cover the sky"""
    return Nside(n) if isinstance(n, SV) else _npix2nside(n)


def nside2pixarea(nside, degrees=False):
    if isinstance(nside, Nside):
        assert degrees
        return FULLSKY / nside.npix
    return _nside2pixarea(nside, degrees=degrees)


HP = {'healpy:npix2nside': npix2nside, 'healpy:nside2pixarea': nside2pixarea}
HPA = ['healpy: npix equal-area pixels cover the whole sky (npix2nside, nside2pixarea)']


def pixels(S):
    n = S.int('n', 12, None, gen=lambda r: r.choice([12, 12, 48]))
    if not S.symbolic:
        S.assume(hp.isnpixok(n))
    return n


def values(S, n, near=None):
    return S.arr('x', n, lo=0, hi=40, near=near)


@contract('C05', 'FOArea', M + 'FOArea.run', size=24)
def foarea(S):
    n = S.int('n', 0)
    nv = S.real('n_visit', 1, 30)
    x = S.arr('metricdata', n, lo=0, hi=40, near=[nv] if not S.symbolic else None)
    nside = S.choice('nside', [1, 4, 64])
    asky = S.choice('asky', [18000.0, 25000.0, 3437.75])
    norm = S.bool('norm')
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    m = su.FOArea(n_visit=nv, asky=asky, nside=nside, norm=norm)
    r = m.run(ds)
    c = S.count(x >= nv)
    pix = _nside2pixarea(nside, degrees=True)
    want = c * pix / asky if norm else c * pix
    S.ensure('area with at least the required visits', S.eq(r, S.ite(c > 0, want, float(m.badval))))
    S.unchanged('values not modified', ds, old)


@contract('C05', 'FONv', M + 'FONv.run', size=24)
def fonv(S):
    n = S.int('n', 0)
    x = S.arr('metricdata', n, lo=0, hi=40)
    nside = S.choice('nside', [1, 2, 4])
    asky = S.choice('asky', [18000.0, 25000.0, 3437.7, 859.4])
    norm = S.bool('norm')
    nvisit = S.choice('nvisit', [825, 10])
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    m = su.FONv(asky=asky, nside=nside, n_visit=nvisit, norm=norm)
    r = m.run(ds)
    pix = _nside2pixarea(nside, degrees=True)
    need = -int((-asky) // pix)
    med, mn = r['value'][0], r['value'][1]
    S.ensure('names', bool(r['name'][0] == 'MedianNvis') and bool(r['name'][1] == 'MinNvis'))
    scale = float(nvisit) if norm else 1.0
    if S.cond(n < need):
        S.ensure('too little area: bad value', S.and_(S.eq(med, float(m.badval)), S.eq(mn, float(m.badval))))
    else:
        best = S.fn('sort', x)[n - need:]
        S.ensure('median over the best area', S.eq(med * scale, S.fn('median', best)))
        v = mn * scale
        S.ensure('minimum over the best area', S.eq(v, S.fn('sort', x)[n - need]))
        if not S.symbolic:
            S.ensure('at least the area has the minimum', S.count(x >= v * (1 - 1e-12)) >= need)
            S.ensure('less than the area has more', S.count(x > v * (1 + 1e-12)) < need)
    S.unchanged('values not modified', ds, old)


@contract('C05', 'FootprintFractionMetric', M + 'FootprintFractionMetric.run', stubs=HP, assumes=HPA)
def footprint(S):
    n = pixels(S)
    fp = S.arr('footprint', n, lo=-1, hi=3, near=[0])
    x = S.arr('x', n, lo=-1, hi=6, near=[0, 1, 2])
    nm = S.choice('n_min', [1, 2])
    S.assume(S.exists(fp > 0))
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    m = su.FootprintFractionMetric(footprint=fp, n_min=nm)
    r = m.run(ds)
    S.ensure('fraction of the footprint with enough visits', S.eq(r * S.count(fp > 0), S.count((fp > 0) & (x >= nm))))
    S.ensure('between zero and one', S.and_(r >= 0, r <= 1))
    S.ensure('pixels without a value count as zero visits', m.mask_val == 0)
    S.unchanged('values not modified', ds, old)


@contract('C05', 'NormalizeMetric', M + 'NormalizeMetric.run')
def normalize(S):
    n = S.int('n', 0)
    x = S.arr('x', n)
    nv = S.choice('norm', [1, 2, 0.5, 825])
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    r = su.NormalizeMetric(norm_val=nv).run(ds)
    if S.cond(n == 1):
        S.ensure('one value: the number', S.eq(r * nv, x[0]))
    else:
        S.ensure('every value divided', S.eq(r * nv, x))
    S.unchanged('values not modified', ds, old)


@contract('C05', 'ZeropointMetric', M + 'ZeropointMetric.run')
def zeropoint(S):
    n = S.int('n', 0)
    x = S.arr('x', n)
    zp = S.real('zp')
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    r = su.ZeropointMetric(zp=zp).run(ds)
    if S.cond(n == 1):
        S.ensure('one value: the number', S.eq(r, x[0] + zp))
    else:
        S.ensure('every value shifted', S.eq(r, x + zp))
    S.unchanged('values not modified', ds, old)


@contract('C05', 'IdentityMetric (summary)', M + 'IdentityMetric.run')
def identity(S):
    n = S.int('n', 0)
    x = S.arr('x', n)
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    r = su.IdentityMetric(col='metricdata').run(ds)
    if S.cond(n == 1):
        S.ensure('one value: the number', S.eq(r, x[0]))
    else:
        S.ensure('the values', S.eq(r, x))
    S.unchanged('values not modified', ds, old)


@contract('C05', 'AreaThresholdMetric', A + 'AreaThresholdMetric.run', stubs=HP, assumes=HPA)
def areathreshold(S):
    n = pixels(S)
    lo, hi = S.real('lo', 0, 6), S.real('hi', 0, 6)
    x = S.arr('x', n, lo=-1, hi=7, near=None if S.symbolic else [lo, hi])
    which = S.choice('which', ['none', 'lower', 'upper', 'both'])
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    m = am.AreaThresholdMetric(lower_threshold=lo if which in ('lower', 'both') else None,
                               upper_threshold=hi if which in ('upper', 'both') else None)
    r = m.run(ds)
    c = {'none': lambda: n, 'lower': lambda: S.count(x > lo), 'upper': lambda: S.count(x < hi),
         'both': lambda: S.count((x > lo) & (x < hi))}[which]()
    S.ensure('sky fraction strictly within the thresholds, in square degrees', S.eq(r * n, FULLSKY * c, atol=1e-6))
    S.ensure('pixels without a value never count', m.mask_val is not None and math.isnan(m.mask_val))
    S.unchanged('values not modified', ds, old)


@contract('C05', 'AreaThresholdMetric (gaps in the map)', A + 'AreaThresholdMetric.run', bounded='missing pixels are NaN, which the real-number model does not represent')
def areathreshold_nan(S):
    n = S.choice('n', [12, 48])
    x = S.arr('x', n, lo=-1, hi=7)
    miss = S.arr('miss', n, 'b')
    x = np.where(miss, np.nan, x)
    lo, hi = sorted([S.real('lo', -1, 6), S.real('hi', -1, 6)])
    which = S.choice('which', ['lower', 'upper', 'both'])
    m = am.AreaThresholdMetric(lower_threshold=lo if which != 'upper' else None, upper_threshold=hi if which != 'lower' else None)
    r = m.run(S.table(metricdata=x))
    ok = [(not b) and (which == 'upper' or v > lo) and (which == 'lower' or v < hi) for v, b in zip(x, miss)]
    S.ensure('missing pixels are not counted', S.eq(r * n, FULLSKY * sum(ok), atol=1e-6))


def area_summary_spec(S, n, x, area, dec, r, need):
    """x: the finite values"""
    v = sorted((float(t) for t in x), reverse=dec)[:need]
    return v


@contract('C05', 'AreaSummaryMetric', A + 'AreaSummaryMetric.run', stubs=HP, assumes=HPA)
def areasummary(S):
    n = pixels(S)
    x = S.arr('x', n, lo=-8, hi=8)
    dec = S.bool('decreasing')
    area = S.real('area', 10, 50000)
    ds = S.table(metricdata=x)
    old = S.snapshot(ds)
    m = am.AreaSummaryMetric(area=area, decreasing=dec)
    r = m.run(ds)
    # need = smallest number of pixels that covers the area
    if S.symbolic:
        need = S.fn('ceil', S.div(area, S.div(FULLSKY, n)))
        import z3
        need = SV(z3.ToInt(need.t))
        need = S.ite(need < n, need, n)
        w = S.fn('sort', x)
        S.ensure('value reached over the best area', S.eq(r, w[n - need] if dec else w[need - 1]))
    else:
        need = min(int(math.ceil(area * n / FULLSKY)), n)
        S.ensure('value reached over the best area', S.eq(r, area_summary_spec(S, n, x, area, dec, r, need)[-1]))
        S.ensure('at least the area reaches it', S.count(x >= r if dec else x <= r) >= need)
        S.ensure('less than the area exceeds it', S.count(x > r if dec else x < r) < need)
    S.unchanged('values not modified', ds, old)


@contract('C05', 'AreaSummaryMetric (gaps in the map, any reduction)', A + 'AreaSummaryMetric.run',
          bounded='missing pixels are NaN, which the real-number model does not represent')
def areasummary_nan(S):
    n = S.choice('n', [12, 48])
    x = S.arr('x', n, lo=-8, hi=8)
    miss = S.arr('miss', n, 'b')
    S.assume(not bool(np.all(miss)))
    x = np.where(miss, np.nan, x)
    dec = S.bool('decreasing')
    area = S.real('area', 10, 50000)
    red = S.choice('reduce', [None, np.mean, np.median, np.sum])
    m = am.AreaSummaryMetric(area=area, decreasing=dec, reduce_func=red)
    r = m.run(S.table(metricdata=x))
    need = min(int(math.ceil(area * n / FULLSKY)), n)
    v = area_summary_spec(S, n, x[~miss], area, dec, r, need)
    want = (min(v) if dec else max(v)) if red is None else red(v)
    S.ensure('reduction over the best pixels that have a value', S.eq(r, want))
    S.ensure('pixels without a value are marked missing', math.isnan(m.mask_val))


class _Sum(metrics.BaseMetric):
    """a summary whose value is an arbitrary function of (the sum and number of) the values it is given"""

    def __init__(self, name, f, mask_val=None):
        super().__init__(col='metricdata', metric_name=name)
        self.f = f
        if mask_val is not None:
            self.mask_val = mask_val

    def run(self, data_slice, slice_point=None):
        d = data_slice['metricdata']
        return self.f(d.sum() + 1000 * d.size)


@contract('C05', 'MetricBundle.compute_summary_stats', 'rubin_sim.maf.metric_bundles.metric_bundle:MetricBundle.compute_summary_stats')
def summarystats(S):
    n = S.int('n', 1)
    x = S.arr('x', n)
    mask = S.arr('mask', n, 'b')
    mv = S.real('mask_val', gen=lambda r: float(r.randint(-3, 3)))
    f, g = S.ufun('f'), S.ufun('g')
    slicer = slicers.UniSlicer()
    order = S.bool('order')
    ms = [_Sum('A', f), _Sum('B', g, mv), _Sum('C', f)]
    if order:
        ms = ms[::-1]
    b = S.obj(mb.MetricBundle, summary_metrics=ms, summary_values=None, slicer=slicer,
              metric_values=S.masked(x, mask, -666.0), metric=ms[0])
    b.compute_summary_stats()
    keep = x[~mask]
    filled = S.ite(mask, mv, x)
    h = lambda d: S.sum(d) + 1000 * S.size(d)
    v = b.summary_values
    S.ensure('one value per summary', sorted(v) == ['A', 'B', 'C'])
    none = S.eq(S.size(keep), 0)
    S.ensure('masked slices are ignored', S.eq(v['A'], S.ite(none, float(slicer.badval), f(h(keep)))))
    S.ensure('masked slices are ignored, also after a summary that asks for a filled map',
             S.eq(v['C'], S.ite(none, float(slicer.badval), f(h(keep)))))
    S.ensure('a summary that names a fill value gets the filled map', S.eq(v['B'], g(h(filled))))
