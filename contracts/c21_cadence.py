"""C21: binned, cumulative, seasonal, phase and colour cadence metrics describe the visits they are given."""
import math
from collections import Counter
from unittest import mock
import numpy as np
from scipy import stats
from pyver.api import contract
from pyver import npmodel
from pyver.sym import lift
import rubin_scheduler.utils as rsu
import rubin_sim.maf.metrics as mm
import rubin_sim.maf.metrics.vector_metrics as vm
import rubin_sim.maf.metrics.season_metrics as sm
import rubin_sim.maf.metrics.phase_gap_metric as pg
import rubin_sim.maf.metrics.visit_groups_metric as vg
import rubin_sim.maf.metrics.color_slope_metrics as cs
import rubin_sim.maf.metrics.string_count_metric as sc
import rubin_sim.maf.metrics.exgal_m5 as ex
import rubin_sim.maf.metrics.weak_lensing_systematics_metric as wl
import rubin_sim.maf.metrics.optimal_m5_metric as om
import rubin_sim.maf.metrics.surfb_metric as sb

V = 'rubin_sim.maf.metrics.vector_metrics:'
SE = 'rubin_sim.maf.metrics.season_metrics:'
PG = 'rubin_sim.maf.metrics.phase_gap_metric:'
VG = 'rubin_sim.maf.metrics.visit_groups_metric:'
CS = 'rubin_sim.maf.metrics.color_slope_metrics:'
MM = 'rubin_sim.maf.metrics.'


class Dust:
    """stands for DustValues, whose coefficients are C11's subject and need the bandpass files"""
    ax1 = {'u': 5., 'g': 3.75, 'r': 2.5, 'i': 2., 'z': 1.5, 'y': 1.25}
    r_v = 3.1

    def __init__(self, *a, **k):
        pass


class Coefs(dict):
    def __getitem__(self, k):
        if not hasattr(k, 't'):
            return dict.__getitem__(self, k)
        r = lift(0.)
        for b, v in self.items():
            r = npmodel.ite(npmodel.truth(k == b), lift(v), r)
        return r


class SymDust(Dust):
    ax1 = Coefs(Dust.ax1)


# ---- scipy's binned statistic, for the statistics whose definition is a count or a sum (symbolic run only)
class Stats:
    @staticmethod
    def binned_statistic(x, values, statistic='mean', bins=10, range=None):
        if statistic not in ('count', 'sum') or range is not None:
            raise npmodel.Unsupported('binned statistic')
        x, b = npmodel.arrize(x), npmodel.arrize(bins).positional()
        npmodel.need_sorted(b)
        nb = b.dom.n - 1
        k = npmodel.fresh('h', npmodel.I)
        xb = npmodel.to_real(npmodel.num(npmodel.SV(x.body, x.kind)))
        lo, hi = (npmodel.to_real(npmodel.num(b.get(i))) for i in (k, k + 1))
        z3 = npmodel.z3
        g = z3.And(x.bag(), xb >= lo, z3.Or(xb < hi, z3.And(k == nb - 1, xb <= hi)))
        if statistic == 'count':
            t = npmodel.to_real(npmodel.cnt_bag(g))
        else:
            v = npmodel.arrize(values)
            t = npmodel.sum_bag(npmodel.to_real(npmodel.num(npmodel.SV(npmodel.align_to(v, x.dom), v.kind))), g)
        return npmodel.SArr(npmodel.rng(z3.simplify(nb)), npmodel.subst(t, k, npmodel.IV)), bins, None


def binned(S, lo=1):
    n = S.int('n', lo)
    x = S.arr('x', n, lo=0, hi=16)
    nb = S.int('nb', 2)
    b = S.arr('bins', nb, lo=-2, hi=18, order='strict', near=list(range(0, 17)))
    return n, x, nb, b


def in_bin(S, x, b, k, nb):
    return (x >= b[k]) & ((x < b[k + 1]) | ((x == b[k + 1]) & S.eq(k, nb - 2)))


@contract('C21', 'HistogramMetric', [V + 'HistogramMetric.run', V + 'VectorMetric.__init__'], stubs={'rubin_sim.maf.metrics.vector_metrics:stats': Stats},
          assumes=['scipy binned_statistic: the count or sum of the values in each half-open bin, last edge included'])
def histogram(S):
    n, x, nb, b = binned(S)
    v = S.arr('v', n)
    st = S.choice('statistic', ['count', 'sum'])
    m = vm.HistogramMetric(bins=b, bin_col='x', col='v', statistic=st)
    r = m.run(S.table(v=v, x=x))
    S.ensure('shape', S.eq(m.shape, nb - 1))
    S.ensure('one value per bin', S.eq(S.size(r), nb - 1))
    S.forall('statistic of the visits in the bin', nb - 1, lambda k: S.eq(
        r[k], S.count(in_bin(S, x, b, k, nb)) if st == 'count' else S.sum(S.ite(in_bin(S, x, b, k, nb), v, v * 0))))


@contract('C21', 'HistogramMetric (other statistics)', V + 'HistogramMetric.run', bounded='medians and extremes per bin')
def histogram_other(S):
    n, x, nb, b = binned(S)
    v = S.arr('v', n)
    st = S.choice('statistic', ['mean', 'median', 'min', 'max'])
    r = vm.HistogramMetric(bins=b, bin_col='x', col='v', statistic=st).run(S.table(v=v, x=x))
    for k in range(nb - 1):
        w = v[in_bin(S, x, b, k, nb)]
        S.ensure('statistic of the visits in the bin', S.eq(r[k], getattr(np, st)(w)) if len(w) else math.isnan(r[k]))


@contract('C21', 'HistogramM5Metric', V + 'HistogramM5Metric.run', stubs={'rubin_sim.maf.metrics.vector_metrics:stats': Stats},
          assumes=['scipy binned_statistic: the sum of the values in each half-open bin, last edge included'])
def histogram_m5(S):
    n, x, nb, b = binned(S)
    v = S.arr('v', n, lo=20, hi=27)
    m = vm.HistogramM5Metric(bins=b, bin_col='x', m5_col='v')
    r = m.run(S.table(v=v, x=x))
    S.ensure('one value per bin', S.eq(S.size(r), nb - 1))
    k = S.int('k', 0, nb - 2)
    ok = in_bin(S, x, b, k, nb)
    f = S.p10(0.8 * v)
    if S.cond(S.count(ok) > 0):
        S.ensure('coadded depth of the visits in the bin', S.eq(r[k], 1.25 * S.log10(S.sum(S.ite(ok, f, f * 0)))))
    else:
        S.ensure('bin without visits: bad value', S.eq(r[k], m.badval))


@contract('C21', 'AccumulateCountMetric', V + 'AccumulateCountMetric.run')
def accumulate_count(S):
    n, x, nb, b = binned(S)
    m = vm.AccumulateCountMetric(bins=b, bin_col='x', col='x')
    r = m.run(S.table(x=x))
    S.ensure('one value per bin', S.eq(S.size(r), nb - 1))
    k = S.int('k', 0, nb - 2)
    c = S.count(x <= b[k + 1])
    S.ensure('number of visits up to the end of the bin', S.eq(r[k], S.ite(S.eq(c, 0), m.badval, c)))


@contract('C21', 'AccumulateMetric', V + 'AccumulateMetric.run', bounded='running totals of an arbitrary function')
def accumulate(S):
    n, x, nb, b = binned(S)
    v = S.arr('v', n)
    f, g = S.choice('f', [(np.add, math.fsum), (np.maximum, max), (np.minimum, min)])
    m = vm.AccumulateMetric(bins=b, bin_col='x', col='v', function=f)
    r = m.run(S.table(v=v, x=x))
    S.ensure('one value per bin', len(r) == nb - 1)
    for k in range(nb - 1):
        w = v[x <= b[k + 1]]
        S.ensure('function of the visits up to the end of the bin', S.eq(r[k], g([float(q) for q in w]) if len(w) else m.badval))


@contract('C21', 'AccumulateM5Metric', V + 'AccumulateM5Metric.run', bounded='running totals in a sorted order')
def accumulate_m5(S):
    n, x, nb, b = binned(S)
    v = S.arr('v', n, lo=20, hi=27)
    m = vm.AccumulateM5Metric(bins=b, bin_col='x', m5_col='v')
    r = m.run(S.table(v=v, x=x))
    S.ensure('one value per bin', len(r) == nb - 1)
    for k in range(nb - 1):
        w = v[x <= b[k + 1]]
        S.ensure('coadded depth of the visits up to the end of the bin',
                 S.eq(r[k], 1.25 * math.log10(math.fsum(10 ** (0.8 * q) for q in w)) if len(w) else m.badval))


@contract('C21', 'AccumulateUniformityMetric', V + 'AccumulateUniformityMetric.run', bounded='running maximum of a deviation')
def accumulate_uniformity(S):
    n = S.int('n', 1)
    x = S.arr('night', n, 'i', lo=0, hi=9)
    K = S.choice('K', [10, 12, 20])
    given = S.bool('given')
    b = np.arange(0, K + 1) - .5 if given else None
    m = vm.AccumulateUniformityMetric(bins=b, survey_length=11.5 / 365.25)
    if not given:
        K = 11
    t = S.table(observationStartMJD=x * 1., night=x)
    r = m.run(t)
    S.ensure('one value per night', len(r) == K)
    worst = 0.
    for k in range(K):
        worst = max(worst, abs(sum(x <= k) / n - k / (K - 1)))
        S.ensure('largest deviation from uniform so far', S.eq(r[k], 1. if n == 1 else worst))


# ---- seasons
@contract('C21', 'find_season_edges', SE + 'find_season_edges')
def season_edges(S):
    n = S.int('n', 1)
    s = S.arr('seasons', n, lo=-2, hi=6, order='weak')
    first, last = sm.find_season_edges(s)
    m = S.size(first)
    S.ensure('as many ends as starts', S.eq(S.size(last), m))
    f = S.floor(s)
    j = S.int('j', 0, m - 1)
    i = S.int('i', 0, n - 1)
    a, b = first[j], last[j]
    S.ensure('start is a visit', S.and_(a >= 0, a < n))
    S.ensure('end is not before the start', a <= b)
    S.ensure('end is a visit', b < n)
    S.assume(S.and_(a >= 0, a <= b, b < n))
    g = (lambda x: f.get(x.t)) if S.symbolic else (lambda x: f[x])
    S.ensure('visits from start to end have the same season', S.implies(S.and_(a <= i, i <= b), S.eq(g(i), g(a))))
    S.ensure('no other visit has it', S.implies(S.eq(g(i), g(a)), S.and_(a <= i, i <= b)))


def season_draws(S):
    """visits of a point over several seasons"""
    r = S.r
    n = r.randint(1, 9)
    ra = math.radians(r.choice([r.uniform(0, 360), r.uniform(0, 30)]))
    mjd0 = rsu.SURVEY_START_MJD
    base = sorted(r.sample([0, 30, 31, 33, 365, 368, 380, 400, 730, 735, 736, 1100, 1130], r.randint(1, 4)))
    day = np.array([r.choice(base) + r.choice([0, 0, 1, 2, 4]) for _ in range(n)])
    mjd = mjd0 + day + np.array([r.random() * .4 + .1 for _ in range(n)])
    e = np.array([r.choice([30., 30., 15., 16., 20., 17.]) for _ in range(n)])
    s = np.floor(rsu.calc_season(math.degrees(ra), mjd)).astype(int)
    return n, ra, day, mjd, e, s


SEAS = 'season numbers come from rubin_scheduler and the reduction over seasons is arbitrary'


@contract('C21', 'SeasonLengthMetric', [SE + 'SeasonLengthMetric.run', SE + 'SeasonLengthMetric.__init__'], bounded=SEAS)
def season_length(S):
    n, ra, day, mjd, e, s = season_draws(S)
    cut = S.choice('cut', [16, 20, 40])
    red = S.choice('reduce', ['median', 'mean', 'max', 'min', 'size'])
    m = sm.SeasonLengthMetric(min_exp_time=cut, reduce_func=getattr(np, red))
    r = m.run(S.table(observationStartMJD=mjd, visitExposureTime=e), {'ra': ra, 'dec': 0.})
    g = e > cut
    ls = [mjd[g & (s == k)].max() - mjd[g & (s == k)].min() for k in np.unique(s[g])]
    S.ensure('statistic of last minus first visit of each season', S.eq(r, getattr(np, red)(ls) if ls else m.badval))


@contract('C21', 'CampaignLengthMetric', [SE + 'CampaignLengthMetric.run', SE + 'CampaignLengthMetric.__init__'], bounded=SEAS)
def campaign(S):
    n, ra, day, mjd, e, s = season_draws(S)
    cut = S.choice('cut', [16, 20, 40])
    m = sm.CampaignLengthMetric(min_exp_time=cut)
    r = m.run(S.table(observationStartMJD=mjd, visitExposureTime=e), {'ra': ra, 'dec': 0.})
    g = e > cut
    S.ensure('number of seasons with visits', S.eq(r, len(set(s[g])) if g.any() else m.badval))


def night_gaps(day, s, g):
    out = []
    for k in np.unique(s[g]):
        d = np.diff(np.unique(day[g & (s == k)]))
        out.append(float(np.mean(d)) if len(d) else 0.)
    return out


@contract('C21', 'MeanCampaignFrequencyMetric', [SE + 'MeanCampaignFrequencyMetric.run', SE + 'MeanCampaignFrequencyMetric.__init__'], bounded=SEAS)
def frequency(S):
    n, ra, day, mjd, e, s = season_draws(S)
    cut = S.choice('cut', [16, 20, 40])
    m = sm.MeanCampaignFrequencyMetric(min_exp_time=cut)
    r = m.run(S.table(observationStartMJD=mjd, visitExposureTime=e, night=day), {'ra': ra, 'dec': 0.})
    g = e > cut
    S.ensure('mean over seasons of the mean time between observed nights', S.eq(r, np.mean(night_gaps(day, s, g)) if g.any() else m.badval))


@contract('C21', 'TdcMetric', [SE + 'TdcMetric.run', SE + 'TdcMetric.__init__'] + [SE + 'TdcMetric.reduce_' + k for k in ('accuracy', 'precision', 'rate', 'cadence', 'season', 'campaign')], bounded=SEAS)
def tdc(S):
    n, ra, day, mjd, e, s = season_draws(S)
    b = S.arr('band', n, 's', pool=['u', 'g', 'r', 'i'])
    m5 = S.arr('m5', n, lo=20, hi=26)
    ebv = S.real('ebv', 0, 1)
    cuts = S.choice('cuts', [None, {'u': 21., 'g': 22., 'r': 20., 'i': 30.}])
    nrm = S.choice('norms', [dict(), dict(cad_norm=2., sea_norm=3., camp_norm=7.)])
    with mock.patch.object(sm, 'DustValues', Dust):
        m = sm.TdcMetric(mag_cuts=cuts, **nrm)
    r = m.run(S.table(observationStartMJD=mjd, night=day, band=b, fiveSigmaDepth=m5), {'ra': ra, 'dec': 0., 'ebv': ebv})
    lim = cuts or {'u': 22.7, 'g': 24.1, 'r': 23.7, 'i': 23.1}
    ax = Dust.ax1
    g = np.array([m5[i] - ax[b[i]] * ebv > lim[b[i]] for i in range(n)])
    if not g.any():
        S.ensure('no deep visit: bad value', S.eq(r, m.badval))
        return
    sea = float(np.median([mjd[g & (s == k)].max() - mjd[g & (s == k)].min() for k in np.unique(s[g])])) / 30.
    cad = float(np.mean(night_gaps(day, s, g)))
    camp = len(set(s[g]))
    if sea == 0 or cad == 0:
        S.ensure('no cadence: bad value', S.eq(r, m.badval))
        return
    cn, sn, pn = (nrm.get(k, d) for k, d in (('cad_norm', 3.), ('sea_norm', 4.), ('camp_norm', 5.)))
    S.ensure('cadence in days', S.eq(m.reduce_cadence(r), cad))
    S.ensure('season in months', S.eq(m.reduce_season(r), sea))
    S.ensure('campaign in seasons', S.eq(m.reduce_campaign(r), camp))
    S.ensure('accuracy', S.eq(m.reduce_accuracy(r), .06 * (sn / sea) * (pn / camp) ** 1.1))
    S.ensure('precision', S.eq(m.reduce_precision(r), 4. * (cad / cn) ** .7 * (sn / sea) ** .3 * (pn / camp) ** .6))
    S.ensure('rate', S.eq(m.reduce_rate(r), 30. * (cn / cad) ** .4 * (sea / sn) ** .8 * (pn / camp) ** .2))


# ---- phase
@contract('C21', 'PhaseGapMetric', [PG + 'PhaseGapMetric.run', PG + 'PhaseGapMetric.__init__'] + [PG + 'PhaseGapMetric.reduce_' + k for k in ('mean_gap', 'median_gap', 'worst_period', 'largest_gap')],
          bounded='largest gap between sorted phases, period by period')
def phase_gap(S):
    n = S.int('n', 1)
    t = S.arr('mjd', n, lo=0, hi=40)
    p0 = S.choice('p0', [3., 1.5, 7.])
    p1 = p0 + S.choice('dp', [0., 5., 32.])
    npd = S.choice('np', [2, 3, 5])
    nmin = S.choice('nmin', [1, 2, 3])
    m = pg.PhaseGapMetric(n_periods=npd, period_min=p0, period_max=p1, n_visits_min=nmin)
    ds = S.table(observationStartMJD=t)
    old = S.snapshot(ds)
    r = m.run(ds)
    S.unchanged('visits not modified', ds, old)
    if n < nmin:
        S.ensure('too few visits: bad value', S.eq(r, m.badval))
        return
    ps = [p0] if p0 == p1 else [p0 + (p1 - p0) * k / (npd - 1) for k in range(npd)]
    S.ensure('periods evenly over the range, both ends included', len(r['periods']) == len(ps) and np.allclose(r['periods'], ps, rtol=1e-12))
    w = []
    for p in ps:
        ph = sorted((x % p) / p for x in t)
        w.append(max([b - a for a, b in zip(ph, ph[1:])] + [1 - ph[-1] + ph[0]]))
    S.ensure('largest phase gap for each period, around the cycle', np.allclose(r['maxGaps'], w, rtol=1e-9))
    S.ensure('mean gap', S.eq(m.reduce_mean_gap(r), np.mean(w)))
    S.ensure('median gap', S.eq(m.reduce_median_gap(r), np.median(w)))
    S.ensure('largest gap', S.eq(m.reduce_largest_gap(r), max(w)))
    wp = m.reduce_worst_period(r)
    S.ensure('worst period has the largest gap', any(S.eq(wp, p) and S.eq(g, max(w)) for p, g in zip(ps, w)))


@contract('C21', 'PeriodicQualityMetric', [PG + 'PeriodicQualityMetric.run', PG + 'PeriodicQualityMetric._calc_phase', PG + 'PeriodicQualityMetric._calc_amp'],
          bounded='trigonometric sums')
def periodic(S):
    n = S.int('n', 1)
    t = S.arr('mjd', n, lo=0, hi=40)
    m5 = S.arr('m5', n, lo=20, hi=26)
    p, mag = S.choice('p', [2., .7, 30.]), S.choice('mag', [20, 24])
    ds = S.table(observationStartMJD=t, fiveSigmaDepth=m5)
    old = S.snapshot(ds)
    r = pg.PeriodicQualityMetric(period=p, star_mag=mag).run(ds)
    S.unchanged('visits not modified', ds, old)
    s = 5. * 10 ** (-.4 * (mag - m5))
    ang = 2 * math.pi * t / p
    off = math.hypot(np.sum(np.cos(ang) * s), np.sum(np.sin(ang) * s)) / np.sum(s)
    amp = min(math.sqrt(np.sum((np.sin(ang + k * math.pi / 8) * s) ** 2)) for k in range(8)) / math.sqrt(np.sum(s ** 2))
    S.ensure('evenness of phases times weakest amplitude', abs(r - amp * (1 - off)) < 1e-9)


@contract('C21', 'KuiperMetric', MM + 'kuiper_metrics:KuiperMetric.run', bounded='two-sided deviation of a step function')
def kuiper(S):
    n = S.int('n', 1)
    x = S.arr('x', n, lo=-400, hi=800)
    ds = S.table(rot=x)
    old = S.snapshot(ds)
    r = mm.KuiperMetric('rot').run(ds)
    S.unchanged('visits not modified', ds, old)
    v = sorted(q % 360 for q in x)
    up = max(sum(a <= q for a in v) / n - q / 360 for q in v)
    dn = max(q / 360 - sum(a < q for a in v) / n for q in v)
    S.ensure('largest excess plus largest deficit of the distribution over uniform', S.eq(r, max(up, 0) + max(dn, 0)))
    sh = float(S.choice('shift', [10., 123.5]))
    S.ensure('the same wherever the circle starts', abs(mm.KuiperMetric('rot').run(S.table(rot=x + sh)) - r) < 1e-9)


# ---- counting
@contract('C21', 'YearCoverageMetric', MM + 'coverage_metric:YearCoverageMetric.run')
def years(S):
    n = S.int('n', 1)
    x = S.arr('night', n, 'i', lo=-5, hi=25)
    nb = S.int('nb', 2)
    b = S.arr('bins', nb, lo=-2, hi=18, order='strict', near=list(range(0, 17)))
    r = mm.YearCoverageMetric(bins=b).run(S.table(night=x), None)
    if S.symbolic:
        h = S.fn('histogram', x, b)[0]
        S.ensure('number of bins with visits', S.eq(r, S.count(h > 0)))
    else:
        S.ensure('number of bins with visits', S.eq(r, sum(bool(np.any(in_bin(S, x, b, k, nb))) for k in range(nb - 1))))


@contract('C21', 'YearCoverageMetric default years', MM + 'coverage_metric:YearCoverageMetric.__init__', bounded='ten fixed years')
def years_default(S):
    n = S.int('n', 1)
    x = np.array([S.r.choice([0, 1, 364, 365, 366, 730, 731, 3286, 3287, 3288, 2000, 3660]) for _ in range(n)])
    m = mm.YearCoverageMetric()
    r = m.run(S.table(night=x), None)
    S.ensure('ten years', len(m.bins) in (10, 11) and S.eq(m.bins[0], -.5))
    w = {int((q + .5) // 365.25) for q in x if (q + .5) / 365.25 < len(m.bins) - 1}
    S.ensure('number of years with visits', S.eq(r, len(w)))
    S.ensure('units', m.units == 'N years')


@contract('C21', 'PairMetric', MM + 'pair_metric:PairMetric.run', bounded='times on a grid of bins')
def pairs(S):
    n = S.int('n', 2)
    bs = 5.
    q = sorted({S.r.randint(0, 14) for _ in range(n)})
    S.assume(len(q) > 1)
    S.r.shuffle(q)
    t = np.array([59000 + (a * bs + (.4 if i else .2) * bs) / 1440 for i, a in enumerate(q)])
    i0 = q.index(min(q))
    t[i0] = 59000 + (q[i0] * bs) / 1440
    lo, hi = S.choice('win', [(20., 40.), (5., 10.), (15., 15.)])
    m = mm.PairMetric(match_min=lo, match_max=hi, bin_size=bs)
    r = m.run(S.table(observationStartMJD=t))
    w = sum(lo / bs - .01 <= b - a <= hi / bs + .01 for a in q for b in q)
    S.ensure('pairs of occupied time bins that far apart', S.eq(r, w if w else m.badval))


@contract('C21', 'StringCountMetric', [MM + 'string_count_metric:StringCountMetric.run', MM + 'string_count_metric:Keylookerupper.__call__'], bounded='counts per distinct string')
def strings(S):
    n = S.int('n', 1)
    x = S.arr('note', n, 's', pool=['a', 'a, 1', 'a, 2', 'b, c', '', 'b, c, 12', 'z'])
    pc, ce = S.bool('percent'), S.bool('clip_end')
    ds = S.table(note=x)
    old = S.snapshot(ds)
    m = sc.StringCountMetric(col='note', percent=pc, clip_end=ce)
    r = m.run(ds)
    S.unchanged('visits not modified', ds, old)
    clip = lambda v: ', '.join(v.split(', ')[:-1]) if ce and ', ' in v and v.split(', ')[-1].isdigit() else v
    c = Counter((clip(v) or 'blank') for v in x.tolist())
    S.ensure('one column per distinct string', sorted(r.dtype.names) == sorted(c))
    for k in c:
        w = c[k] * 100. / n if pc else c[k]
        S.ensure('count or percentage of the string', S.eq(float(r[k][0]), w))
        S.ensure('its reduced value', S.eq(float(m.reduce_funcs[k](r)), w))
    S.ensure('units', m.units == ('percent' if pc else 'count'))


@contract('C21', 'CumulativeMetric', MM + 'cumulative_metric:CumulativeMetric.run', bounded='interpolated step counts')
def cumulative(S):
    n = S.int('n', 1)
    x = S.arr('night', n, 'i', lo=0, hi=9)
    S.assume(len(set(x.tolist())) == n)
    t = x + .25
    given = S.bool('given')
    pts = np.array([float(q) for q in sorted(x)]) if given else None
    r = mm.CumulativeMetric(interp_points=pts).run(S.table(observationStartMJD=t, night=x))
    want = pts if given else np.arange(min(x), max(x) + 1)
    S.ensure('one value per requested time', len(r['x']) == len(r['y']) == len(want) and np.array_equal(r['x'], want))
    for a, y in zip(r['x'], r['y']):
        if a in x:
            S.ensure('visits up to and including that night', S.eq(y, sum(x <= a)))
        else:
            S.ensure('between the counts of the nights around it', sum(x < a) < y < sum(x < a) + 1)


# ---- colours within a night
def slope_draws(S):
    r = S.r
    n = r.randint(1, 9)
    nt = np.array([r.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(n)])
    h = np.array([r.choice([0, .25, .5, 1., 1.25, 2., 3., 3.5, 4.]) for _ in range(n)])
    b = np.array([r.choice(['g', 'r', 'i']) for _ in range(n)])
    m5 = np.array([r.choice([19., 20., 21., 22.]) for _ in range(n)])
    return n, nt, nt + h / 24., b, m5


def near(x, y):
    return abs(x - y) < 1e-7


def color_and_slope(t, b, cl, sl, S):
    """1 / 0, or None when a limit is met too closely to call in floating point"""
    if len(t) < 3:
        return 0
    sp = [max(t[b == f]) - min(t[b == f]) for f in set(b)]
    gp = [abs(x - y) for x, f in zip(t, b) for y, g in zip(t, b) if f != g and x != y]
    edge = any(near(v, sl / 24.) for v in sp) or any(near(v, cl / 24.) for v in gp)
    if edge:
        return None
    return int(any(v >= sl / 24. for v in sp) and any(v <= cl / 24. for v in gp))


@contract('C21', 'CheckColorSlope', CS + 'CheckColorSlope.__call__', bounded='pairs of visits over all pairs of bands')
def check_slope(S):
    n, nt, t, b, m5 = slope_draws(S)
    cl, sl = S.choice('lim', [(1.1, 2.9), (.3, .4), (.6, 24.1)])
    r = cs.CheckColorSlope(color_length=cl, slope_length=sl)(S.table(observationStartMJD=t, band=b))
    w = color_and_slope(t, b, cl, sl, S)
    S.assume(w is not None)
    S.ensure('a colour soon enough and a slope long enough', S.eq(r, w))


def slopes(two):
    nm = 'ColorSlope2NightMetric' if two else 'ColorSlopeMetric'

    @contract('C21', nm, [CS + nm + '.run', CS + nm + '.__init__'], bounded='pairs of visits over all pairs of bands')
    def body(S):
        n, nt, t, b, m5 = slope_draws(S)
        cl, sl = S.choice('lim', [(1.1, 2.9), (.3, .4), (1.1, 15.1)])
        mag = S.choice('mag', [None, {'g': 18., 'r': 21., 'i': 20.}])
        m = getattr(cs, nm)(mag=mag, color_length=cl, slope_length=sl, night_col='nt', filter_col='f', m5_col='d', time_col='t')
        r = m.run(S.table(nt=nt, f=b, d=m5, t=t))
        lim = mag or {k: 20 for k in 'gri'}
        g = np.array([m5[i] > lim[b[i]] for i in range(n)])
        ids = [np.floor(nt / 2), np.ceil(nt / 2)] if two else [nt]
        tot = 0
        for k in ids:
            for v in set(k[g].tolist()):
                q = g & (k == v)
                w = color_and_slope(t[q], b[q], cl, sl, S)
                S.assume(w is not None)
                tot += w
        S.ensure('nights (or pairs of nights) with a colour and a slope among the deep visits', S.eq(r, tot))


slopes(False)
slopes(True)


# ---- groups of visits
def group_night(t, lo, hi):
    """visits of a night: those next to a good gap, plus half for those only next to a too-small one"""
    t = sorted(t)
    d = [b - a for a, b in zip(t, t[1:])]
    good = [lo <= v <= hi for v in d]
    close = [v < lo for v in d]
    return d, good, close


@contract('C21', 'VisitGroupsMetric', [VG + 'VisitGroupsMetric.run', VG + 'VisitGroupsMetric.__init__'], bounded='gaps within each night')
def groups(S):
    r = S.r
    n = r.randint(1, 12)
    nt = np.array([r.choice([3, 3, 3, 3, 5, 8]) for _ in range(n)])
    mn = np.array(r.sample(range(0, r.choice([200, 400]), 10), n))
    lo, hi = S.choice('lim', [(5., 1000.), (15., 95.), (9., 35.)])
    m = vg.VisitGroupsMetric(delta_t_min=lo / 1440, delta_t_max=hi / 1440)
    t = nt + mn / 1440.
    got = m.run(S.table(observationStartMJD=t, night=nt))
    want = {}
    sure = {}
    for k in sorted(set(nt.tolist())):
        d, good, close = group_night([float(x) for x in mn[nt == k]], lo, hi)
        hit = {i for j, g in enumerate(good) if g for i in (j, j + 1)}
        if hit:
            # runs of gaps which are too small: every visit of them that has no good gap is half a visit.  Where a run
            # follows a good gap, or ends the night after more than one such gap, how its ends count is not documented.
            half = {i for j, g in enumerate(close) if g for i in (j, j + 1)} - hit
            runs = [j for j, g in enumerate(close) if g and not (j and close[j - 1])]
            sure[k] = True
            for a in runs:
                b = a
                while b + 1 < len(close) and close[b + 1]:
                    b += 1
                after, last = a > 0 and good[a - 1], b == len(close) - 1
                sure[k] &= (after or a == b) if last else not after
            want[k] = len(hit) + (len(half) / 2 if sure[k] else 0)
    if not want:
        S.ensure('no group: bad value', not isinstance(got, dict) and S.eq(got, m.badval))
        return
    S.ensure('nights with a group of visits', list(got['nights']) == sorted(want))
    for k, v in zip(got['nights'], got['visits']):
        S.ensure('visits of the night that have a neighbour inside the limits (those too close count half)',
                 v == want[k] if sure[k] else v >= want[k])


@contract('C21', 'VisitGroupsMetric two visits', [VG + 'VisitGroupsMetric.run'], bounded='loop over the different nights')
def groups_two(S):
    n = 2
    t = S.arr('t', n, lo=0, hi=1)
    lo, hi = S.choice('lim', [(.25, .5), (.125, .125), (0., .75)])
    m = vg.VisitGroupsMetric(delta_t_min=lo, delta_t_max=hi)
    got = m.run(S.table(observationStartMJD=t, night=S.arr('night', n, 'i', lo=4, hi=4)))
    d = abs(t[1] - t[0])
    S.assume(S.or_(d >= lo, d < lo - 1e-9))
    if S.cond(S.and_(d >= lo, d <= hi)):
        S.ensure('both visits', S.eq(got['visits'][0], 2))
    else:
        S.ensure('no group: bad value', S.eq(got, m.badval))


@contract('C21', 'VisitGroupsMetric summaries', [VG + 'VisitGroupsMetric.reduce_' + k for k in
          ('median', 'n_nights_with_n_visits', 'n_visits_in_window', 'n_nights_in_window', 'n_lunations', 'max_seq_lunations')],
          bounded='windows of nights')
def group_reductions(S):
    r = S.r
    n = r.randint(1, 9)
    nights = np.array(sorted(r.sample([0, 1, 3, 5, 12, 29, 30, 31, 44, 59, 60, 75, 89, 90, 95, 118, 121], n)))
    visits = np.array([r.choice([2., 2.5, 3., 4.]) for _ in range(n)])
    w, mv, mn = S.choice('w', [30, 5, 15]), S.choice('mv', [2, 3]), S.choice('mn', [1, 2, 3])
    m = vg.VisitGroupsMetric(window=w, min_n_visits=mv, min_n_nights=mn)
    v = {'visits': visits, 'nights': nights}
    S.ensure('median', S.eq(m.reduce_median(v), np.median(visits)))
    S.ensure('nights with enough visits', S.eq(m.reduce_n_nights_with_n_visits(v), sum(visits >= mv)))
    g = visits >= mv
    S.ensure('most visits in a window', S.eq(m.reduce_n_visits_in_window(v), max(visits[g & (nights >= a) & (nights < a + w)].sum() for a in nights)))
    S.ensure('most nights in a window', S.eq(m.reduce_n_nights_in_window(v), max(sum(g & (nights >= a) & (nights < a + w)) for a in nights)))
    lun, k = [], nights[0]
    while k < nights[-1] + 15:
        q = (nights >= k) & (nights < k + 30)
        lun.append(any(sum(q & g & (nights >= a) & (nights < a + w)) >= mn for a in nights[q]))
        k += 30
    S.ensure('lunations with a group', S.eq(m.reduce_n_lunations(v), sum(lun)))
    best = cur = 0
    for x in lun:
        cur = cur + 1 if x else 0
        best = max(best, cur)
    S.ensure('longest run of lunations with a group', S.eq(m.reduce_max_seq_lunations(v), best))


# ---- depth, exposure and labelling metrics built on the above
DST = {'rubin_sim.maf.metrics.exgal_m5:DustValues': SymDust}
DSA = ['DustValues: the dust coefficient of each band (contract of C11)']


def exgal(S, **k):
    if S.symbolic:
        return k.pop('cls')(**k)
    with mock.patch.object(ex, 'DustValues', Dust):
        return k.pop('cls')(**k)


def deep(S, v, ok=None):
    f = S.p10(0.8 * v)
    return 1.25 * S.log10(S.sum(f if ok is None else S.ite(ok, f, f * 0)))


@contract('C21', 'ExgalM5', [MM + 'exgal_m5:ExgalM5.run', MM + 'exgal_m5:ExgalM5.__init__', MM + 'simple_metrics:Coaddm5Metric.run'], stubs=DST, assumes=DSA)
def exgal_m5(S):
    n = S.int('n', 1)
    v = S.arr('m5', n, lo=20, hi=27)
    b = S.choice('band', ['u', 'r', 'y'])
    ebv = S.real('ebv', 0, 2)
    band = S.arr('band_col', n, 's', pool=[b])
    m = exgal(S, cls=ex.ExgalM5, m5_col='d', filter_col='f')
    r = m.run(S.table(d=v, f=band), {'ebv': ebv})
    S.ensure('coadded depth less the extinction in the band', S.eq(r, deep(S, v) - Dust.ax1[b] * ebv))


@contract('C21', 'ExgalM5WithCuts', [MM + 'weak_lensing_systematics_metric:ExgalM5WithCuts.run', MM + 'weak_lensing_systematics_metric:ExgalM5WithCuts.__init__'], bounded='set of bands in a slice')
def with_cuts(S):
    n = S.int('n', 1)
    v = S.arr('m5', n, lo=20, hi=27)
    band = S.arr('band_col', n, 's', pool=['r', 'i', 'z'])
    ebv = S.choice('ebv', [0., .1, .2, .25])
    nf = S.choice('nf', [1, 2, 3])
    dc = S.choice('dc', [22., 25.])
    m = exgal(S, cls=wl.ExgalM5WithCuts, m5_col='d', filter_col='f', lsst_filter='i', extinction_cut=.2, depth_cut=dc, n_filters=nf)
    r = m.run(S.table(d=v, f=band), {'ebv': ebv})
    ok = ebv <= .2 and len(set(band.tolist())) >= nf and (band == 'i').any()
    w = deep(S, v[band == 'i']) - 2. * ebv if ok else None
    S.ensure('depth after extinction in the band, where dust, bands and depth allow', S.eq(r, w if ok and w >= dc else m.badval))


@contract('C21', 'WeakLensingNvisits', [MM + 'weak_lensing_systematics_metric:WeakLensingNvisits.run', MM + 'weak_lensing_systematics_metric:WeakLensingNvisits.__init__'], bounded='depth of a sub-slice')
def wl_visits(S):
    n = S.int('n', 1)
    v = S.arr('m5', n, lo=20, hi=27)
    e = S.arr('exp', n, lo=10, hi=20, near=[15, 15, 16])
    band = S.arr('band_col', n, 's', pool=['r', 'i', 'z'])
    ebv = S.choice('ebv', [0., .1, .2, .25])
    dc = S.choice('dc', [22., 24.5])
    m = exgal(S, cls=wl.WeakLensingNvisits, m5_col='d', filter_col='f', exp_time_col='e', lsst_filter='i', depth_cut=dc)
    r = m.run(S.table(d=v, f=band, e=e), {'ebv': ebv})
    ok = ebv <= .2 and (band == 'i').any() and deep(S, v[band == 'i']) - 2. * ebv >= dc
    S.ensure('visits longer than the limit, where dust and depth allow', S.eq(r, sum(e > 15) if ok else m.badval))


@contract('C21', 'RIZDetectionCoaddExposureTime', [MM + 'weak_lensing_systematics_metric:RIZDetectionCoaddExposureTime.run', MM + 'weak_lensing_systematics_metric:RIZDetectionCoaddExposureTime.__init__'])
def riz(S):
    n = S.int('n', 6)
    e = S.arr('exp', n, lo=10, hi=40, near=[15, 15, 16])
    band = S.arr('band_col', n, 's', pool=['u', 'g', 'r', 'i', 'z', 'y'])
    ebv = S.real('ebv', 0, .5)
    det = S.choice('det', [None, ['g', 'r']])
    m = wl.RIZDetectionCoaddExposureTime(exp_time_col='e', filter_col='f', det_bands=det)
    for x in 'ugrizy':
        S.assume(S.exists(band == x))
    r = m.run(S.table(e=e, f=band), {'ebv': ebv})
    ok = (e > 15) & (((band == 'g') | (band == 'r')) if det else ((band == 'r') | (band == 'i') | (band == 'z')))
    S.ensure('exposure time of the long enough visits in the detection bands, where dust allows',
             S.eq(r, m.badval if S.cond(ebv > .2) else S.sum(S.ite(ok, e, e * 0))))


@contract('C21', 'OptimalM5Metric', [MM + 'optimal_m5_metric:OptimalM5Metric.run', MM + 'optimal_m5_metric:OptimalM5Metric.__init__', MM + 'simple_metrics:Coaddm5Metric.run'])
def optimal(S):
    n = S.int('n', 1)
    v, o = S.arr('m5', n, lo=20, hi=27), S.arr('opt', n, lo=20, hi=27)
    b = S.arr('band_col', n, 's', pool=['r'])
    md, nz = S.bool('mag_diff'), S.bool('normalize')
    m = om.OptimalM5Metric(m5_col='d', opt_m5_col='o', filter_col='f', mag_diff=md, normalize=nz)
    r = m.run(S.table(d=v, o=o, f=b))
    if md:
        S.ensure('optimal less actual depth', S.eq(r, deep(S, o) - deep(S, v)))
    else:
        k = S.p10(0.8 * S.fn('median', v))
        S.ensure('visits (or percent of visits) of median depth that are missing',
                 S.eq(r * k * (n if nz else 1), (S.sum(S.p10(0.8 * o)) - S.sum(S.p10(0.8 * v))) * (100 if nz else 1), 1e-7))
    S.ensure('units', m.units == ('mags' if md else '% behind' if nz else 'N visits behind'))


@contract('C21', 'UseMetric', [MM + 'use_metrics:UseMetric.run', MM + 'use_metrics:UseMetric.__init__'], bounded='text prefixes')
def use(S):
    starts = ['singles', 'pairs', 'triplet', 'template', 'too', 'twilight', 'ddf_cosmos', 'ddf_ecdfs', 'ddf_edfs', 'ddf_elaiss1', 'ddf_xmm_lss']
    w = S.choice('word', starts + ['ddf_other', 'long gaps', 'x pairs', ''])
    tail = S.choice('tail', ['', '_i', ', 12'])
    progs, prog = S.choice('progs', [(), ('BLOCK-1',), ('BLOCK-1', 'BLOCK-2')]), S.choice('prog', ['BLOCK-1', 'BLOCK-2', 'BLOCK-3'])
    m = mm.use_metrics.UseMetric(science_programs=progs) if hasattr(mm, 'use_metrics') else mm.UseMetric(science_programs=progs)
    r = m.run({'observation_reason': w + tail, 'science_program': prog})
    want = 'not science' if progs and prog not in progs else (w if w in starts else 'other')
    S.ensure('the purpose the note starts with', r == want)


@contract('C21', 'AgeMetric', [MM + 'schedview_metrics:AgeMetric.run', MM + 'schedview_metrics:AgeMetric.__init__'])
def age(S):
    n = S.int('n', 1)
    t = S.arr('mjd', n, lo=0, hi=50)
    now, lim = S.real('now', 0, 90), S.real('limit', 0, 60)
    mv = -1.
    r = mm.AgeMetric(now, long_limit=lim, mask_val=mv).run(S.table(observationStartMJD=t))
    a = now - S.fn('max', t)
    S.ensure('time since the last visit, unless too long ago', S.eq(r, S.ite(a > lim, mv, a)))


@contract('C21', 'SkySaturationMetric', MM + 'sky_sat_metric:SkySaturationMetric.run', bounded='non-finite values')
def sky_sat(S):
    n = S.int('n', 1)
    b = S.arr('bad', n, 'b')
    v = np.where(b, S.r.choice([np.nan, np.inf]), 17.5)
    S.ensure('visits without a saturation magnitude', S.eq(mm.SkySaturationMetric().run(S.table(saturation_mag=v), None), sum(b)))


@contract('C21', 'SnrWeightedMetric', [MM + 'snr_weight:SnrWeightedMetric.run', MM + 'snr_weight:SnrWeightedMetric.__init__'])
def snr_weighted(S):
    n = S.int('n', 1)
    v, x = S.arr('m5', n, lo=20, hi=27), S.arr('x', n, lo=-4, hi=4)
    r = mm.SnrWeightedMetric('x', m5_col='d').run(S.table(d=v, x=x))
    w = 5. * S.p10(-0.4 * (20. - v))
    S.ensure('average weighted by signal-to-noise', S.eq(r, S.div(S.sum(x * w), S.sum(w)), 1e-9, 1e-9))


@contract('C21', 'surface_brightness_limit_approx', MM + 'surfb_metric:surface_brightness_limit_approx', bounded='stacked limits of three noise regimes')
def surfb(S):
    zp, k, am, sky = S.real('zp', 26, 29), S.real('k', .0625, .5), S.real('am', 1, 2), S.real('sky', 18, 23)
    rn, ps, ns, te, ar = S.real('rn', 1, 16), S.choice('ps', [.2, .25]), S.choice('ns', [1., 3., 5.]), S.real('te', 1, 64), S.choice('area', [1., 100.])
    if S.bool('few photons'):
        rn, te, ar, sky = rn / 100, te / 64, .04, sky + 4     # limited by the source itself
    r = sb.surface_brightness_limit_approx(zp, k, am, sky, rn=rn, pixscale=ps, nsigma=ns, t_exp=te, tot_area=ar, mag_diff_warn=0)
    got = float(np.atleast_1d(r)[0])
    npix = ar / ps ** 2
    lims = [.5 * sky + .5 * zp - k * am - 1.25 * math.log10(ns ** 2 / (te * ar)),
            zp - k * am - 5 * math.log10(ns) + 2.5 * math.log10(te * ar),
            zp - k * am - 2.5 * math.log10(ns * rn * math.sqrt(npix) / (te * ar))]
    S.ensure('the brightest of the limits set by sky, source and read noise', abs(got - min(lims)) < 1e-9)


@contract('C21', 'SurfaceBrightLimitMetric', [MM + 'surfb_metric:SurfaceBrightLimitMetric.run', MM + 'surfb_metric:SurfaceBrightLimitMetric.__init__'], bounded='stacked limits of three noise regimes')
def surfb_metric(S):
    n = S.int('n', 1)
    am, te, sky = S.arr('am', n, lo=1, hi=2), S.arr('te', n, lo=1, hi=64), S.arr('sky', n, lo=18, hi=23)
    ne = S.arr('nexp', n, 'i', lo=1, hi=4)
    band = S.arr('b', n, 's', pool=[S.choice('band', ['r', 'y'])])
    zp, k = {'r': 28., 'y': 27.}, {'r': .125, 'y': .25}
    m = mm.SurfaceBrightLimitMetric(zpt=zp, k_atm=k, readnoise=8.8, pixscale=.2, nsigma=3., tot_area=100.)
    r = m.run(S.table(band=band, airmass=am, visitExposureTime=te, skyBrightness=sky, numExposures=ne), None)
    f = band[0]
    tot = []
    for i in range(n):
        rn = 8.8 * math.sqrt(ne[i])
        z = zp[f] - k[f] * am[i]
        tot.append(min(.5 * sky[i] + .5 * zp[f] - k[f] * am[i] - 1.25 * math.log10(9 / (te[i] * 100)),
                       z - 5 * math.log10(3.) + 2.5 * math.log10(te[i] * 100),
                       z - 2.5 * math.log10(3. * rn * math.sqrt(100 / .04) / (te[i] * 100))))
    S.ensure('coadd of the limits of each visit', abs(r - 1.25 * math.log10(math.fsum(10 ** (.8 * q) for q in tot))) < 1e-9)
