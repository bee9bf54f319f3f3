"""C06: gap, revisit and state-change metrics count every qualifying pair of visits once."""
import bisect
import itertools
import math
import numpy as np
from pyver.api import contract
import rubin_sim.maf.metrics.tgaps as tg
import rubin_sim.maf.metrics.technical_metrics as te
import rubin_sim.maf.metrics.cadence_metrics as ca
import rubin_sim.maf.metrics.visit_groups_metric as vg

T = 'rubin_sim.maf.metrics.tgaps:'
K = 'rubin_sim.maf.metrics.technical_metrics:'
C = 'rubin_sim.maf.metrics.cadence_metrics:'


def times(S, lo=1, distinct=False, **cols):
    n = S.int('n', lo)
    t = S.arr('mjd', n, lo=0, hi=16, distinct=distinct)
    return n, t


def gaps(S, t):
    """time differences of neighbouring visits, in time order"""
    w = S.fn('sort', t)
    return w[1:] - w[:-1]


def edges(S, lo=0):
    nb = S.int('nb', 2)
    return nb, S.arr('bins', nb, lo=lo, hi=20, order='strict', near=[1, 2, 4])


def hist_spec(S, name, nb, b, d, r):
    S.ensure('one count per bin', S.eq(S.size(r), nb - 1))
    S.forall(name, nb - 1, lambda k: S.eq(r[k], S.count(
        (d >= b[k]) & ((d < b[k + 1]) | ((d == b[k + 1]) & S.eq(k, nb - 2))))))


@contract('C06', 'TgapsMetric', T + 'TgapsMetric.run')
def tgaps(S):
    n, t = times(S, 0)
    nb, b = edges(S)
    ds = S.table(observationStartMJD=t)
    m = tg.TgapsMetric(bins=b)
    r = m.run(ds)
    if S.cond(n < 2):
        S.ensure('fewer than two visits: bad value', S.eq(r, m.badval))
    else:
        hist_spec(S, 'number of neighbouring gaps in the bin', nb, b, gaps(S, t), r)


def all_gaps(t):
    return [b - a for a, b in itertools.combinations(sorted(float(x) for x in t), 2)]


@contract('C06', 'TgapsMetric (all gaps)', T + 'TgapsMetric.run', bounded='a list of a symbolic number of arrays is concatenated')
def tgaps_all(S):
    n, t = times(S, 0)
    nb, b = edges(S)
    m = tg.TgapsMetric(bins=b, all_gaps=True)
    r = m.run(S.table(observationStartMJD=t))
    if n < 2:
        S.ensure('fewer than two visits: bad value', S.eq(r, m.badval))
    else:
        hist_spec(S, 'number of pairs in the bin', nb, b, np.array(all_gaps(t)), r)


def window(S):
    lo = S.real('min_time', 0, 8, near=[0.25, 1, 2])
    wd = S.real('width', 0, 8)
    return lo, lo + wd


@contract('C06', 'TgapsPercentMetric', T + 'TgapsPercentMetric.run')
def tgapspct(S):
    n, t = times(S, 0)
    lo, hi = window(S)
    m = tg.TgapsPercentMetric(min_time=lo, max_time=hi)
    r = m.run(S.table(observationStartMJD=t))
    if S.cond(n < 2):
        S.ensure('fewer than two visits: bad value', S.eq(r, m.badval))
    else:
        d = gaps(S, t)
        S.ensure('percent of neighbouring gaps within the limits', S.eq(r * (n - 1), 100.0 * S.count((d >= lo) & (d <= hi))))


@contract('C06', 'TgapsPercentMetric (all gaps)', T + 'TgapsPercentMetric.run', bounded='a list of a symbolic number of arrays is concatenated')
def tgapspct_all(S):
    n, t = times(S, 2)
    lo, hi = window(S)
    r = tg.TgapsPercentMetric(min_time=lo, max_time=hi, all_gaps=True).run(S.table(observationStartMJD=t))
    d = all_gaps(t)
    S.ensure('percent of pairs within the limits', S.eq(r * len(d), 100.0 * sum(lo <= x <= hi for x in d)))


def nights(S, lo=1):
    n = S.int('n', lo)
    return n, S.arr('night', n, 'i', lo=0, hi=12)


@contract('C06', 'NightgapsMetric', T + 'NightgapsMetric.run')
def nightgaps(S):
    n, t = nights(S)
    nb, b = edges(S)
    m = tg.NightgapsMetric(bins=b)
    r = m.run(S.table(night=t))
    if S.cond(n < 2):
        S.ensure('fewer than two visits: bad value', S.eq(r, m.badval))
    else:
        u = S.fn('unique', t)
        hist_spec(S, 'number of neighbouring gaps between observed nights in the bin', nb, b, u[1:] - u[:-1], r)


@contract('C06', 'NightgapsMetric (all gaps)', T + 'NightgapsMetric.run', bounded='a list of a symbolic number of arrays is concatenated')
def nightgaps_all(S):
    n, t = nights(S, 2)
    nb, b = edges(S)
    S.assume(len(set(t.tolist())) > 1)
    r = tg.NightgapsMetric(bins=b, all_gaps=True).run(S.table(night=t))
    hist_spec(S, 'number of pairs of observed nights in the bin', nb, b, np.array(all_gaps(set(t.tolist()))), r)


@contract('C06', 'NVisitsPerNightMetric', T + 'NVisitsPerNightMetric.run',
          bounded='nested count (visits of each night, nights of each count)')
def nvpn(S):
    n, t = nights(S, 1)
    nb = S.int('nb', 2)
    b = S.arr('bins', nb, lo=0, hi=8, order='strict', near=[0, 1, 2, 3, 4])
    r = tg.NVisitsPerNightMetric(bins=b).run(S.table(night=t))
    c = np.array([int(np.sum(t == u)) for u in sorted(set(t.tolist()))])
    hist_spec(S, 'number of nights with that many visits', nb, b, c, r)


@contract('C06', 'CoaddM5PerNightMetric', T + 'CoaddM5PerNightMetric.run', bounded='scipy binned_statistic', trials=60)
def coaddpn(S):
    n, t = nights(S, 1)
    off = S.choice('off', [0, 1000, 3600])
    m5 = S.arr('m5', n, lo=20, hi=25)
    nb = S.int('nb', 2)
    b = S.arr('bins', nb, lo=19, hi=27, order='strict')
    c = []
    for u in sorted(set(t.tolist())):
        c.append(1.25 * math.log10(math.fsum(10 ** (0.8 * x) for x, k in zip(m5, t) if k == u)))
    S.assume(all(abs(x - e) > 1e-6 for x in c for e in b))
    r = tg.CoaddM5PerNightMetric(bins=b).run(S.table(night=t + off, fiveSigmaDepth=m5))
    hist_spec(S, 'number of nights with that depth', nb, b, np.array(c), r)


@contract('C06', 'MaxGapMetric', T + 'MaxGapMetric.run')
def maxgap(S):
    n, t = times(S, 1)
    ds = S.table(observationStartMJD=t)
    old = S.snapshot(ds)
    m = tg.MaxGapMetric()
    r = m.run(ds)
    if S.cond(n < 2):
        S.ensure('single visit: bad value', S.eq(r, m.badval))
    else:
        d = gaps(S, t)
        S.forall('no gap is longer', n - 1, lambda k: d[k] <= r)
        S.ensure('some gap is as long', S.exists(d == r))
    S.unchanged('visits not modified', ds, old)


@contract('C06', 'GapsMetric', T + 'GapsMetric.run', bounded='array length depends on the visit times')
def gapsm(S):
    n, t = times(S, 0)
    bs = S.choice('bin', [0.5, 1.0, 2.0])
    m = tg.GapsMetric(time_scale=bs * 48)
    r = m.run(S.table(observationStartMJD=t))
    if n < 2:
        S.ensure('fewer than two visits: bad value', S.eq(r, m.badval))
        return
    t0, t1 = min(t), max(t)
    nbin = math.ceil((t1 - t0) / bs + 2) - 1
    occ = set()
    for x in t:
        occ.add(min(int(math.floor((x - t0) / bs)) + 1, nbin - 1))
    S.ensure('number of times two visits lie two half-scales apart', S.eq(r, sum((k + 2) in occ for k in occ)))


def nightly(S, lo=1):
    """visits whose night is determined by their time"""
    n = S.int('n', lo)
    t = S.arr('mjd', n, lo=0, hi=6)
    off = S.real('off', 0, 1, hi_open=True)
    nt = S.floor(t + off)
    return n, t, nt


@contract('C06', 'NightTimespanMetric', T + 'NightTimespanMetric.run', bounded='positions of the nights within the sorted table')
def timespan(S):
    n, t, nt = nightly(S)
    q = S.choice('q', [75, 50, 0, 100, 30])
    m = tg.NightTimespanMetric(percentile=q)
    r = m.run(S.table(observationStartMJD=t, night=nt))
    by = {}
    for a, b in zip(t, nt):
        by.setdefault(int(b), []).append(float(a))
    sp = [(max(v) - min(v)) * 1440 for v in by.values() if len(v) > 1]
    S.ensure('percentile over nights with several visits of last minus first',
             S.eq(r, np.percentile(sp, q) if sp else m.badval))


def banded(S, lo=1):
    n = S.int('n', lo)
    t = S.arr('mjd', n, lo=0, hi=2, distinct=True)
    b = S.arr('band', n, 's', pool=['u', 'g', 'r'])
    return n, t, b, S.table(band=b, observationStartMJD=t)


def ordered(S, t, b):
    o = S.order(t)
    return t[o], b[o]


@contract('C06', 'NChangesMetric', K + 'NChangesMetric.run')
def nchanges(S):
    n, t, b, ds = banded(S)
    old = S.snapshot(ds)
    r = te.NChangesMetric().run(ds)
    w, x = ordered(S, t, b)
    S.ensure('neighbours in time with different values', S.eq(r, S.count(x[1:] != x[:-1])))
    S.unchanged('visits not modified', ds, old)


@contract('C06', 'NChangesMetric with simultaneous visits', K + 'NChangesMetric.run',
          bounded='the order of simultaneous visits is not defined, so the result is compared with every possible order of a small table')
def nchanges_ties(S):
    n = S.int('n', 1, 6)
    t = S.arr('t', n, kind='i', lo=0, hi=3) * 0.5
    b = S.arr('b', n, kind='s', pool=['g', 'r', 'i'])
    ds = S.table(observationStartMJD=t, band=b)
    r = te.NChangesMetric().run(ds)
    ok = set()
    for o in itertools.permutations(range(int(n))):
        if all(t[o[i]] <= t[o[i + 1]] for i in range(int(n) - 1)):
            ok.add(sum(b[o[i]] != b[o[i + 1]] for i in range(int(n) - 1)))
    S.ensure('neighbours in some time order with different values', int(r) in ok)


def change_times(S, t, b):
    """times of the changes in order, and for each the time of the change before (the first visit for the first one)"""
    if S.symbolic:
        w, x = ordered(S, t, b)
        ct = w[1:][x[1:] != x[:-1]]
        return ct, S.fn('concatenate', [w[:1], ct[:-1]])
    v = sorted(zip((float(x) for x in t), b.tolist()))
    ct = [q[0] for p, q in zip(v, v[1:]) if p[1] != q[1]]
    return np.array(ct), np.array(([v[0][0]] + ct[:-1])[:len(ct)])


@contract('C06', 'MinTimeBetweenStatesMetric', K + 'MinTimeBetweenStatesMetric.run')
def mintime(S):
    n, t, b, ds = banded(S)
    old = S.snapshot(ds)
    m = te.MinTimeBetweenStatesMetric()
    r = m.run(ds)
    ct, prev = change_times(S, t, b)
    if S.cond(S.size(ct) > 0):
        S.forall('no shorter time between changes, in minutes', S.size(ct), lambda k: (ct[k] - prev[k]) * 1440 >= r - (0 if S.symbolic else 1e-9))
        S.ensure('some change is that fast', S.exists(abs((ct - prev) * 1440 - r) <= (0 if S.symbolic else 1e-6)))
    else:
        S.ensure('no change: bad value', S.eq(r, m.badval))
    S.unchanged('visits not modified', ds, old)


@contract('C06', 'NStateChangesFasterThanMetric', K + 'NStateChangesFasterThanMetric.run')
def faster(S):
    n, t, b, ds = banded(S)
    cut = S.real('cutoff', 1, 2000, near=[20, 45, 90, 180, 360, 720, 1440])
    r = te.NStateChangesFasterThanMetric(cutoff=cut, metric_name='fast').run(ds)
    ct, prev = change_times(S, t, b)
    S.ensure('number of changes sooner than the cutoff', S.eq(r, S.count(ct - prev < cut / 24.0 / 60.0)))


@contract('C06', 'MaxStateChangesWithinMetric', K + 'MaxStateChangesWithinMetric.run',
          bounded='search positions along a selected sub-sequence')
def within(S):
    n, t, b, ds = banded(S)
    span = S.choice('span', [20, 45, 90, 180, 360, 720, 1440])
    r = te.MaxStateChangesWithinMetric(timespan=span).run(ds)
    ct, prev = change_times(S, t, b)
    w = span / 24.0 / 60.0
    S.forall('no interval of that length has more changes', S.size(ct), lambda k: S.count((ct >= ct[k]) & (ct <= ct[k] + w)) <= r)
    if S.cond(S.size(ct) == 0):
        S.ensure('no changes', S.eq(r, 0))
    if not S.symbolic:
        S.ensure('attained', S.eq(r, max([S.count((ct >= a) & (ct <= a + w)) for a in ct], default=0)))


@contract('C06', 'OpenShutterFractionMetric', K + 'OpenShutterFractionMetric.run')
def osf(S):
    n = S.int('n', 1)
    e, v, s = (S.arr(k, n, lo=lo, hi=64) for k, lo in (('exp', 1), ('visit', 1), ('slew', 0)))
    ds = S.table(visitExposureTime=e, visitTime=v, slewTime=s)
    old = S.snapshot(ds)
    r = te.OpenShutterFractionMetric().run(ds)
    S.ensure('exposure time over visit plus slew time', S.eq(r * (S.sum(v) + S.sum(s)), S.sum(e)))
    S.unchanged('visits not modified', ds, old)


@contract('C06', 'BruteOSFMetric', K + 'BruteOSFMetric.run')
def brute(S):
    n = S.int('n', 2)
    t = S.arr('mjd', n, lo=0, hi=1, distinct=True)
    e = S.arr('exp', n, lo=1, hi=64)
    mg = S.choice('maxgap', [10.0, 90.0, 360.0])
    fudge = S.choice('fudge', [0.0, 2.0])
    d = gaps(S, t)
    good = d < mg / 60.0 / 24.0
    S.assume(S.exists(good))
    r = te.BruteOSFMetric(maxgap=mg, fudge=fudge).run(S.table(visitExposureTime=e, observationStartMJD=t))
    S.ensure('exposure time over elapsed time without long gaps',
             S.eq(r * S.sum(d[good]) * 24.0 * 3600.0, S.sum(e) + fudge * n))


@contract('C06', 'RapidRevisitMetric', C + 'RapidRevisitMetric.run')
def rapid(S):
    n, t = times(S)
    lo, wp = S.real('tmin', 0, 2), S.real('wp', 0, 2)
    wm = S.real('wm', 0, 2)
    n1, n2 = S.int('n1', 0, 4), S.int('n2', 0, 6)
    r = ca.RapidRevisitMetric(d_tmin=lo, d_tpairs=lo + wp, d_tmax=lo + wp + wm, min_n1=n1, min_n2=n2).run(S.table(observationStartMJD=t))
    d = gaps(S, t)
    c1, c2 = S.count((d >= lo) & (d <= lo + wp)), S.count((d >= lo) & (d <= lo + wp + wm))
    S.ensure('both counts reach their minimum', S.eq(r, S.ite(S.and_(c1 >= n1, c2 >= n2), 1, 0)))


@contract('C06', 'NRevisitsMetric', C + 'NRevisitsMetric.run')
def nrevisits(S):
    n, t = times(S)
    dt = S.choice('dt', [30.0, 720.0, 1440.0, 2880.0])
    normed = S.bool('normed')
    ds = S.table(observationStartMJD=t)
    old = S.snapshot(ds)
    r = ca.NRevisitsMetric(d_t=dt, normed=normed).run(ds)
    c = S.count(gaps(S, t) <= dt / 60.0 / 24.0)
    S.ensure('revisits at most that much later', S.eq(r * n, c) if normed else S.eq(r, c))
    S.unchanged('visits not modified', ds, old)


@contract('C06', 'IntraNightGapsMetric', C + 'IntraNightGapsMetric.run')
def intra(S):
    n, t, nt = nightly(S)
    red = S.choice('reduce', ['median', 'mean', 'max'])
    m = ca.IntraNightGapsMetric(reduce_func=lambda v: S.fn(red, v))
    r = m.run(S.table(observationStartMJD=t, night=nt))
    o = S.order(t)
    w, k = t[o], nt[o]
    d = (w[1:] - w[:-1])[k[1:] == k[:-1]]
    if S.cond(S.size(d) > 0):
        S.ensure('statistic of same-night gaps in hours', S.eq(r, S.fn(red, d) * 24))
    else:
        S.ensure('no same-night gap: bad value', S.eq(r, m.badval))


@contract('C06', 'InterNightGapsMetric', C + 'InterNightGapsMetric.run', bounded='positions of the nights within the sorted table')
def inter(S):
    n, t, nt = nightly(S)
    red = S.choice('reduce', ['median', 'mean', 'max'])
    m = ca.InterNightGapsMetric(reduce_func=getattr(np, red))
    r = m.run(S.table(observationStartMJD=t, night=nt))
    by = {}
    for a, b in zip(t, nt):
        by.setdefault(int(b), []).append(float(a))
    ks = sorted(by)
    d = [min(by[q]) - max(by[p]) for p, q in zip(ks, ks[1:])]
    S.ensure('statistic of first of next night minus last of night', S.eq(r, getattr(np, red)(d) if d else m.badval))


@contract('C06', 'VisitGapMetric', C + 'VisitGapMetric.run')
def visitgap(S):
    n, t, nt = nightly(S, 2)
    red = S.choice('reduce', ['median', 'mean', 'max'])
    r = ca.VisitGapMetric(reduce_func=lambda v: S.fn(red, v)).run(S.table(observationStartMJD=t, night=nt))
    S.ensure('statistic of all neighbouring gaps in hours', S.eq(r, S.fn(red, gaps(S, t)) * 24))


@contract('C06', 'PairFractionMetric', 'rubin_sim.maf.metrics.visit_groups_metric:PairFractionMetric.run',
          bounded='counts over pairs for every visit')
def pairfrac(S):
    n, t = times(S)
    lo = S.choice('lo', [720.0, 1440.0])
    hi = S.choice('hi', [2160.0, 4320.0])
    ds = S.table(observationStartMJD=t)
    r = vg.PairFractionMetric(min_gap=lo, max_gap=hi).run(ds)
    a, b = lo / 60.0 / 24.0, hi / 60.0 / 24.0
    sure = sum(any(a < abs(x - y) < b for y in t) for x in t)
    may = sum(any(a <= abs(x - y) <= b for y in t) for x in t)
    S.ensure('every visit with a partner inside the limits counts', r * n > sure - 1e-6)
    S.ensure('no visit without one counts', r * n < may + 1e-6)


def genuni(given):
    @contract('C06', 'GeneralUniformityMetric (%s)' % ('limits given' if given else 'limits from the data'), C + 'GeneralUniformityMetric.run')
    def body(S):
        n, t = times(S, 2)
        lo, hi = (S.real('lo', -4, 0), S.real('hi', 17, 30)) if given else (None, None)
        m = ca.GeneralUniformityMetric(min_value=lo, max_value=hi)
        r = m.run(S.table(observationStartMJD=t))
        w = S.fn('sort', t)
        a, b = (lo, hi) if given else (S.fn('min', t), S.fn('max', t))
        if S.cond(a == b):
            S.ensure('no spread: one', S.eq(r, 1))
            return
        dev = lambda k: abs(S.div(S.real_of(k), S.real_of(n - 1)) - S.div(w[k] - a, b - a))
        S.forall('no larger deviation from the uniform distribution', n, lambda k: dev(k) <= r + (0 if S.symbolic else 1e-9))
        S.ensure('at most one', r <= (1 if S.symbolic else 1 + 1e-9))
        if not S.symbolic:
            S.ensure('attained', S.eq(r, max(dev(k) for k in range(n))))


genuni(True)
genuni(False)


@contract('C06', 'TemplateExistsMetric', C + 'TemplateExistsMetric.run', bounded='running minimum')
def template(S):
    n = S.int('n', 1)
    t = S.arr('mjd', n, lo=0, hi=16, distinct=True)
    s = S.arr('seeing', n, lo=0.25, hi=2)
    r = ca.TemplateExistsMetric().run(S.table(seeingFwhmGeom=s, observationStartMJD=t))
    v = [float(x) for _, x in sorted(zip(t, s))]
    S.ensure('fraction of visits with an earlier one at least as sharp', S.eq(r * n, sum(any(q <= v[k] for q in v[:k]) for k in range(n))))
