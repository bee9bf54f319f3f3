"""C02: a time slice holds exactly the visits of its own time interval."""
import math
import numpy as np
from pyver.api import contract
import rubin_sim.maf.slicers.movie_slicer as mv
import rubin_sim.maf.slicers.time_interval_slicers as ti
import rubin_sim.maf.utils as mu

MV = 'rubin_sim.maf.slicers.movie_slicer:MovieSlicer.'
TI = 'rubin_sim.maf.slicers.time_interval_slicers:'


class Probe(object):
    """a map: adds a value for every slice point"""

    def run(self, slice_points):
        slice_points['probe'] = slice_points['sid'] * 2 + 1
        return slice_points


def exact(S, tag, idxs, x, cond):
    S.forall(tag + ': only visits of the interval', S.size(idxs), lambda j: S.and_(
        idxs[j] >= 0, idxs[j] < S.size(x), cond(x[idxs[j]])))
    S.forall2(tag + ': no visit twice', S.size(idxs), lambda i, j: idxs[i] != idxs[j])
    S.ensure(tag + ': every visit of the interval', S.eq(S.size(idxs), S.count(cond(x))))


def movie(S, cumulative):
    n = S.int('n', 1)
    nb = S.int('nb', 1, gen=lambda r: r.randint(1, 5))
    edges = S.arr('edges', nb + 1, order='strict')
    x = S.arr('x', n, near=edges)
    ds = S.table(night=x)
    old = S.snapshot(ds)
    sl = mv.MovieSlicer(slice_col_name='night', slice_col_units='', bins=edges, cumulative=cumulative, force_no_ffmpeg=True)
    sl.setup_slicer(ds, maps=[Probe()])
    S.ensure('one frame per bin', S.eq(sl.nslice, nb))
    S.ensure('one metric value per frame', S.eq(sl.shape, nb))
    k = S.int('k', 0, nb - 1)
    S.ensure('slice points: frame id', S.eq(sl.slice_points['sid'][k], k))
    S.ensure('slice points: frame edges', S.eq(sl.slice_points['bins'][k], edges[k]))
    S.ensure('map values for every frame', S.eq(sl.slice_points['probe'][k], 2 * k + 1))
    s = sl[k]
    last = S.cond(k == nb - 1)
    # the last frame is open towards later times: everything from its start on
    lo = edges[k]
    hi = edges[k + 1]
    if cumulative:
        cond = (lambda v: v == v) if last else (lambda v: v < hi)
        S.ensure('starts at the first edge', S.eq(s['slice_point']['bin_left'], edges[0]))
    else:
        cond = (lambda v: v >= lo) if last else (lambda v: (v >= lo) & (v < hi))
        S.ensure('starts at its own edge', S.eq(s['slice_point']['bin_left'], lo))
    exact(S, 'frame', s['idxs'], x, cond)
    S.ensure('ends at its own edge', S.eq(s['slice_point']['bin_right'], hi))
    S.ensure('frame id', S.eq(s['slice_point']['sid'], k))
    S.unchanged('visits not modified', ds, old)


@contract('C02', 'MovieSlicer cumulative frames', [MV + 'setup_slicer'])
def movie_c(S):
    movie(S, True)


@contract('C02', 'MovieSlicer single frames', [MV + 'setup_slicer'])
def movie_d(S):
    movie(S, False)


@contract('C02', 'MovieSlicer frame edges from a size', [MV + 'setup_slicer'])
def movie_size(S):
    n = S.int('n', 1)
    x = S.arr('x', n)
    size = S.real('size', 0.25, 8)
    sl = mv.MovieSlicer(slice_col_name='night', slice_col_units='', bin_size=size, force_no_ffmpeg=True)
    sl.setup_slicer(S.table(night=x))
    b = sl.bins
    lo, hi = S.fn('min', x), S.fn('max', x)
    top = hi + 2 * size if S.cond(lo == hi) else hi
    S.ensure('starts at the minimum', S.eq(b[0], lo))
    S.forall('evenly spaced by the requested size', S.size(b), lambda k: S.eq(b[k], lo + S.real_of(k) * size))
    S.ensure('covers the range to within half a frame', S.and_(b[-1] >= top - size * 0.5, b[-1] < top + size * 0.5 + (0 if S.symbolic else 1e-9)))


@contract('C02', 'MovieSlicer frame edges from a number or from nothing', [MV + 'setup_slicer'],
          bounded='the automatic bin count uses percentiles outside the model')
def movie_auto(S):
    n = S.int('n', 1, gen=lambda r: r.randint(1, 40))
    x = S.arr('x', n)
    how = S.choice('how', ['count', 'auto', 'unsorted', 'both'])
    kw = {}
    if how == 'count':
        kw['bins'] = S.int('nb', 1, 8)
    elif how == 'unsorted':
        e = sorted(set(float(v) for v in S.arr('edges', S.int('ne', 2, 6))))
        S.assume(len(e) >= 2)
        kw['bins'] = S.r.sample(e, len(e))
    elif how == 'both':
        kw['bins'] = [0.0, 1.0]
        kw['bin_size'] = S.real('size', 0.25, 8)
    lo, hi = float(min(x)), float(max(x))
    given = S.choice('range', [False, True]) and how != 'unsorted'
    if given:
        lo, hi = S.choice('lo', [-3.0, 0.0]), S.choice('hi', [0.0, 4.0])
        kw['bin_min'], kw['bin_max'] = lo, hi
    sl = mv.MovieSlicer(slice_col_name='night', slice_col_units='', force_no_ffmpeg=True, cumulative=False, **kw)
    sl.setup_slicer(S.table(night=x))
    b = [float(v) for v in sl.bins]
    if how == 'unsorted':
        S.ensure('the given edges, in order', b == e)
    else:
        if lo == hi:
            hi = hi + (2 * kw['bin_size'] if how == 'both' else 1)
        if how == 'both':
            S.ensure('the size decides', S.eq(np.diff(b), kw['bin_size']))
            S.ensure('up to half a frame', abs(b[-1] - hi) <= kw['bin_size'] / 2 + 1e-9)
        else:
            nb = kw['bins'] if how == 'count' else mu.optimal_bins(np.array([float(v) for v in x]), lo, hi)
            S.ensure('number of frames', len(b) - 1 == nb)
            S.ensure('ends at the maximum', S.eq(b[-1], hi))
            S.ensure('even', S.eq(np.diff(b), (hi - lo) / nb))
        S.ensure('starts at the minimum', S.eq(b[0], lo))
    for k in range(sl.nslice):
        idxs = sl[k]['idxs']
        want = [i for i in range(n) if x[i] >= b[k] and (k == sl.nslice - 1 or x[i] < b[k + 1])]
        S.ensure('frame holds its visits', sorted(int(i) for i in idxs) == want)


@contract('C02', 'VisitIntervalSlicer', [TI + 'VisitIntervalSlicer.setup_slicer'])
def visit(S):
    n = S.int('n', 1)
    t = S.arr('mjd', n, lo=60000, hi=60010)
    d = S.arr('dur', n, lo=0, hi=100)
    e = S.arr('extra', n)
    ds = S.table(observationStartMJD=t, visitTime=d, airmass=e)
    old = S.snapshot(ds)
    sl = ti.VisitIntervalSlicer(extra_column_names=['airmass'])
    sl.setup_slicer(ds, maps=[Probe()])
    S.ensure('one slice per visit', S.eq(sl.nslice, n))
    S.ensure('one metric value per visit', S.eq(sl.shape, n))
    k = S.int('k', 0, n - 1)
    S.ensure('map values for every visit', S.eq(sl.slice_points['probe'][k], 2 * k + 1))
    s = sl[k]
    i = s['idxs']
    S.ensure('a visit of the table', S.and_(i >= 0, i < n))
    S.ensure('its own time', S.eq(s['slice_point']['mjd'], t[i]))
    S.ensure('its own duration', S.eq(s['slice_point']['duration'], d[i]))
    S.ensure('its own extra columns', S.eq(s['slice_point']['airmass'], e[i]))
    S.ensure('its own identifier', S.eq(s['slice_point']['sid'][0], i))
    k2 = S.int('k2', 0, n - 1)
    S.assume(k < k2)
    i2 = sl[k2]['idxs']
    S.ensure('visits in time order', t[i] <= t[i2])
    S.ensure('every slice a different visit', i != i2)
    # metric values are stored by slice identifier, and plotted against the slice points in that order
    S.ensure('slice points: identifier', S.eq(sl.slice_points['sid'][k], k))
    S.ensure('slice points, by identifier: time', S.eq(sl.slice_points['mjd'][i], t[i]))
    S.ensure('slice points, by identifier: duration', S.eq(sl.slice_points['duration'][i], d[i]))
    S.unchanged('visits not modified', ds, old)


@contract('C02', 'TimeIntervalSlicer', [TI + 'TimeIntervalSlicer.setup_slicer'],
          bounded='interval assignment goes through pandas groupby, outside the verifier')
def interval(S):
    n = S.int('n', 1)
    sec = S.choice('sec', [43200, 21600, 5400, 10800, 50000])
    t = S.arr('mjd', n, lo=60000, hi=60003)
    ds = S.table(observationStartMJD=t)
    sl = ti.TimeIntervalSlicer(interval_seconds=sec)
    if S.choice('again', [False, True]):
        # a slicer that was set up with other visits before
        m = S.int('m', 1)
        sl.setup_slicer(S.table(observationStartMJD=S.arr('mjd0', m, lo=60000, hi=60003)))
    sl.setup_slicer(ds, maps=[Probe()])
    total = 0
    width = sec / 86400.0
    start = math.floor(min(t))
    whole = (math.floor(max(t)) + 1 - start) / width
    S.ensure('intervals up to the end of the last day', whole - 1e-6 <= sl.nslice <= whole + 1 - 1e-9)
    S.ensure('one metric value per interval', sl.shape == sl.nslice)
    S.ensure('slice points', list(sl.slice_points['sid']) == list(range(sl.nslice)))
    S.ensure('map values', list(sl.slice_points['probe']) == [2 * i + 1 for i in range(sl.nslice)])
    for k in range(sl.nslice):
        s = sl[k]
        a, b = start + k * width, start + (k + 1) * width
        S.ensure('reported start', S.eq(s['slice_point']['mjd'], a))
        S.ensure('reported duration', S.eq(s['slice_point']['duration'], sec))
        idx = list(s['idxs'])
        S.ensure('slice id', s['slice_point']['sid'] == k)
        S.ensure('indices select visits of the table', len(ds[idx]) == len(idx))
        S.ensure('exactly the visits of the interval', sorted(idx) == [
            i for i in range(n) if a - 1e-9 <= t[i] < b - 1e-9])
        total += len(idx)
    S.ensure('every visit in one interval', total == n)


@contract('C02', 'BlockIntervalSlicer', [TI + 'BlockIntervalSlicer.setup_slicer'],
          bounded='blocks are formed with pandas groupby, outside the verifier')
def block(S):
    n = S.int('n', 1)
    t = S.arr('mjd', n, gen=lambda r: 60000 + r.randint(0, 60) / 512.0, distinct=True)
    d = S.arr('dur', n, lo=30, hi=600)
    note = S.arr('note', n, 's', pool=['a', 'b', 'c, x'])
    ds = S.table(observationStartMJD=t, visitTime=d, scheduler_note=note)
    old = S.snapshot(ds)
    sl = ti.BlockIntervalSlicer()
    if S.choice('again', [False, True]):
        m = S.int('m', 1)
        sl.setup_slicer(S.table(observationStartMJD=S.arr('mjd0', m, gen=lambda r: 60000 + r.randint(0, 60) / 512.0, distinct=True),
                                visitTime=S.arr('dur0', m, lo=30, hi=600), scheduler_note=S.arr('note0', m, 's', pool=['a', 'b', 'c, x'])))
    sl.setup_slicer(ds, maps=[Probe()])
    order = sorted(range(n), key=lambda i: t[i])
    blocks = [[order[0]]]
    for a, b in zip(order, order[1:]):
        if note[a] == note[b] and t[a] + d[a] / 86400.0 + sl.gap_tolerance / 24.0 > t[b]:
            blocks[-1].append(b)
        else:
            blocks.append([b])
    S.ensure('number of blocks', sl.nslice == len(blocks))
    S.ensure('one metric value per block', sl.shape == len(blocks))
    S.ensure('slice points', list(sl.slice_points['sid']) == list(range(len(blocks))))
    S.ensure('map values', list(sl.slice_points['probe']) == [2 * i + 1 for i in range(len(blocks))])
    for k, bl in enumerate(blocks):
        s = sl[k]
        S.ensure('block id', s['slice_point']['sid'] == k)
        S.ensure('visits of the block', sorted(int(i) for i in s['idxs']) == sorted(bl))
        S.ensure('start', S.eq(s['slice_point']['mjd'], min(t[i] for i in bl)))
        S.ensure('duration', S.eq(s['slice_point']['duration'],
                                  (max(t[i] + d[i] / 86400.0 for i in bl) - min(t[i] for i in bl)) * 86400, rtol=1e-4, atol=1e-3))
    S.unchanged('visits not modified', ds, old)
