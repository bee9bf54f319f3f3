"""C01: value-binned slices are an exact partition of the visits."""
import itertools
import math
import numpy as np
from pyver.api import contract
import rubin_sim.maf.slicers.one_d_slicer as od
import rubin_sim.maf.slicers.nd_slicer as nd
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.utils as mu

O = 'rubin_sim.maf.slicers.one_d_slicer:OneDSlicer.'
N = 'rubin_sim.maf.slicers.nd_slicer:NDSlicer.'


class Probe(object):
    """a map: adds a value for every slice point"""

    def run(self, slice_points):
        slice_points['probe'] = slice_points['sid'] * 2 + 1
        return slice_points


def exact_slice(S, tag, idxs, x, lo, hi, upper_open=False):
    """idxs holds exactly the visits with lo <= x < hi, each once"""
    S.forall(tag + ': only visits of the bin', S.size(idxs), lambda j: S.and_(
        idxs[j] >= 0, idxs[j] < S.size(x), x[idxs[j]] >= lo, x[idxs[j]] < hi))
    S.forall2(tag + ': no visit twice', S.size(idxs), lambda i, j: idxs[i] != idxs[j])
    S.ensure(tag + ': every visit of the bin', S.eq(S.size(idxs), S.count((x >= lo) & (x < hi))))


@contract('C01', 'OneDSlicer with given bin edges', [O + 'setup_slicer', 'rubin_sim.maf.slicers.base_slicer:BaseSlicer.__getitem__'])
def oned(S):
    n = S.int('n', 0)
    nb = S.int('nb', 1, gen=lambda r: r.randint(1, 5))
    bins = S.arr('bins', nb + 1, order='strict')
    x = S.arr('x', n, near=bins)
    ds = S.table(x=x)
    old, oldb = S.snapshot(ds), S.snapshot(bins)
    sl = od.OneDSlicer(slice_col_name='x', slice_col_units='', bins=bins)
    sl.setup_slicer(ds, maps=[Probe()])
    S.ensure('one slice per bin', S.eq(sl.nslice, nb))
    S.ensure('one metric value per bin', S.eq(sl.shape, nb))
    k = S.int('k', 0, nb - 1)
    S.ensure('map values for every bin', S.eq(sl.slice_points['probe'][k], 2 * k + 1))
    s = sl[k]
    exact_slice(S, 'slice', s['idxs'], x, bins[k], bins[k + 1])
    S.ensure('slice id', S.eq(s['slice_point']['sid'], k))
    S.ensure('reports its own edges', S.and_(S.eq(s['slice_point']['bin_left'], bins[k]), S.eq(s['slice_point']['bin_right'], bins[k + 1])))
    S.ensure('slice point ids', S.eq(sl.slice_points['sid'][k], k))
    S.ensure('slice point edges', S.eq(sl.slice_points['bins'][k], bins[k]))
    S.unchanged('visits not modified', ds, old)
    S.unchanged('edges not modified', bins, oldb)


@contract('C01', 'OneDSlicer edges from minimum, maximum and size', [O + 'setup_slicer'])
def oned_size(S):
    n = S.int('n', 1)
    given = S.choice('given', ['both', 'min', 'max', 'none'])
    x = S.arr('x', n)
    size = S.real('size', 0.25, 8)
    lo = S.real('lo', near=x)
    hi = S.real('hi', near=x)
    xmin, xmax = S.fn('min', x), S.fn('max', x)
    blo = lo if given in ('both', 'min') else xmin
    bhi = hi if given in ('both', 'max') else xmax
    S.assume(blo <= bhi)
    ds = S.table(x=x)
    sl = od.OneDSlicer(slice_col_name='x', slice_col_units='', bin_min=lo if given in ('both', 'min') else None,
                       bin_max=hi if given in ('both', 'max') else None, bin_size=size)
    sl.setup_slicer(ds)
    b = sl.bins
    same = S.cond(blo == bhi)
    top = bhi + 2 * size if same else bhi
    S.ensure('starts at the minimum', S.eq(b[0], blo))
    S.forall('evenly spaced by the requested size', S.size(b), lambda k: S.eq(b[k], blo + S.real_of(k) * size))
    S.ensure('covers the range to within half a bin', S.and_(b[-1] >= top - size * 0.5, b[-1] < top + size * 0.5 + (0 if S.symbolic else 1e-9)))
    S.ensure('slice count', S.eq(sl.nslice, S.size(b) - 1))


@contract('C01', 'OneDSlicer automatic bins', [O + 'setup_slicer', 'rubin_sim.maf.utils.maf_utils:optimal_bins'],
          bounded='the automatic bin count uses percentiles and masked arrays outside the model')
def oned_auto(S):
    n = S.int('n', 1, gen=lambda r: r.randint(1, 60))
    x = S.arr('x', n)
    ds = S.table(x=x)
    sl = od.OneDSlicer(slice_col_name='x', slice_col_units='')
    sl.setup_slicer(ds)
    b = sl.bins
    S.ensure('starts at the minimum', S.eq(b[0], min(x)))
    S.ensure('ends at the maximum', S.eq(b[-1], max(x) if max(x) > min(x) else min(x) + 1))
    S.ensure('even spacing', S.eq(np.diff(b), (b[-1] - b[0]) / (len(b) - 1)))
    top = max(x) if max(x) > min(x) else min(x) + 1
    S.ensure('Freedman-Diaconis number of bins', len(b) - 1 in fd_bins(list(x), min(x), top, 200, 1))
    tot = 0
    for k in range(sl.nslice):
        s = sl[k]
        exact_slice(S, 'slice', s['idxs'], x, b[k], b[k + 1])
        tot += len(s['idxs'])
    S.ensure('no visit inside the range is lost', S.eq(tot, S.count(x < b[-1])))


def quantile(v, q):
    v = sorted(v)
    h = (len(v) - 1) * q
    i = int(math.floor(h))
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (h - i)


def fd_bins(vals, lo, hi, nmax, nmin):
    """the numbers of bins the Freedman-Diaconis rule allows for (two when rounding decides)"""
    v = [float(a) for a in vals if lo <= a <= hi]
    if not v:
        return {nmax}
    width = 2 * (quantile(v, 0.75) - quantile(v, 0.25)) / len(v) ** (1 / 3.0)
    if width <= 0:
        return {nmax}
    out = set()
    for eps in (-1e-9, 1e-9):
        out.add(int(min(max((hi - lo) / width * (1 + eps), nmin), nmax)))
    return out


@contract('C01', 'automatic number of bins', ['rubin_sim.maf.utils.maf_utils:optimal_bins'],
          bounded='percentiles of masked arrays are outside the model', trials=800)
def opt_bins(S):
    n = S.int('n', 0, gen=lambda r: r.randint(0, 12))
    x = S.arr('x', n, gen=lambda r: r.choice([r.uniform(-5, 5), float(r.randint(-3, 3)), r.choice([0.0, 1.0, 50.0])]))
    masked = S.choice('masked', [False, True])
    m = S.arr('m', n, 'b')
    hole = S.choice('nan', [False, True])
    data = np.array([float(v) for v in x])
    if hole and n:
        data[int(S.r.randint(0, n - 1))] = np.nan
    good = [float(v) for v, b in zip(data, m) if not (masked and b)]
    arg = np.ma.MaskedArray(data=data, mask=np.array([bool(b) for b in m], dtype=bool)) if masked else data
    lo = S.choice('lo', [None, -2.0, 0.5])
    hi = S.choice('hi', [None, 2.0, 0.75])
    nmax = S.choice('nmax', [200, 7, 3])
    nmin = S.choice('nmin', [1, 2])
    verbose = S.choice('verbose', [False, True])
    fin = [v for v in good if v == v]
    S.assume(bool(fin) or not good)
    got = mu.optimal_bins(arg, binmin=lo, binmax=hi, nbin_max=nmax, nbin_min=nmin, verbose=verbose)
    if not good:
        S.ensure('nothing to bin', got == nmax)
    else:
        a = lo if lo is not None else min(fin)
        b = hi if hi is not None else max(fin)
        if a == b:
            S.ensure('single value', got == nmax)
        elif a < b:
            S.ensure('Freedman-Diaconis rule on the values in range', got in fd_bins(fin, a, b, nmax, nmin))


@contract('C01', 'OneDSlicer iteration', [O + 'setup_slicer', 'rubin_sim.maf.slicers.base_slicer:BaseSlicer.__iter__',
                                          'rubin_sim.maf.slicers.base_slicer:BaseSlicer.__next__'],
          bounded='iteration over all slices of a concrete table')
def oned_iter(S):
    n = S.int('n', 0)
    nb = S.int('nb', 1, gen=lambda r: r.randint(1, 6))
    bins = S.arr('bins', nb + 1, order='strict')
    x = S.arr('x', n, near=bins)
    sl = od.OneDSlicer(slice_col_name='x', slice_col_units='', bins=bins)
    sl.setup_slicer(S.table(x=x))
    for rep in range(2):
        seen = []
        for s in sl:
            k = s['slice_point']['sid']
            seen.append(k)
            S.ensure('same as direct access', S.eq(sorted(s['idxs']), sorted(sl[k]['idxs'])))
        S.ensure('every slice once, in order', seen == list(range(nb)))
    S.ensure('length', len(sl) == nb)


@contract('C01', 'OneDSlicer equality', [O + '__eq__'])
def oned_eq(S):
    nb = S.int('nb', 2, gen=lambda r: r.randint(2, 4))
    mb = S.int('mb', 2, gen=lambda r: r.randint(2, 4))
    a = S.arr('a', nb, order='strict', pool=None, gen=lambda r: float(r.randint(0, 4)))
    b = S.arr('b', mb, order='strict', gen=lambda r: float(r.randint(0, 4)))
    c2 = S.choice('col', ['x', 'y'])
    s1 = od.OneDSlicer(slice_col_name='x', slice_col_units='', bins=a)
    s2 = od.OneDSlicer(slice_col_name=c2, slice_col_units='', bins=b)
    r = s1 == s2
    same = S.eq(a, b) if not S.symbolic else None
    if S.cond(r):
        S.ensure('equal slicers slice the same column with the same edges', S.and_(c2 == 'x', S.eq(a, b)))
    elif not S.symbolic:
        S.ensure('different otherwise', not (c2 == 'x' and same))


@contract('C01', 'OneDSlicer equality by minimum, maximum and size', [O + '__eq__'], max_paths=1200)
def oned_eq_size(S):
    small = lambda r: float(r.randint(0, 1))
    k1, k2 = {}, {}
    for c in ('bin_min', 'bin_max', 'bin_size'):
        k1[c] = S.real('a' + c, gen=small) if S.choice('given a ' + c, [True, True, False]) else None
        k2[c] = S.real('b' + c, gen=small) if S.choice('given b ' + c, [True, True, False]) else None
    col = S.choice('col', ['x', 'y'])
    s1 = od.OneDSlicer(slice_col_name='x', slice_col_units='', **k1)
    s2 = od.OneDSlicer(slice_col_name=col, slice_col_units='', **k2)
    known = all(v is not None for v in list(k1.values()) + list(k2.values()))
    eq = s1 == s2
    if known:
        same = S.and_(col == 'x', *[k1[c] == k2[c] for c in k1])
        S.ensure('equal exactly with the same column, range and size', S.and_(S.implies(eq, same), S.implies(same, eq)))
    else:
        S.ensure('slicers without a known range are not equal', not eq)


@contract('C01', 'OneDSlicer equality before and after set-up', [O + '__eq__'],
          bounded='both slicers are set up with concrete tables')
def oned_eq_set(S):
    x = S.arr('x', S.int('n', 2), lo=0, hi=4, pool=None)
    y = S.arr('y', S.int('m', 2), lo=0, hi=4) if S.choice('other', [False, True]) else x
    bins = S.choice('bins', [None, [0.0, 1.0, 2.0]])
    size = S.choice('size', [None, 0.5]) if bins is None else None
    s1 = od.OneDSlicer(slice_col_name='x', slice_col_units='', bins=None if bins is None else np.array(bins), bin_size=size)
    s2 = od.OneDSlicer(slice_col_name='x', slice_col_units='', bins=None if bins is None else np.array(bins), bin_size=size)
    set1, set2 = S.choice('set1', [True, False]), S.choice('set2', [True, False])
    if set1:
        s1.setup_slicer(S.table(x=x))
    if set2:
        s2.setup_slicer(S.table(x=y))
    S.ensure('not equal to something else', not (s1 == nd.NDSlicer(['x'], bins_list=3)))
    if set1 and set2:
        S.ensure('set up: equal when the edges are', bool(s1 == s2) == (len(s1.bins) == len(s2.bins) and bool(np.all(s1.bins == s2.bins))))
    elif bins is not None:
        S.ensure('given edges: equal before either is set up', bool(s1 == s2))


def nd_check(S, ndim, big):
    n = S.int('n', 0 if big else 1)
    cols, edges = {}, []
    for d in range(ndim):
        nb = S.int('nb%d' % d, 1, gen=lambda r: r.randint(1, 3))
        e = S.arr('bins%d' % d, nb + 1, order='strict')
        edges.append(e)
        cols['c%d' % d] = S.arr('x%d' % d, n, near=e)
    ds = S.table(**cols)
    old = S.snapshot(ds)
    names = list(cols)
    r = S.r
    given = [list(r.sample(list(e), len(e))) for e in edges]
    sl = nd.NDSlicer(names, bins_list=given)
    sl.setup_slicer(ds, maps=[Probe()])
    shape = [len(e) - 1 for e in edges]
    S.ensure('one slice per combination of bins', S.eq(sl.nslice, int(np.prod(shape))))
    S.ensure('one metric value per combination', sl.shape == sl.nslice)
    S.ensure('slice ids', list(sl.slice_points['sid']) == list(range(sl.nslice)))
    S.ensure('map values', list(sl.slice_points['probe']) == [2 * i + 1 for i in range(sl.nslice)])
    total = 0
    for k, combo in enumerate(itertools.product(*[range(m) for m in shape])):
        s = sl[k]
        want = np.ones(n, bool)
        for d in range(ndim):
            i = combo[d]
            want &= ds[names[d]] >= edges[d][i]
            if i < shape[d] - 1:
                want &= ds[names[d]] < edges[d][i + 1]
        S.ensure('exactly the visits of the bin', sorted(int(v) for v in s['idxs']) == np.where(want)[0].tolist())
        S.ensure('reports its own left edges', S.eq(s['slice_point']['bin_left'], [edges[d][combo[d]] for d in range(ndim)]))
        S.ensure('slice id', s['slice_point']['sid'] == k)
        total += len(s['idxs'])
    inside = np.ones(n, bool)
    for d in range(ndim):
        inside &= ds[names[d]] >= edges[d][0]
    S.ensure('no visit inside the range lost', total == int(inside.sum()))
    S.unchanged('visits not modified', ds, old)


NDB = 'set intersections and itertools products over symbolic-length bins are outside the verifier'


@contract('C01', 'NDSlicer, given edges, two columns', [N + 'setup_slicer'], bounded=NDB)
def nd2(S):
    nd_check(S, 2, True)


@contract('C01', 'NDSlicer, given edges, three columns', [N + 'setup_slicer'], bounded=NDB)
def nd3(S):
    nd_check(S, 3, True)


@contract('C01', 'NDSlicer, given edges, one column', [N + 'setup_slicer'], bounded=NDB)
def nd1(S):
    nd_check(S, 1, True)


@contract('C01', 'NDSlicer, bin counts', [N + 'setup_slicer'], bounded=NDB)
def nd_count(S):
    n = S.int('n', 1)
    x, y = S.arr('x', n), S.arr('y', n)
    k1, k2 = S.int('k1', 1, 5), S.int('k2', 1, 5)
    ds = S.table(x=x, y=y)
    if S.choice('single', [False, True]):
        # one number applies to every column
        k2 = k1
        sl = nd.NDSlicer(['x', 'y'], bins_list=float(k1) if S.choice('float', [False, True]) else k1)
    else:
        sl = nd.NDSlicer(['x', 'y'], bins_list=[k1, k2])
    sl.setup_slicer(ds)
    for b, v, kk in ((sl.bins[0], x, k1), (sl.bins[1], y, k2)):
        top = max(v) if max(v) > min(v) else min(v) + 1
        S.ensure('requested number of bins from minimum to maximum', S.eq(b, min(v) + (top - min(v)) * np.arange(kk + 1) / kk))
    S.ensure('every visit in exactly one slice', sorted(int(v) for s in sl for v in s['idxs']) == list(range(n)))
