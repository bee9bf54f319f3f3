"""C03: a metric's value for a slice depends on that slice's visits and nothing else."""
import contextlib
import os
import tempfile
import itertools
import numpy as np
from pyver.api import contract, loops
from pyver.engine import LoopSpec, SEnum
from pyver.sym import SArr, SV, ite
from pyver.terms import IV, subst
import z3
import rubin_sim.maf.metric_bundles.metric_bundle_group as mg
import rubin_sim.maf.metric_bundles.metric_bundle as mb
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.stackers as stackers
import rubin_sim.maf.maps as maps

G = 'rubin_sim.maf.metric_bundles.metric_bundle_group:MetricBundleGroup.'
B = 'rubin_sim.maf.metric_bundles.metric_bundle:MetricBundle.'


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='c03') as d:
        yield d


class AnyMetric(metrics.BaseMetric):
    """a metric whose value is an arbitrary function of the visits of the slice"""

    def __init__(self, name, f, badval):
        super().__init__(col='x', metric_name=name, badval=badval)
        self.f = f

    def run(self, data_slice, slice_point=None):
        return self.f(data_slice['x'].sum() if len(data_slice['x'].shape) else data_slice['x'])


class AnySlicer(slicers.BaseSlicer):
    """the contract of a slicer: slice k holds the visits whose tag is k"""

    def __init__(self, S, tag, n, cache=0):
        super().__init__(verbose=False, badval=-5)
        self.S, self.tag, self.n = S, tag, n
        self.columns_needed = ['x']
        self.cache_size = cache
        self.plot_funcs = []

    def setup_slicer(self, sim_data, maps=None):
        self.nslice = self.n
        self.shape = self.n

    def item(self, k):
        sv = SV(k) if self.S.symbolic else k
        m = self.tag == sv
        return {'idxs': self.where(m), 'slice_point': {'sid': sv}}

    def where(self, m):
        if self.S.symbolic:
            from pyver import npmodel
            return npmodel.m_where(m)[0]
        return np.where(m)[0]

    def _slice_sim_data(self, k):
        return self.item(k)

    def pv_seq(self):
        return SEnum(self.n.t, self.item)

    def __iter__(self):
        if self.S.symbolic:
            raise RuntimeError('iteration')
        return super().__iter__()

    def __len__(self):
        return self.n

    def __eq__(self, other):
        return self is other


class SlicePass(LoopSpec):
    """after k slices, entry j<k of every bundle holds its metric's value on slice j (or is masked if the slice is empty)"""
    heap = ('data', 'mask', 'metric_values')
    dead = ('i', 'slicedata', 'b', 'cache_key', 'use_cache', 'cache_val')

    def enter(self, S, v, it, n):
        st = S.spec_state
        self.init = {k: (b.metric_values.data.copy(), b.metric_values.mask.copy()) for k, b in st['bundles'].items()}

    def expect(self, S, key, k):
        """(data, mask) after k slices"""
        st = S.spec_state
        d0, m0 = self.init[key]
        j = z3.Int('slice!j')
        empty, value = st['spec'](key, SV(j))
        done = j < k.t
        data = z3.If(z3.And(done, z3.Not(empty.t)), value.t, subst(d0.body, IV, j))
        mask = z3.If(z3.And(done, empty.t), z3.BoolVal(True), subst(m0.body, IV, j))
        return subst(data, j, IV), subst(mask, j, IV)

    def havoc(self, S, k, v, it):
        for key, b in S.spec_state['bundles'].items():
            d, m = self.expect(S, key, k)
            mv = b.metric_values
            mv.data.assign(mv.data.dom, d, 'r')
            mv.mask.assign(mv.mask.dom, m, 'b')
        return {}

    def inv(self, S, k, v, it):
        out = []
        for key, b in S.spec_state['bundles'].items():
            d, m = self.expect(S, key, k)
            mv = b.metric_values
            out.append(('values of %s' % key, S.eq(mv.data, SArr(mv.data.dom, d, 'r'))))
            out.append(('mask of %s' % key, S.eq(mv.mask, SArr(mv.mask.dom, m, 'b'))))
        return out


def group_pass(S, save=False):
    n = S.int('n', 1)
    ns = S.int('ns', 1, gen=lambda r: r.randint(1, 6))
    x = S.arr('x', n)
    tag = S.arr('tag', n, 'i', lo=-1, hi=None, gen=lambda r: r.randint(-1, 5))
    bad = S.real('bad', gen=lambda r: float(r.randint(-4, 4)))
    ds = S.table(x=x, tag=tag)
    old = S.snapshot(ds)
    fs = {'A': S.ufun('A'), 'B': S.ufun('B')}
    sl = AnySlicer(S, tag, ns)
    bundles = {k: mb.MetricBundle(AnyMetric('m' + k, f, bad), sl, '', summary_metrics=None, plot_funcs=[]) for k, f in fs.items()}
    for b in bundles.values():
        b.summary_metrics = None
        b.slicer = sl

    def spec(key, j):
        m = tag == j
        return S.eq(S.count(m), 0), fs[key](S.sum(x[m]))
    S.spec_state = dict(bundles=bundles, spec=spec)
    with scratch() as d:
        g = mg.MetricBundleGroup(dict(bundles), None, out_dir=d, save_early=False)
        g.run_current('', sim_data=ds)
    j = S.int('j', 0, ns - 1)
    for key, b in bundles.items():
        empty, value = spec(key, j)
        S.ensure('%s was run' % key, g.has_run[key])
        S.ensure('%s has one entry per slice' % key, S.eq(S.size(b.metric_values.data), ns))
        S.ensure('%s: value of the slice is the metric of its visits' % key, S.implies(
            b.metric_values.mask[j] == False, S.eq(b.metric_values.data[j], value)))  # noqa
        S.ensure('%s: masked exactly when empty or bad' % key, S.eq(b.metric_values.mask[j], S.or_(empty, S.eq(value, bad))))
    S.unchanged('visits not modified', ds, old)


@contract('C03', 'evaluation of a group of metrics over arbitrary slices', [G + 'run_current', G + '_run_compatible', B + '_setup_metric_values',
                                                                           G + '_find_compatible_lists', G + '_check_compatible'],
          loops=loops('rubin_sim.maf.metric_bundles.metric_bundle_group', {'MetricBundleGroup._run_compatible': SlicePass}),
          assumes=['the slicer hands out slice k for k = 0..nslice-1 in order and each metric is a function of the visits it is given'])
def evaluation(S):
    group_pass(S)


def expect(S, b, m, ds, slices, badval):
    """value and mask the bundle must hold, from running the metric on each slice by itself"""
    for k, idx in enumerate(slices):
        if len(idx) == 0:
            yield k, None, True
        else:
            v = m.run(ds[idx], slice_point={'sid': k})
            yield k, v, bool(v == badval)


class ListSlicer(slicers.BaseSlicer):
    """slices given as lists of visit numbers"""

    def __init__(self, lists, cache=0, label='a'):
        super().__init__(verbose=False, badval=-5)
        self.lists = lists
        self.label = label
        self.cache_size = cache
        self.columns_needed = ['x']
        self.plot_funcs = []

    def setup_slicer(self, sim_data, maps=None):
        self.nslice = self.shape = len(self.lists)
        self.slice_points['sid'] = np.arange(self.nslice)
        self.maps_run = list(maps or [])

    def _slice_sim_data(self, k):
        return {'idxs': list(self.lists[k]), 'slice_point': {'sid': k}}

    def __eq__(self, other):
        return isinstance(other, ListSlicer) and self.label == other.label and self.lists == other.lists


def pool(r):
    out = [metrics.CountMetric('x', metric_name='count'), metrics.SumMetric('x', metric_name='sum', badval=0.0),
           metrics.MaxMetric('x', metric_name='max'), metrics.MedianMetric('y', metric_name='med'),
           metrics.CountSubsetMetric('band', subset='r', metric_name='nr', badval=0),
           metrics.MeanMetric('y', metric_name='mean', badval=2.0), metrics.UniqueRatioMetric('band', metric_name='ur', badval=1.0),
           metrics.MinMetric('x', metric_name='min', badval=-1.0)]
    r.shuffle(out)
    return out[:r.randint(1, 5)]


def draw(S):
    n = S.int('n', 1)
    x = S.arr('x', n, gen=lambda r: float(r.randint(-4, 4)))
    y = S.arr('y', n, lo=0, hi=4)
    band = S.arr('band', n, 's', pool=['r', 'g'])
    ds = S.table(x=x, y=y, band=band)
    return n, ds


GB = 'the cache is an ordered dictionary keyed by sets of visits, outside the verifier'


@contract('C03', 'cached evaluation equals direct evaluation', [G + '_run_compatible'], bounded=GB)
def cached(S):
    n, ds = draw(S)
    r = S.r
    groups = [sorted(r.sample(range(n), r.randint(0, n))) for _ in range(r.randint(1, 4))]
    ns = r.randint(1, 12)
    lists = [list(r.choice(groups)) for _ in range(ns)]
    for li in lists:
        r.shuffle(li)
    cache = r.choice([1, 1, 2, 3, 20])
    S.draws['lists'], S.draws['cache'] = lists, cache
    ms = pool(r)
    bs = {m.name: mb.MetricBundle(m, ListSlicer(lists, cache), '', plot_funcs=[]) for m in ms}
    with scratch() as d:
        mg.MetricBundleGroup(dict(bs), None, out_dir=d, save_early=False).run_current('', sim_data=ds.copy())
    for m in ms:
        b = bs[m.name]
        for k, v, masked in expect(S, b, m, ds, lists, m.badval):
            S.ensure('masked exactly when empty or bad', bool(b.metric_values.mask[k]) == masked)
            if not masked:
                S.ensure('same value as without the cache', S.eq(b.metric_values.data[k], v))


@contract('C03', 'metrics run together equal metrics run alone', [G + 'run_all', G + 'run_current', G + '_run_compatible'],
          bounded='mixture of several slicings, data selections and derived columns in one group')
def together(S):
    n, ds = draw(S)
    r = S.r
    e1 = [-8.0, -1.0, 0.0, 2.0, 8.0]
    e2 = [-8.0, 0.5, 1.0]
    bs, want = {}, {}
    ms = pool(r)
    for i, m in enumerate(ms):
        for j in range(r.randint(1, 2)):
            kind = r.choice(['one', 'two', 'uni', 'y'])
            sl = {'one': lambda: slicers.OneDSlicer('x', slice_col_units='', bins=np.array(e1)),
                  'two': lambda: slicers.OneDSlicer('x', slice_col_units='', bins=np.array(e2)),
                  'y': lambda: slicers.OneDSlicer('y', slice_col_units='', bins=np.array(e2)),
                  'uni': lambda: slicers.UniSlicer()}[kind]()
            key = '%s_%s_%d' % (m.name, kind, j)
            bs[key] = mb.MetricBundle(m, sl, '', plot_funcs=[])
            bs[key].summary_metrics = []
            if kind == 'uni':
                want[key] = [list(range(n))]
            else:
                e, c = {'one': (e1, 'x'), 'two': (e2, 'x'), 'y': (e2, 'y')}[kind]
                want[key] = [[i for i in range(n) if a <= ds[c][i] < b] for a, b in zip(e, e[1:])]
    S.draws['bundles'] = list(bs)
    old = ds.copy()
    with scratch() as d:
        g = mg.MetricBundleGroup(dict(bs), None, out_dir=d, save_early=r.random() < 0.3)
        g.run_current('', sim_data=ds)
        S.ensure('every metric was run', all(g.has_run[k] for k in bs))
    for k, b in bs.items():
        S.ensure('one entry per slice', len(b.metric_values) == len(want[k]))
        for i, v, masked in expect(S, b, b.metric, old, want[k], b.metric.badval):
            S.ensure('masked exactly when empty or bad', bool(b.metric_values.mask[i]) == masked)
            if not masked:
                S.ensure('value of its own slice', S.eq(b.metric_values.data[i], v))
    S.unchanged('visits not modified', ds, old)


class MapA(maps.BaseMap):
    def __init__(self, key='a'):
        self.keynames = [key]

    def run(self, slice_points):
        return slice_points


@contract('C03', 'grouping of compatible metrics', [G + '_find_compatible_lists', G + '_check_compatible', G + 'set_current'],
          bounded='object graphs of bundles, slicers and maps are concrete')
def grouping(S):
    r = S.r
    keys = {}
    desc = {}
    for i in range(r.randint(1, 7)):
        con = r.choice(['', 'night < 3'])
        lab = r.choice(['a', 'b'])
        mp = sorted(r.sample(['p', 'q', 'z'], r.randint(0, 2)))
        deg = r.choice([None, True, False])
        m = r.choice([None, 10, 20])
        st = []
        if deg is not None:
            st.append(stackers.ZenithDistStacker(degrees=deg))
        if m is not None:
            st.append(stackers.NormAirmassStacker(airmass_col='airmass%d' % m))
        mps = [MapA(k) for k in mp]
        r.shuffle(mps)
        b = mb.MetricBundle(metrics.CountMetric('x', metric_name='c%d' % i), ListSlicer([[0]], label=lab), con, stacker_list=st,
                            maps_list=mps, plot_funcs=[])
        keys['k%d' % i] = b
        desc['k%d' % i] = (con, lab, mp, deg, m)
    S.draws['bundles'] = {k: repr(v) for k, v in desc.items()}

    def compat(a, b):
        return (a[:3] == b[:3] and (a[3] is None or b[3] is None or a[3] == b[3]) and (a[4] is None or b[4] is None or a[4] == b[4]))
    with scratch() as d:
        g = mg.MetricBundleGroup(dict(keys), None, out_dir=d)
        seen = []
        for con in g.constraints:
            g.set_current(con)
            S.ensure('exactly the metrics of this data selection', sorted(g.current_bundle_dict) == sorted(
                k for k in keys if desc[k][0] == con))
            g._find_compatible_lists()
            for li in g.compatible_lists:
                seen += li
                for a, b in itertools.combinations(li, 2):
                    S.ensure('only compatible metrics share a pass', compat(desc[a], desc[b]))
        S.ensure('every metric in exactly one pass', sorted(seen) == sorted(keys))
        for a, b in itertools.combinations(keys, 2):
            S.ensure('compatibility as documented', bool(g._check_compatible(keys[a], keys[b])) == compat(desc[a], desc[b]))


@contract('C03', 'reduced metric values', [B + 'reduce_metric', G + 'reduce_current', G + 'summary_current'], bounded='values are Python objects')
def reduced(S):
    n, ds = draw(S)
    r = S.r

    class Vec(metrics.BaseMetric):
        def __init__(self):
            super().__init__(col='x', metric_name='vec', metric_dtype='object', badval=-666)
            self.reduce_order = {'total': 3, 'number': 7}

        def run(self, d, slice_point=None):
            return self.badval if len(d) == 2 else (float(d['x'].sum()), float(len(d)))

        def reduce_total(self, v):
            return v[0]

        def reduce_number(self, v):
            return v[1] if v[1] != 3 else self.badval
    Vec.registry.pop(next((k for k in list(Vec.registry) if k.endswith('Vec')), ''), None)
    bs, cells = {}, {}
    summ = r.random() < 0.5
    for i in range(r.choice([1, 1, 2, 3])):
        lists = [sorted(r.sample(range(n), r.randint(0, n))) for _ in range(r.randint(1, 5))]
        b = mb.MetricBundle(Vec(), ListSlicer(lists, label='l%d' % i), '', plot_funcs=[], info_label='sel%d' % i)
        b.summary_metrics = [metrics.SumMetric(), metrics.CountMetric()] if summ else []
        bs['v%d' % i], cells['sel%d' % i] = b, lists
    plain = mb.MetricBundle(metrics.CountMetric('x', metric_name='plain'), ListSlicer([[0]]), '', plot_funcs=[])
    plain.summary_metrics = [metrics.SumMetric()]
    bs['plain'] = plain
    S.draws['lists'] = cells
    with scratch() as d:
        g = mg.MetricBundleGroup(dict(bs), None, out_dir=d, save_early=False)
        g.run_current('', sim_data=ds)
        g.summary_current()
    S.ensure('metrics stay', all(g.bundle_dict.get(k) is b for k, b in bs.items()))
    S.ensure('summary of a metric without reductions', plain.summary_values == {'Sum': 1.0} and len(plain.summary_metrics) == 1)
    red = {k: v for k, v in g.bundle_dict.items() if k not in bs}
    S.ensure('one result for each reduction of each metric', sorted((v.metric.name, v.info_label) for v in red.values()) == sorted(
        ('vec_' + w, la) for w in ('total', 'number') for la in cells))
    for key, b in bs.items():
        if b is plain:
            continue
        S.ensure('no summaries of values that are not numbers', b.summary_metrics == [] and not b.summary_values)
        mine = {v.metric.name: v for v in red.values() if v.info_label == b.info_label}
        vals = {name: [] for name in mine}
        for k, idx in enumerate(cells[b.info_label]):
            none = len(idx) in (0, 2)
            S.ensure('masked exactly when empty or bad', bool(b.metric_values.mask[k]) == none)
            for name, rb in mine.items():
                tot = 'total' in name
                msk = none or (not tot and len(idx) == 3)
                S.ensure('reduction masked exactly when the value is or the reduction is bad', bool(rb.metric_values.mask[k]) == msk)
                if not msk:
                    v = float(ds['x'][idx].sum()) if tot else len(idx)
                    vals[name].append(v)
                    S.ensure('reduction of the value of the slice', S.eq(rb.metric_values.data[k], v))
        for name, rb in mine.items():
            S.ensure('same slicer', rb.slicer is b.slicer)
            S.ensure('order of display', rb.display_dict['order'] == (3 if 'total' in name else 7))
            if summ:
                S.ensure('summary of the reduced values', S.eq(rb.summary_values['Sum'], sum(vals[name]) if vals[name] else -5) and S.eq(
                    rb.summary_values['Count'], len(vals[name]) if vals[name] else -5))
    S.ensure('original metric keeps its name', all(b.metric.name == 'vec' for b in bs.values() if b is not plain))


@contract('C03', 'summaries of a metric use its unmasked values', [B + 'compute_summary_stats'],
          bounded='summary values are stored in a dictionary of Python objects')
def summaries(S):
    n, ds = draw(S)
    r = S.r
    lists = [sorted(r.sample(range(n), r.randint(0, n))) for _ in range(r.randint(1, 6))]
    m = metrics.SumMetric('x', metric_name='s', badval=0.0)
    sm = [metrics.MeanMetric(), metrics.MaxMetric(), metrics.CountMetric(), metrics.SumMetric()]
    # a summary that wants a value in place of every masked slice
    fill = metrics.SumMetric(metric_name='filled sum')
    fill.mask_val = float(r.randint(-3, 3))
    fcount = metrics.CountMetric(metric_name='filled count')
    fcount.mask_val = fill.mask_val
    sm += [fill, fcount]
    r.shuffle(sm)
    b = mb.MetricBundle(m, ListSlicer(lists), '', plot_funcs=[], summary_metrics=sm)
    if r.random() < 0.3:
        # an earlier summary stays
        b.summary_values = {'earlier': 4.5, 'Mean': 77.0}
    early = b.summary_values is not None
    with scratch() as d:
        mg.MetricBundleGroup({'v': b}, None, out_dir=d, save_early=False).run_current('', sim_data=ds)
    vals = [float(ds['x'][i].sum()) for i in lists if len(i) and float(ds['x'][i].sum()) != 0]
    for name, f in (('Mean', lambda v: sum(v) / len(v)), ('Max', max), ('Count', len), ('Sum', sum)):
        S.ensure('summary ' + name, S.eq(b.summary_values[name], f(vals) if vals else -5))
    S.ensure('summary with masked slices filled', S.eq(b.summary_values['filled sum'], sum(vals) + fill.mask_val * (len(lists) - len(vals))))
    S.ensure('earlier summaries stay', not early or b.summary_values['earlier'] == 4.5)
    S.ensure('every slice once', b.summary_values['filled count'] == len(lists))


class MapVal(maps.BaseMap):
    """a sky map with a value at every slice point"""

    def __init__(self, scale=1.0):
        self.keynames = ['val']
        self.scale = scale

    def run(self, slice_points):
        slice_points['val'] = self.scale * np.arange(1, len(slice_points['ra']) + 1)
        return slice_points


class MapMetric(metrics.BaseMetric):
    def __init__(self, name, **kw):
        super().__init__(col='x', metric_name=name, **kw)

    def run(self, data_slice, slice_point=None):
        return len(data_slice) * 100.0 + slice_point['val']


class PairMetric2(metrics.BaseMetric):
    """a metric with two numbers per slice"""

    def __init__(self, name):
        super().__init__(col='x', metric_name=name, badval=-3.0)
        self.shape = 2

    def run(self, data_slice, slice_point=None):
        return np.array([data_slice['x'].sum(), float(len(data_slice))])


for _c in (MapMetric, PairMetric2, AnyMetric):
    for _k in [k for k in metrics.BaseMetric.registry if k.endswith(_c.__name__)]:
        metrics.BaseMetric.registry.pop(_k)
for _k in [k for k in maps.BaseMap.registry if k.endswith('MapVal') or k.endswith('MapA')]:
    maps.BaseMap.registry.pop(_k)


def visits(S):
    n = S.int('n', 1)
    return n, S.table(
        x=S.arr('x', n, gen=lambda r: float(r.randint(-4, 4))), y=S.arr('y', n, lo=0, hi=4),
        observationStartMJD=S.arr('mjd', n, gen=lambda r: 60000 + r.randint(0, 64) / 32.0, distinct=True),
        visitTime=S.arr('dur', n, lo=30, hi=600), scheduler_note=S.arr('note', n, 's', pool=['a', 'b']),
        fieldRA=S.arr('ra', n, gen=lambda r: r.randint(0, 24) / 4.0), fieldDec=S.arr('dec', n, gen=lambda r: r.randint(-6, 6) / 4.0),
        rotSkyPos=S.arr('rot', n, lo=0, hi=300), altitude=S.arr('alt', n, lo=20, hi=89), airmass=S.arr('airmass', n, lo=1, hi=2.5))


def a_slicer(r):
    """a maker of a slicer (two calls give equal slicers), and whether it takes maps"""
    ra = [r.choice([0.0, 1.0, 60.0, 85.0]) for _ in range(2)]
    dec = [r.choice([0.0, 1.0, -20.0, 57.3]) for _ in range(2)]
    deg, rad = r.choice([True, False]), r.choice([1.0, 5.0, 60.0])
    sec, ax, cum, nb = r.choice([20000, 43200]), r.choice(['x', 'y']), r.choice([True, False]), r.choice([2, 3])
    bins = np.array(r.choice([[-8.0, -1.0, 0.0, 2.0, 8.0], [-8.0, 0.5, 1.0]]))
    kind = r.choice(['oned', 'size', 'nd', 'ndlist', 'movie', 'time', 'block', 'uni', 'points', 'healpix', 'subset'])
    mk = {'oned': lambda: slicers.OneDSlicer(ax, slice_col_units='', bins=bins),
          'size': lambda: slicers.OneDSlicer(ax, slice_col_units='', bin_size=1.0 * nb, bin_min=-5.0 if cum else None, bin_max=5.0 if cum else None),
          'nd': lambda: slicers.NDSlicer(['x', 'y'] if cum else ['y', 'x'], bins_list=nb, verbose=False),
          'ndlist': lambda: slicers.NDSlicer(['x', 'y'] if cum else ['x', 'airmass'], bins_list=[bins, np.array([0.0, 1.0, 2.0])], verbose=False),
          'movie': lambda: slicers.MovieSlicer(ax, slice_col_units='', bins=bins, cumulative=cum, force_no_ffmpeg=True),
          'time': lambda: slicers.TimeIntervalSlicer(sec), 'block': lambda: slicers.BlockIntervalSlicer(),
          'uni': lambda: slicers.UniSlicer(),
          'points': lambda: slicers.UserPointsSlicer(ra=ra, dec=dec, lat_lon_deg=deg, radius=rad, use_camera=False, verbose=False),
          'healpix': lambda: slicers.HealpixSlicer(nside=1, lat_lon_deg=deg, radius=rad, use_camera=False, verbose=False, use_cache=cum),
          'subset': lambda: slicers.HealpixSubsetSlicer(nside=1, hpid=[2, 5, 8] if cum else [1, 5, 7], lat_lon_deg=deg, radius=rad, use_camera=False, verbose=False,
                                                        use_cache=False)}[kind]
    return kind, mk, kind in ('points', 'healpix', 'subset') and not (kind == 'healpix' and cum)


def alone(ds, mk, metric, sts, mps):
    """the values and mask of one metric by itself"""
    tab = ds.copy()
    for s in sts:
        tab = s.run(tab, override=True)
    sl = mk()
    sl.setup_slicer(tab, maps=mps)
    val, seen = {}, set()
    for s in sl:
        k = int(np.ravel(s['slice_point']['sid'])[0])
        seen.add(k)
        d = tab[s['idxs']]
        if len(d):
            v = metric.run(d, slice_point=s['slice_point'])
            if not np.all(np.ravel(v) == metric.badval):
                val[k] = v
    return sl.nslice, val


def a_bundle(r, con='', explicit=True):
    kind, mk, mapped = a_slicer(r)
    sts, mps = [], []
    what = r.choice(['sum', 'count', 'zd', 'map', 'pair', 'auto'])
    if what == 'zd':
        deg = r.choice([True, False])
        sts = [stackers.ZenithDistStacker(degrees=deg)]
        m = metrics.SumMetric('zenithDistance', metric_name='zd%s' % deg)
    elif what == 'map' and mapped:
        sc = r.choice([1.0, 7.0])
        mps = [MapVal(sc)]
        m = MapMetric('map%s' % sc)
    elif what == 'pair':
        m = PairMetric2('pair')
    elif what == 'auto':
        m = metrics.MaxMetric('zenithDistance', metric_name='zdauto')
    elif what == 'count':
        m = metrics.CountMetric('x', metric_name='count')
    else:
        m = metrics.SumMetric('x', metric_name='sum', badval=0.0)
    arg_s, arg_m = (sts, mps)
    if len(sts) == 1 and r.random() < 0.5:
        arg_s = sts[0]
    if len(mps) == 1 and r.random() < 0.5:
        arg_m = mps[0]
    b = mb.MetricBundle(m, mk(), con, stacker_list=arg_s or None, maps_list=arg_m or None, plot_funcs=[])
    b.summary_metrics = []
    if what == 'auto':
        sts = [stackers.ZenithDistStacker()]
    return kind + '/' + what, b, (mk, m, sts, mps)


def compare(S, name, b, n, val, masked_missing=True):
    mv = b.metric_values
    S.ensure('one entry per slice', len(mv) == n)
    for k in range(n):
        if k in val:
            S.ensure('not masked: has visits and a value', not np.all(np.ravel(np.ma.getmaskarray(mv)[k])))
            S.ensure('value of its own slice', S.eq(np.ravel(mv.data[k]), np.ravel(val[k])))
        else:
            S.ensure('masked: no visits or bad value', bool(np.all(np.ravel(np.ma.getmaskarray(mv)[k]))))


@contract('C03', 'any slicers, derived columns and sky maps together equal each alone', [
    G + 'run_current', G + '_run_compatible', G + '_check_compatible', B + '__init__', B + '_find_req_cols', B + '_setup_metric_values',
    'rubin_sim.maf.slicers.nd_slicer:NDSlicer.__eq__', 'rubin_sim.maf.slicers.movie_slicer:MovieSlicer.__eq__',
    'rubin_sim.maf.slicers.time_interval_slicers:TimeIntervalSlicer.__eq__', 'rubin_sim.maf.slicers.healpix_slicer:HealpixSlicer.__eq__',
    'rubin_sim.maf.slicers.healpix_subset_slicer:HealpixSubsetSlicer.__eq__', 'rubin_sim.maf.slicers.user_points_slicer:UserPointsSlicer.__eq__',
    'rubin_sim.maf.slicers.one_d_slicer:OneDSlicer.__eq__', 'rubin_sim.maf.stackers.base_stacker:BaseStacker.__eq__'],
    bounded='mixture of slicers, derived columns and sky maps in one group')
def anything(S):
    n, ds = visits(S)
    r = S.r
    bs, spec = {}, {}
    st = r.getstate()
    for i in range(r.randint(1, 6)):
        if i and r.random() < 0.4:
            # nearly the same configuration again
            now = r.getstate()
            r.setstate(st)
            name, b, sp = a_bundle(r)
            if r.random() < 2:
                r.setstate(now)
        else:
            st = r.getstate()
            name, b, sp = a_bundle(r)
        bs['%s_%d' % (name, i)] = b
        spec['%s_%d' % (name, i)] = sp
    S.draws['bundles'] = list(bs)
    old = ds.copy()
    with scratch() as d:
        g = mg.MetricBundleGroup(dict(bs), None, out_dir=d, save_early=False)
        g.run_current('', sim_data=ds)
        S.ensure('every metric was run', all(g.has_run[k] for k in bs))
    for k, b in bs.items():
        nn, val = alone(old, *spec[k])
        compare(S, k, b, nn, val)
    S.unchanged('visits not modified', ds, old)


@contract('C03', 'metrics on the visits of a database, by data selection', [
    G + 'run_all', G + 'run_current', G + 'get_data', G + 'set_current', B + '_find_req_cols', 'rubin_sim.maf.utils.opsim_utils:get_sim_data'],
    bounded='visits come from a database file', trials=250)
def from_database(S):
    import sqlite3
    import pandas as pd
    n, ds = visits(S)
    r = S.r
    cons = {'': lambda t: np.ones(len(t), bool), 'x > 0': lambda t: t['x'] > 0, 'airmass < 1.5 and scheduler_note = "a"': lambda t: (t['airmass'] < 1.5) & (t['scheduler_note'] == 'a')}
    bs, spec = {}, {}
    for i in range(r.randint(1, 5)):
        con = r.choice(list(cons))
        name, b, sp = a_bundle(r, con)
        bs['%s_%s_%d' % (name, con, i)] = b
        spec['%s_%s_%d' % (name, con, i)] = (con, sp)
    S.draws['bundles'] = list(bs)
    with scratch() as d:
        f = os.path.join(d, 'v.db')
        with contextlib.closing(sqlite3.connect(f)) as con:
            pd.DataFrame(ds).to_sql('observations', con, index=False)
        g = mg.MetricBundleGroup(dict(bs), f if r.random() < 0.8 else sqlite3.connect(f), out_dir=os.path.join(d, 'o'), save_early=False)
        g.run_all()
    for k, b in bs.items():
        con, sp = spec[k]
        sel = cons[con](ds)
        S.ensure('run exactly when there are visits', bool(g.has_run[k]) == bool(sel.any()))
        if sel.any():
            nn, val = alone(ds[sel], *sp)
            compare(S, k, b, nn, val)


@contract('C03', 'columns, derived columns and maps of a metric', [B + '__init__', B + '_find_req_cols', B + 'set_summary_metrics', B + '_build_metadata'],
          bounded='object graphs of bundles, stackers and maps are concrete')
def needs(S):
    r = S.r
    raw = ['x', 'airmass', 'altitude', 'fieldRA']
    derived = {'zenithDistance': stackers.ZenithDistStacker, 'normairmass': stackers.NormAirmassStacker, 'HA': stackers.HourAngleStacker,
               'galb': stackers.GalacticStacker}
    mcols = r.sample(raw + list(derived), r.randint(1, 3))
    given = {c: derived[c]() for c in r.sample(list(derived), r.randint(0, 2))}
    sts = list(given.values())
    m = metrics.BaseMetric(col=list(mcols), metric_name='any')
    wanted = r.sample(['StellarDensityMap', 'GalCoordsMap'], r.randint(0, 2))
    inst = [MapA('q')] if r.random() < 0.5 else []
    m.maps = [w if r.random() < 0.5 else getattr(maps, w)() for w in wanted] + inst
    r.shuffle(m.maps)
    have = [maps.StellarDensityMap()] if r.random() < 0.5 else []
    if r.random() < 0.3:
        have.append(MapVal(2.0))
    scol = r.choice(['x', 'y', 'zenithDistance'])
    sl = slicers.OneDSlicer(scol, slice_col_units='', bins=np.array([0.0, 1.0])) if r.random() < 0.7 else slicers.UniSlicer()
    con = r.choice([None, '', 'night < 3', "filter = 'r'"])
    label = r.choice([None, 'lab'])
    sm = r.choice([None, 'one', 'list'])
    smm = {None: None, 'one': metrics.MeanMetric(), 'list': [metrics.MeanMetric(), metrics.MaxMetric()]}[sm]
    some = [None] if r.random() < 0.3 else []
    S.draws.update(cols=mcols, given=list(given), maps=[str(v) for v in m.maps], have=[type(v).__name__ for v in have], col=scol)
    b = mb.MetricBundle(m, sl, con, stacker_list=(some + sts) or None, maps_list=list(have) or None, plot_funcs=[], summary_metrics=smm,
                        info_label=label, run_name='r0', file_root=r.choice([None, 'froot']))
    S.ensure('its metric, slicer and data selection', b.metric is m and b.slicer is sl and b.constraint == (con or ''))
    S.ensure('label', b.info_label == (label if label is not None else {'night < 3': 'night < 3', "filter = 'r'": 'r'}.get(con, '')))
    S.ensure('run name', b.run_name == 'r0')
    S.ensure('nothing evaluated yet', b.metric_values is None and b.summary_values is None)
    used = set(mcols) | ({scol} if isinstance(sl, slicers.OneDSlicer) else set())
    for st in sts:
        used |= set(st.cols_req)
    auto = [derived[c] for c in used if c in derived and c not in given]
    S.ensure('given derived columns are used as given', all(any(s is g for s in b.stacker_list) for g in sts))
    S.ensure('derived columns that are needed are added once', sorted(type(s).__name__ for s in b.stacker_list) == sorted(
        [type(s).__name__ for s in sts] + [c.__name__ for c in auto]))
    need = {c for c in used if c not in derived}
    for c in auto:
        need |= set(c().cols_req)
    S.ensure('the columns to read are the stored columns needed', set(b.db_cols) == need)
    keep = [v for v in m.maps if not isinstance(v, str)]
    S.ensure('given maps are kept', all(any(v is h for v in b.maps_list) for h in have))
    names = sorted(type(v).__name__ for v in b.maps_list)
    S.ensure('every map of the metric is there', set(names) >= {v if isinstance(v, str) else type(v).__name__ for v in m.maps})
    S.ensure('no map twice', len({(type(v).__name__, tuple(v.keynames)) for v in b.maps_list}) == len(names))
    S.ensure('no other maps', set(names) <= {v if isinstance(v, str) else type(v).__name__ for v in m.maps} | {type(h).__name__ for h in have})
    S.ensure('maps by instance', all(any(v == k for v in b.maps_list) for k in keep))
    want = {'one': ['Mean'], 'list': ['Mean', 'Max'], None: ['Identity'] if isinstance(sl, slicers.UniSlicer) else []}[sm]
    S.ensure('summaries', [type(v).__name__.replace('Metric', '') for v in b.summary_metrics] == want)


@contract('C03', 'a metric bundle refuses what it cannot use', [B + '__init__', B + 'set_summary_metrics'],
          bounded='object graphs of bundles, stackers and maps are concrete')
def refuses(S):
    r = S.r
    bad = {'metric': 3, 'slicer': 'HealpixSlicer', 'stacker_list': [stackers.ZenithDistStacker(), 'HA'], 'maps_list': [maps.GalCoordsMap(), 'x'],
           'summary_metrics': [metrics.MeanMetric(), 4]}
    kw = dict(metric=metrics.CountMetric('x'), slicer=slicers.UniSlicer(), stacker_list=None, maps_list=None, summary_metrics=None)
    k = r.choice(list(bad))
    kw[k] = bad[k]
    S.draws['bad'] = k
    S.ensure('refused', S.raises(ValueError, lambda: mb.MetricBundle(constraint='', plot_funcs=[], **kw)))
