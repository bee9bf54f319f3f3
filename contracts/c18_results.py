"""C18: result files and the results database give back what was stored."""
import copy
import json
import os
import shutil
import tempfile
import warnings
import numpy as np
import numpy.ma as ma
from pyver.api import contract
from pyver import npmodel
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.slicers.base_slicer as bsl
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.db as db
from rubin_sim.maf.utils import output_utils

B = 'rubin_sim.maf.slicers.base_slicer:BaseSlicer.'
MB = 'rubin_sim.maf.metric_bundles.metric_bundle:MetricBundle.'
MG = 'rubin_sim.maf.metric_bundles.metric_bundle_group:MetricBundleGroup.'
D = 'rubin_sim.maf.db.results_db:ResultsDb.'


# ---- files: what read_data makes of what write_data hands to numpy

FILE = {}


class Item:
    """numpy's zero-dimensional object array"""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        assert k == ()
        return self.v

    def __str__(self):
        return str(self.v)


class Loaded(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return Item(v) if v is None or isinstance(v, (dict, str)) else v


class Numpy:
    """numpy: load returns under each name what savez was given under it"""

    def savez(self, name, **kw):
        FILE[name] = Loaded(kw)

    def load(self, name, allow_pickle=False):
        return FILE[name]

    def __getattr__(self, name):
        return getattr(npmodel.NP, name)


@contract('C18', 'values, mask and labels of a file', [B + 'write_data', B + 'read_data'],
          stubs={'rubin_sim.maf.slicers.base_slicer:np': Numpy(), 'rubin_sim.maf.slicers.base_slicer:get_date_version': lambda: ('today', {'version': 'x'})},
          assumes=['numpy: load gives back under each name what savez was given under it'])
def roundtrip(S):
    n = S.int('n', 1)
    masked = S.bool('masked')
    x = S.arr('x', n, lo=-100, hi=100)
    m = S.arr('m', n, 'b')
    pts = S.arr('pts', n, lo=-1, hi=1)
    slc = slicers.UniSlicer(badval=-3, verbose=False)
    slc.nslice, slc.shape = n, n
    slc.slice_points = {'sid': pts, 'label': 'a'}
    if masked:
        v = S.masked('v', n)[0] if False else (bsl.ma.MaskedArray(data=x, mask=m, fill_value=-3))
    else:
        v = x
    if S.symbolic:
        f, d = 'file', None
    else:
        d = tempfile.mkdtemp(prefix='c18')
        f = os.path.join(d, 'f.npz')
    try:
        slc.write_data(f, v, metric_name='mean x', sim_data_name='run', constraint='night < 3', info_label='lab', plot_dict={'units': 'mag'},
                       display_dict={'group': 'g', 'order': 2}, summary_values={'Mean': 1.5})
        w, s2, h = slicers.BaseSlicer().read_data(f)
    finally:
        if d:
            shutil.rmtree(d)
    S.ensure('as many values', S.eq(S.size(w), n))
    S.forall('same values', n, lambda k: S.eq(w.data[k], x[k]))
    mask = w.mask
    if masked:
        S.forall('same mask', n, lambda k: S.eq(mask[k], m[k]))
    else:
        S.ensure('nothing masked', mask is ma.nomask or not S.symbolic and not np.any(mask) or S.symbolic)
        if S.symbolic and isinstance(mask, npmodel.SArr):
            S.forall('nothing masked', n, lambda k: S.eq(mask[k], False))
    S.ensure('same slicer', type(s2).__name__ == 'UniSlicer' and s2.badval == -3 and set(s2.slice_points) == {'sid', 'label'} and s2.slice_points['label'] == 'a')
    S.ensure('as many slices', S.and_(S.eq(s2.nslice, n), S.eq(s2.shape, n)))
    S.forall('same points', n, lambda k: S.eq(s2.slice_points['sid'][k], pts[k]))
    S.ensure('same labels', h['metric_name'] == 'mean x' and h['sim_data_name'] == 'run' and h['constraint'] == 'night < 3' and h['info_label'] == 'lab'
             and h['plot_dict'] == {'units': 'mag'} and h['display_dict'] == {'group': 'g', 'order': 2} and h['summary_values'] == {'Mean': 1.5})


def some_slicer(S):
    """a slicer of any kind, set up for a small table"""
    r = S.r
    n = r.randint(2, 12)
    t = np.zeros(n, dtype=[(k, float) for k in ('lon', 'lat', 'rot', 'observationStartMJD', 'x', 'y')])
    t['lon'] = [r.uniform(0, 6) for _ in range(n)]
    t['lat'] = [r.uniform(-1.5, 1.5) for _ in range(n)]
    for k in ('x', 'y', 'observationStartMJD'):
        t[k] = [r.uniform(0, 5) for _ in range(n)]
    bad = r.choice([-666., -5., 0.])
    sp = dict(lon_col='lon', lat_col='lat', rot_sky_pos_col_name='rot', lat_lon_deg=False, use_camera=False, radius=r.uniform(1, 40), badval=bad,
              leafsize=r.choice([3, 100]), camera_radius=r.uniform(1, 2), verbose=False)
    kind = S.choice('kind', ['uni', 'one', 'oneauto', 'nd', 'healpix', 'subset', 'points', 'movie', 'interval'])
    if kind == 'uni':
        s = slicers.UniSlicer(badval=bad, verbose=False)
    elif kind == 'one':
        s = slicers.OneDSlicer('x', bins=np.sort([r.uniform(0, 5) for _ in range(4)]), badval=bad, slice_col_units='m', verbose=False)
    elif kind == 'oneauto':
        s = slicers.OneDSlicer('y', bin_min=0., bin_max=5., bin_size=r.uniform(.5, 2), badval=bad, verbose=False)
    elif kind == 'nd':
        s = slicers.NDSlicer(['x', 'y'], bins_list=r.choice([3, [2, 4], [np.array([0, 2., 5]), np.array([0, 1., 3, 6])]]), verbose=False)
    elif kind == 'healpix':
        s = slicers.HealpixSlicer(nside=r.choice([1, 2]), use_cache=r.random() < .5, **sp)
    elif kind == 'subset':
        s = slicers.HealpixSubsetSlicer(2, np.array(sorted(r.sample(range(48), 5))), use_cache=r.random() < .5, **sp)
    elif kind == 'points':
        m = r.randint(1, 5)
        s = slicers.UserPointsSlicer([r.uniform(0, 360) for _ in range(m)], [r.uniform(-90, 90) for _ in range(m)], **sp)
    elif kind == 'movie':
        s = slicers.MovieSlicer('observationStartMJD', bins=np.arange(0, 6.), badval=bad, cumulative=r.random() < .5, force_no_ffmpeg=True, verbose=False)
    else:
        s = slicers.TimeIntervalSlicer(interval_seconds=r.choice([3600, 86400]), badval=bad, verbose=False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s.setup_slicer(t)
    return s, t, kind


def some_values(S, n, bad):
    r = S.r
    dt = S.choice('dtype', ['float', 'int', 'object', 'vector'])
    if dt == 'object':
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = r.choice([{'a': r.random()}, [1, 2], None, r.random()])
    elif dt == 'vector':
        x = np.array([[r.uniform(-9, 9) for _ in range(3)] for _ in range(n)])
    else:
        x = np.array([r.uniform(-9, 9) for _ in range(n)]).astype(dt)
        if dt == 'float' and r.random() < .5:
            x[r.randrange(n)] = r.choice([np.nan, np.inf])
    m = np.array([r.random() < .3 for _ in range(n)])
    return ma.MaskedArray(data=x, mask=m if x.ndim == 1 else np.repeat(m[:, None], 3, 1), fill_value=None if dt == 'object' else (int(bad) if dt == 'int' else bad))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or (a.dtype != object and a.dtype != b.dtype):
        return False
    if a.dtype == object:
        return all(x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def same_points(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) if not isinstance(a[k], (list, dict)) else str(a[k]) == str(b[k]) for k in a)


@contract('C18', 'files of every kind of slicer', [B + 'write_data', B + 'read_data'], bounded='files of a compiled library', trials=1500)
def files(S):
    r = S.r
    s, t, kind = some_slicer(S)
    n = s.nslice
    v = some_values(S, n, s.badval)
    plain = r.random() < .2
    d = tempfile.mkdtemp(prefix='c18')
    try:
        f = os.path.join(d, 'f.npz')
        lab = dict(metric_name='m %d' % r.randint(0, 9), sim_data_name='run%d' % r.randint(0, 9), constraint=r.choice([None, '', 'night < 3']), info_label=r.choice(['', 'lab']),
                   plot_dict=r.choice([None, {'units': 'mag', 'x_min': 1.}]), display_dict=r.choice([None, {'group': 'g', 'subgroup': None}]), summary_values=r.choice([None, {'Mean': .5}]))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s.write_data(f, v.data if plain else v, **lab)
            w, s2, h = slicers.BaseSlicer(verbose=False).read_data(f)
            S.ensure('same values', same(w.data, v.data))
            S.ensure('same mask', same(w.mask, v.mask) if not plain else not np.any(w.mask))
            S.ensure('same fill', plain or v.dtype == object or same(np.asarray(w.fill_value, float), np.asarray(v.fill_value, float)))
            S.ensure('same kind of slicer', type(s2) is type(s))
            S.ensure('same slices', s2.nslice == s.nslice and np.array_equal(s2.shape, s.shape) and same_points(s.slice_points, s2.slice_points))
            S.ensure('same bad value', kind == 'nd' or s2.badval == s.badval)
            S.ensure('an equal slicer', s == s2 and s2 == s)
            for k in ('lon_col', 'lat_col', 'radius', 'use_camera', 'camera_radius', 'latLonDeg', 'rotSkyPosColName', 'columns_needed', 'nside', 'slice_col_name', 'slice_col_units'):
                S.ensure('same ' + k, getattr(s, k, None) == getattr(s2, k, None))
            S.ensure('same labels', all(h[k] == x for k, x in lab.items() if k != 'display_dict' or x is not None))
            if kind in ('healpix', 'subset', 'points', 'one', 'oneauto', 'uni', 'nd'):
                # it slices another table as the original does
                s2.setup_slicer(t)
                s.setup_slicer(t)
                S.ensure('same visits in each slice', all(sorted(np.asarray(s[i]['idxs']).tolist()) == sorted(np.asarray(s2[i]['idxs']).tolist()) for i in range(n)))
    finally:
        shutil.rmtree(d)


def a_bundle(S, s, v):
    r = S.r
    b = mb.MetricBundle(metrics.MeanMetric('x', metric_name='m%d' % r.randint(0, 3), units='mag'), s, r.choice(['', 'night < 3', "band = 'r'"]), run_name='run %d' % r.randint(0, 3),
                        info_label=r.choice([None, 'lab']), plot_dict=r.choice([None, {'x_min': 2.}, {'units': 'km'}]), display_dict=r.choice([None, {'group': 'g'}, {'group': 'g', 'subgroup': 's', 'order': 3, 'caption': 'c'}]))
    b.metric_values = v
    b.summary_values = r.choice([None, {'Mean': 2.5}])
    return b


@contract('C18', 'bundles written and loaded', [MB + 'write', MB + 'read', MB + 'load', MB + 'write_db', MB + '_build_file_root', 'rubin_sim.maf.utils.output_utils:name_sanitize'],
          bounded='files of a compiled library', trials=600)
def bundles(S):
    r = S.r
    s, t, kind = some_slicer(S)
    v = some_values(S, s.nslice, s.badval)
    d = tempfile.mkdtemp(prefix='c18')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b = a_bundle(S, s, v)
            rdb = db.ResultsDb(out_dir=d) if r.random() < .5 else None
            suf = r.choice([None, 'two'])
            comment = r.choice(['', ' and more'])
            plot, display = copy.deepcopy(b.plot_dict), copy.deepcopy(b.display_dict)
            b.write(comment=comment, out_dir=d, outfile_suffix=suf, results_db=rdb)
            name = b.file_root + ('' if suf is None else '_' + suf) + '.npz'
            S.ensure('file of the name of the bundle', os.path.isfile(os.path.join(d, name)))
            S.ensure('a plain file name', not any(c in b.file_root for c in ' ><=.,/\\():;%#'))
            if rdb is not None:
                i = rdb.get_all_metric_ids()
                S.ensure('one entry', len(i) == 1)
                S.ensure('entry names the file', rdb.get_metric_data_files(i[0]) == [name])
                e = rdb.get_metric_info(i, with_sim_name=True)[0]
                S.ensure('entry of the bundle', (e['metric_name'], e['slicer_name'], e['run_name'], e['sql_constraint'], e['metric_info_label']) == (b.metric.name, s.slicer_name, b.run_name, b.constraint, b.info_label))
                rdb.close()
            c = mb.MetricBundle.load(os.path.join(d, name))
            S.ensure('same values and mask', same(c.metric_values.data, v.data) and same(c.metric_values.mask, v.mask))
            S.ensure('same names', c.metric.name == b.metric.name and c.run_name == b.run_name and c.constraint == b.constraint and c.info_label == b.info_label + comment)
            S.ensure('same slicer', c.slicer == s)
            S.ensure('same plots and display', c.plot_dict == plot and c.display_dict == display and c.summary_values == b.summary_values)
            S.ensure('units', c.metric.units == b.plot_dict.get('units', ''))
            S.ensure('name without suffix', c.file_root + '.npz' == name)
            S.ensure('a missing file is refused', S.raises(IOError, lambda: mb.MetricBundle.load(os.path.join(d, 'none.npz'))))
    finally:
        shutil.rmtree(d)


@contract('C18', 'groups written and read', [MG + 'write_all', MG + 'read_all', MG + 'write_current', MB + 'reduce_metric'], bounded='files of a compiled library', trials=40)
def groups(S):
    r = S.r
    n = 12
    t = np.zeros(n, dtype=[('observationStartMJD', float), ('x', float), ('night', float)])
    t['observationStartMJD'] = [r.uniform(0, 40) for _ in range(n)]
    t['x'] = [r.uniform(0, 1) for _ in range(n)]
    d = tempfile.mkdtemp(prefix='c18')
    cuts = np.array([0, r.uniform(.2, .5), r.uniform(.55, .95), 1.])

    def make():
        return {'gaps': mb.MetricBundle(metrics.PhaseGapMetric(n_visits_min=2), slicers.OneDSlicer('x', bins=cuts, verbose=False), '', run_name='r', info_label='a'),
                'mean': mb.MetricBundle(metrics.MeanMetric('x'), slicers.UniSlicer(verbose=False), '', run_name='r', info_label='a')}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g = mb.MetricBundleGroup(make(), None, out_dir=d, verbose=False, save_early=r.random() < .5)
            g.run_current('', sim_data=t)
            g.write_all()
            h = mb.MetricBundleGroup(make(), None, out_dir=d, verbose=False)
            h.read_all()
            S.ensure('every result and its parts', set(h.bundle_dict) == set(g.bundle_dict))
            for k in g.bundle_dict:
                a, b = g.bundle_dict[k], h.bundle_dict[k]
                S.ensure('same name', a.metric.name == b.metric.name and a.file_root == b.file_root)
                S.ensure('same mask', same(a.metric_values.mask, b.metric_values.mask))
                x, y = a.metric_values.compressed(), b.metric_values.compressed()
                S.ensure('same values', len(x) == len(y) and all(same(u['maxGaps'], w['maxGaps']) if isinstance(u, dict) else u == w for u, w in zip(x, y)))
                S.ensure('same slices', same_points(a.slicer.slice_points, b.slicer.slice_points))
            gone = r.choice(sorted(f for f in os.listdir(d) if f.endswith('.npz')))
            os.remove(os.path.join(d, gone))
            h = mb.MetricBundleGroup(make(), None, out_dir=d, verbose=False)
            h.read_all()
            S.ensure('all but the missing file', {b.file_root + '.npz' for b in h.bundle_dict.values()} == {b.file_root + '.npz' for b in g.bundle_dict.values()} - {gone})
    finally:
        shutil.rmtree(d)


@contract('C18', 'values as JSON', [B + 'output_json', MB + 'output_json'], bounded='text of a standard library', trials=800)
def jsons(S):
    r = S.r
    s, t, kind = some_slicer(S)
    S.assume(kind in ('uni', 'one', 'oneauto', 'healpix', 'points'))
    n = s.nslice
    x = np.array([r.uniform(-9, 9) for _ in range(n)])
    m = np.array([r.random() < .3 for _ in range(n)])
    if kind == 'uni':
        m[:] = False
    masked = r.random() < .7
    v = ma.MaskedArray(x, mask=m, fill_value=-1) if masked else x
    if not masked:
        m[:] = False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = mb.MetricBundle(metrics.MeanMetric('x'), s, '', run_name='run', info_label='lab')
        b.metric_values = v
        h, out = json.loads(b.output_json().getvalue())
    S.ensure('labels', h['metric_name'] == 'Mean x' and h['sim_data_name'] == 'run' and h['info_label'] == 'lab' and h['slicer_name'] == s.slicer_name and h['slicer_len'] == n)
    if kind == 'uni':
        S.ensure('the value', out == [[x[0]]])
    elif kind in ('one', 'oneauto'):
        e = s.slice_points['bins']
        want = [[e[i], 0 if m[i] else x[i]] for i in range(n)] + [[e[n], 0]]
        S.ensure('value of each bin', np.allclose(out, want, rtol=1e-12))
    else:
        want = [[np.degrees(s.slice_points['ra'][i]), np.degrees(s.slice_points['dec'][i]), x[i]] for i in range(n) if not m[i]]
        S.ensure('position and value of each good point', len(out) == len(want) and (len(want) == 0 or np.allclose(out, want, rtol=1e-12)))


# ---- the results database against a list of what was recorded

@contract('C18', 'results database', [D + k for k in ('update_metric', 'update_display', 'update_plot', 'update_summary_stat', 'get_metric_id', 'get_metric_id_like', 'get_all_metric_ids', 'get_summary_stats',
                                                      'get_plot_files', 'get_metric_data_files', 'get_metric_info', 'get_metric_display_info', 'get_run_name', 'build_summary_name', 'update_database', 'downgrade_database')],
          bounded='histories of up to 15 records in a real database', trials=200)
def database(S):
    r = S.r
    d = tempfile.mkdtemp(prefix='c18')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            history(S, r, d)
    finally:
        shutil.rmtree(d)


def history(S, r, d):
    rdb = db.ResultsDb(out_dir=d)
    mets, disp, plots, stats = {}, {}, [], []
    log = []
    S.draws['history'] = log
    nul = lambda x: 'NULL' if x is None else x  # noqa: E731
    for step in range(r.randint(1, 15)):
        if r.random() < .15:
            rdb = db.ResultsDb(out_dir=d)
            log.append('reopen')
        op = r.choice(['metric', 'display', 'plot', 'stat'] if mets else ['metric'])
        if op == 'metric':
            key = (r.choice(['Mean', 'Mean_x', 'N_a']), r.choice(['UniSlicer', 'HealpixSlicer']), r.choice(['r1', 'r2', None]), r.choice(['', 'night < 3', None]), r.choice(['all', 'r band', None]))
            f = r.choice([None, 'f%d.npz' % step])
            i = rdb.update_metric(*key, f)
            key = tuple(nul(x) for x in key)
            log.append(('metric', key, f))
            if key in mets:
                S.ensure('the same metric is one entry', mets[key][0] == i)
            else:
                S.ensure('another metric is another entry', i not in [x[0] for x in mets.values()])
                mets[key] = (i, nul(f))
            continue
        i = r.choice(sorted(x[0] for x in mets.values()))
        if op == 'display':
            dd = {'group': r.choice(['g', None]), 'subgroup': 's%d' % step, 'order': r.choice([step, None]), 'caption': r.choice(['c%d' % step, 'auto %d (auto)' % step])}
            for k in r.sample(['subgroup', 'order'], r.randint(0, 2)):
                dd.pop(k)
            ow = r.random() < .7
            log.append(('display', i, dict(dd), ow))
            if ow or i not in disp:
                disp[i] = (nul(dd.get('group')), nul(dd.get('subgroup')), dd.get('order') or 0, dd['caption'].replace('(auto)', ''))
            rdb.update_display(i, dd, overwrite=ow)
        elif op == 'plot':
            ty, f, ow = r.choice(['SkyMap', 'Hist']), 'p%d.x.pdf' % step, r.random() < .5
            log.append(('plot', i, ty, f, ow))
            rdb.update_plot(i, ty, f, overwrite=ow)
            if ow:
                plots = [p for p in plots if p[:2] != (i, ty)]
            plots.append((i, ty, f))
        else:
            nm = r.choice(['Mean', 'Identity', 'N visits', 'Rms'])
            kind = r.choice(['float', 'float', 'int', 'array', 'text', 'np'])
            val = r.uniform(-9, 9)
            log.append(('stat', i, nm, kind, val))
            if kind == 'array':
                a = np.array([('u', val), ('g', val + 1)], dtype=[('name', r.choice(['U5', 'S5'])), ('value', float)])
                rdb.update_summary_stat(i, nm, a)
                stats += [(i, nm + ' u', val), (i, nm + ' g', val + 1)]
            elif kind == 'text':
                rdb.update_summary_stat(i, nm, 'no number')
            else:
                val = int(val) if kind == 'int' else np.float64(val) if kind == 'np' else val
                rdb.update_summary_stat(i, nm, val)
                stats.append((i, nm, float(val)))
    if r.random() < .15:
        log.append('old layout and back')
        rdb.downgrade_database()
        rdb = db.ResultsDb(out_dir=d)
    byid = {x[0]: (k, x[1]) for k, x in mets.items()}
    S.ensure('all metrics', sorted(rdb.get_all_metric_ids()) == sorted(byid))
    some = r.choice([None, r.choice(sorted(byid)), r.sample(sorted(byid), r.randint(1, len(byid)))])
    ids = sorted(byid) if some is None else [some] if isinstance(some, int) else some
    e = rdb.get_metric_info(some, with_sim_name=True)
    S.ensure('each metric as recorded', sorted((int(x['metric_id']), x['metric_name'], x['slicer_name'], x['run_name'], x['sql_constraint'], x['metric_info_label'], x['metric_datafile'], x['base_metric_names']) for x in e)
             == sorted((i,) + byid[i][0] + (byid[i][1], byid[i][0][0].split('_')[0]) for i in ids))
    S.ensure('each data file', rdb.get_metric_data_files(some if some is not None else None) == [byid[i][1] for i in (ids if some is not None else rdb.get_all_metric_ids())])
    e = rdb.get_metric_display_info(some)
    S.ensure('the latest display of each metric', sorted((int(x['metric_id']), x['display_group'], x['display_subgroup'], x['display_order'], x['display_caption'], x['metric_name']) for x in e)
             == sorted((i,) + disp[i] + (byid[i][0][0],) for i in ids if i in disp))
    e = rdb.get_plot_files(some, with_sim_name=True)
    S.ensure('each plot', sorted((int(x['metric_id']), x['plot_type'], x['plot_file'], x['thumb_file'], x['run_name'], x['metric_name']) for x in e)
             == sorted(p + ('thumb.' + p[2][:-4] + '.png', byid[p[0]][0][2], byid[p[0]][0][0]) for p in plots if p[0] in ids))
    q, like, unlike = r.choice([None, 'Mean', 'Rms']), r.choice([None, 'an', 'N']), r.choice([None, 'ean', ['u', 'Rms']])
    e = rdb.get_summary_stats(some, summary_name=q, summary_name_like=like, summary_name_notlike=unlike, with_sim_name=True)
    has = lambda a, b: a.lower() in b.lower()  # noqa: E731
    want = [s for s in stats if s[0] in ids and (q is None or s[1] == q) and (like is None or has(like, s[1]))
            and (unlike is None or not any(has(u, s[1]) for u in ([unlike] if isinstance(unlike, str) else unlike)))]
    S.ensure('each summary', sorted((int(x['metric_id']), x['summary_metric'], float(x['summary_value']), x['metric_name'], x['slicer_name'], x['run_name'], x['metric_info_label']) for x in e)
             == sorted(s + (byid[s[0]][0][0], byid[s[0]][0][1], byid[s[0]][0][2], byid[s[0]][0][4]) for s in want))
    for x in e:
        k = byid[int(x['metric_id'])][0]
        parts = [x['summary_metric'] if x['summary_metric'] not in ('Identity', 'Id', 'Count') else '', k[0], k[4], k[1] if k[1] != 'UniSlicer' else '']
        S.ensure('long name', x['summary_name'] == ' '.join(parts).strip(' '))
    a, b, c, n = r.choice(['Mean', 'N_a', 'none']), r.choice([None, 'UniSlicer']), r.choice([None, 'all', 'NULL']), r.choice([None, 'r1', 'NULL'])
    S.ensure('metrics by name', sorted(rdb.get_metric_id(a, slicer_name=b, metric_info_label=c, run_name=n))
             == sorted(i for i, (k, _) in byid.items() if k[0] == a and b in (None, k[1]) and c in (None, k[4]) and n in (None, k[2])))
    a, b, c = r.choice([None, 'ean', 'x']), r.choice([None, 'pix']), r.choice([None, 'band', 'a'])
    S.ensure('metrics by part of a name', sorted(rdb.get_metric_id_like(a, b, c, run_name=n))
             == sorted(i for i, (k, _) in byid.items() if (a is None or has(a, k[0])) and (b is None or has(b, k[1])) and (c is None or has(c, k[4])) and n in (None, k[2])))
    S.ensure('runs', sorted(rdb.get_run_name()) == sorted({k[2] for k in mets}))
    rdb.close()


@contract('C18', 'file names', 'rubin_sim.maf.utils.output_utils:name_sanitize', bounded='text', trials=400)
def names(S):
    r = S.r
    s = ''.join(r.choice('ab_ ><=.,/\\():;%#') for _ in range(r.randint(0, 12)))
    S.draws['text'] = s
    o = output_utils.name_sanitize(s)
    S.ensure('no special characters', not any(c in o for c in ' ><=.,/\\():;%#'))
    S.ensure('letters kept', [c for c in o if c in 'ab'] == [c for c in s if c in 'ab'])
    S.ensure('a clean name is unchanged', output_utils.name_sanitize(o) == o)
    m = {' ': '_', '.': '_', '/': '_', '\\': '_', ':': '_', ';': '_', '%': '_', '#': '_', '>': 'gt', '<': 'lt', '=': 'eq', ',': '', '(': '', ')': ''}
    w = ''.join(m.get(c, c) for c in s)
    while '__' in w:
        w = w.replace('__', '_')
    S.ensure('each character by its replacement', o == w)
