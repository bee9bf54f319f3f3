"""C07: adding derived columns never disturbs the visits."""
import numpy as np
from pyver.api import contract
import rubin_sim.maf.stackers.base_stacker as bs
import rubin_sim.maf.stackers.general_stackers as gs
import rubin_sim.maf.stackers.date_stackers as dst
import rubin_sim.maf.stackers.coord_stackers as cs
import rubin_sim.maf.stackers.teff_stacker as tf
import rubin_sim.maf.stackers.sdss_stackers as sd
import rubin_sim.maf.stackers.n_follow_stacker as nf
import rubin_sim.maf.stackers.label_stackers as lb
import rubin_sim.maf.stackers.m5_optimal_stacker as mo
import rubin_sim.maf.stackers.neo_dist_stacker as neo

B = 'rubin_sim.maf.stackers.base_stacker:BaseStacker.'
BANDS = ['u', 'g', 'r', 'i', 'z', 'y']


def names(t):
    return list(t.dtype.names)


def same(S, tag, a, b):
    """the columns of b are in a, unchanged, row by row"""
    S.ensure(tag + ': same number of visits', S.eq(S.size(a), S.size(b)))
    have = names(a)
    for c in names(b):
        S.ensure(tag + ': column %s is kept' % c, c in have)
        S.ensure(tag + ': column %s unchanged' % c, S.eq(a[c], b[c], rtol=0, atol=0))


def agree(S, tag, a, b, cols):
    for c in cols:
        S.ensure(tag + ': ' + c, S.eq(a[c], b[c]))


def with_cols(S, ds, cols):
    d = {c: ds[c] for c in names(ds)}
    d.update(cols)
    return S.table(**d)


def protocol(S, mk, ds, kinds=None, honours=True, helpers=()):
    """the derived-column protocol for stacker factory mk on table ds; kinds: column kind of each declared column"""
    added = list(mk().cols_added)
    kinds = kinds or ['r'] * len(added)
    old = S.snapshot(ds)
    out = mk().run(ds)
    S.unchanged('table given not modified', ds, old)
    same(S, 'fresh run', out, old)
    new = [c for c in names(out) if c not in names(old)]
    S.ensure('adds the declared columns', all(c in new for c in added) and all(c in added or c in helpers for c in new))
    keep = S.snapshot(out)
    # twice is once
    st = mk()
    st.run(ds)
    again = st.run(out)
    same(S, 'second run', again, keep)
    S.ensure('second run adds nothing', names(again) == names(keep))
    forced = mk().run(out, override=True)
    same(S, 'second run with override', forced, keep)
    # columns that exist already with other values
    n = S.size(old)
    have = {c: S.arr('old_' + c, n, kind=k) for c, k in zip(added, kinds)}
    pre = with_cols(S, old, have)
    oldpre = S.snapshot(pre)
    left = mk().run(pre)
    S.unchanged('table with existing columns not modified', pre, oldpre)
    if honours:
        same(S, 'existing columns left alone', left, oldpre)
    else:
        same(S, 'other columns left alone', left, old)
    over = mk().run(pre, override=True)
    S.unchanged('table with existing columns not modified by override', pre, oldpre)
    same(S, 'override keeps the other columns', over, old)
    agree(S, 'override recomputes', over, keep, added)
    if len(added) > 1:
        some = with_cols(S, old, {added[0]: have[added[0]]})
        part = mk().run(some)
        same(S, 'part of the columns present', part, old)
        agree(S, 'missing columns computed', part, keep, added[1:])
    return keep


class _Arbitrary(bs.BaseStacker):
    """a stacker whose new column is an arbitrary function of another"""
    cols_added = ['new']

    def __init__(self, f=None):
        self.units = ['']
        self.cols_req = ['x']
        self.f = f

    def _run(self, sim_data, cols_present=False):
        if cols_present:
            return sim_data
        sim_data['new'] = self.f(sim_data['x'])
        return sim_data


class _TwoColumns(bs.BaseStacker):
    cols_added = ['p', 'q']

    def __init__(self):
        self.units = ['', '']
        self.cols_req = ['x']
        self.cols_added_dtypes = [float, int]

    def _run(self, sim_data, cols_present=False):
        if cols_present:
            return sim_data
        sim_data['p'] = sim_data['x'] * 2.0
        sim_data['q'] = sim_data['k'] + 1
        return sim_data


class _OldStyle(bs.BaseStacker):
    cols_added = ['new']

    def __init__(self):
        self.units = ['']
        self.cols_req = ['x']

    def _run(self, sim_data):
        sim_data['new'] = sim_data['x'] + 1.0
        return sim_data


def visits(S, n):
    return S.table(id=S.arr('id', n, kind='i'), x=S.arr('x', n), k=S.arr('k', n, kind='i'), band=S.arr('band', n, kind='s', pool=BANDS))


@contract('C07', 'column addition protocol', [B + 'run', B + '_add_stacker_cols'])
def base_protocol(S):
    n = S.int('n', 1)
    ds = visits(S, n)
    a, b = S.real('a'), S.real('b')
    protocol(S, lambda: _Arbitrary(lambda x: x * a + b), ds)


@contract('C07', 'column addition protocol, several columns of different types', [B + 'run', B + '_add_stacker_cols'])
def base_protocol2(S):
    n = S.int('n', 1)
    ds = visits(S, n)
    out = protocol(S, _TwoColumns, ds, kinds=['r', 'i'])
    S.ensure('column types as declared', out.dtype['p'].kind == 'f' and out.dtype['q'].kind == 'i')


@contract('C07', 'column addition, stackers without the cols_present argument', [B + 'run', B + '_add_stacker_cols'],
          bounded='the fallback is taken on a TypeError raised by the call itself')
def base_old(S):
    n = S.int('n', 1)
    ds = visits(S, n)
    protocol(S, _OldStyle, ds, honours=False)


@contract('C07', 'empty tables', [B + 'run'])
def base_empty(S):
    ds = visits(S, 0)
    old = S.snapshot(ds)
    out = _TwoColumns().run(ds)
    S.ensure('an empty table stays empty', S.eq(S.size(out), 0))
    S.unchanged('table not modified', ds, old)


@contract('C07', 'ZenithDistStacker', ['rubin_sim.maf.stackers.general_stackers:ZenithDistStacker._run', B + 'run'])
def c_zd(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    ds = S.table(id=S.arr('id', n, kind='i'), altitude=S.arr('alt', n))
    protocol(S, lambda: gs.ZenithDistStacker(degrees=deg), ds)


@contract('C07', 'NormAirmassStacker', ['rubin_sim.maf.stackers.general_stackers:NormAirmassStacker._run', B + 'run'], safety=False)
def c_na(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    ds = S.table(id=S.arr('id', n, kind='i'), airmass=S.arr('x', n, lo=1), fieldDec=S.arr('dec', n, lo=-80, hi=30))
    protocol(S, lambda: gs.NormAirmassStacker(degrees=deg), ds)


@contract('C07', 'HourAngleStacker', ['rubin_sim.maf.stackers.general_stackers:HourAngleStacker._run', B + 'run'])
def c_ha(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    ds = S.table(id=S.arr('id', n, kind='i'), observationStartLST=S.arr('lst', n, lo=0, hi=360), fieldRA=S.arr('ra', n, lo=0, hi=360))
    protocol(S, lambda: gs.HourAngleStacker(degrees=deg), ds)


def pointing(S, n, deg):
    hi = 360 if deg else 6
    return dict(id=S.arr('id', n, kind='i'), observationStartLST=S.arr('lst', n, lo=0, hi=hi), fieldRA=S.arr('ra', n, lo=0, hi=hi),
                fieldDec=S.arr('dec', n, lo=-80 if deg else -1.375, hi=30 if deg else 0.5), altitude=S.arr('alt', n, lo=20 if deg else 0.375, hi=88 if deg else 1.5),
                band=S.arr('band', n, kind='s', pool=['g', 'r']), observationStartMJD=S.arr('mjd', n, lo=60000, hi=60010))


@contract('C07', 'ParallacticAngleStacker', ['rubin_sim.maf.stackers.general_stackers:ParallacticAngleStacker._run', B + 'run'])
def c_pa(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    ds = S.table(**pointing(S, n, deg))
    protocol(S, lambda: gs.ParallacticAngleStacker(degrees=deg), ds, helpers=['HA'])


@contract('C07', 'DcrStacker', ['rubin_sim.maf.stackers.general_stackers:DcrStacker._run', B + 'run'], safety=False)
def c_dcr(S):
    n = S.int('n', 1)
    ds = S.table(**pointing(S, n, True))
    protocol(S, lambda: gs.DcrStacker(), ds, helpers=['HA', 'PA', 'zenithDistance'])


@contract('C07', 'Dcr2Stacker', ['rubin_sim.maf.stackers.general_stackers:Dcr2Stacker._run', B + 'run'], safety=False)
def c_dcr2(S):
    n = S.int('n', 1)
    ds = S.table(**pointing(S, n, True))
    protocol(S, lambda: gs.Dcr2Stacker(), ds, helpers=['HA', 'PA', 'zenithDistance'])


@contract('C07', 'DayObsMJDStacker', ['rubin_sim.maf.stackers.date_stackers:DayObsMJDStacker._run', B + 'run'])
def c_day(S):
    n = S.int('n', 1)
    ds = S.table(id=S.arr('id', n, kind='i'), observationStartMJD=S.arr('mjd', n, lo=60000, hi=60010))
    protocol(S, lambda: dst.DayObsMJDStacker(), ds, kinds=['i'])


@contract('C07', 'OverheadStacker', ['rubin_sim.maf.stackers.general_stackers:OverheadStacker._run', B + 'run'])
def c_over(S):
    n = S.int('n', 1)
    ds = S.table(id=S.arr('id', n, kind='i'), observationStartMJD=S.arr('mjd', n, lo=60000, hi=60010), visitTime=S.arr('vt', n, lo=0, hi=100),
                 visitExposureTime=S.arr('et', n, lo=0, hi=100))
    protocol(S, lambda: gs.OverheadStacker(max_gap=5.0), ds)


@contract('C07', 'SdssRADecStacker', ['rubin_sim.maf.stackers.sdss_stackers:SdssRADecStacker._run', B + 'run'])
def c_sdss(S):
    n = S.int('n', 1)
    ds = S.table(**{'p%d' % k: S.arr('p%d' % k, n, lo=-360, hi=360) for k in range(1, 9)})
    protocol(S, lambda: sd.SdssRADecStacker(), ds, honours=False)


@contract('C07', 'SaturationStacker', ['rubin_sim.maf.stackers.general_stackers:SaturationStacker._run', B + 'run'], safety=False)
def c_sat(S):
    n = S.int('n', 1)
    ds = S.table(id=S.arr('id', n, kind='i'), seeingFwhmEff=S.arr('seeing', n, lo=0.5, hi=2), skyBrightness=S.arr('sky', n, lo=10, hi=23),
                 visitExposureTime=S.arr('et', n, lo=1, hi=60), numExposures=S.arr('nexp', n, lo=1, hi=2), band=S.arr('band', n, kind='s', pool=['g', 'r']),
                 airmass=S.arr('x', n, lo=1, hi=2))
    protocol(S, lambda: gs.SaturationStacker(zeropoints=dict(g=28.5, r=28.25), km=dict(g=0.25, r=0.125)), ds, honours=False)


@contract('C07', 'TeffStacker', ['rubin_sim.maf.stackers.teff_stacker:TeffStacker._run', B + 'run'],
          bounded='the depth table is looked up per visit in Python')
def c_teff(S):
    n = S.int('n', 1)
    normed = S.bool('normed')
    ds = S.table(id=S.arr('id', n, kind='i'), fiveSigmaDepth=S.arr('m5', n, lo=20, hi=26), band=S.arr('band', n, kind='s', pool=BANDS),
                 visitExposureTime=S.arr('et', n, lo=1, hi=60))
    protocol(S, lambda: tf.TeffStacker(normed=normed), ds)


@contract('C07', 'M5OptimalStacker', ['rubin_sim.maf.stackers.m5_optimal_stacker:M5OptimalStacker._run', B + 'run'], safety=False)
def c_m5o(S):
    n = S.int('n', 1)
    ds = S.table(airmass=S.arr('x', n, lo=1, hi=2), fieldDec=S.arr('dec', n, lo=-80, hi=30), skyBrightness=S.arr('sky', n), seeingFwhmEff=S.arr('seeing', n),
                 fiveSigmaDepth=S.arr('m5', n), filter=S.arr('band', n, kind='s', pool=['g', 'r']), moonAlt=S.arr('moon', n), sunAlt=S.arr('sun', n))
    protocol(S, lambda: mo.M5OptimalStacker(), ds, honours=False)


def sky(S, n):
    return dict(id=S.arr('id', n, kind='i'), fieldRA=S.arr('ra', n, lo=0, hi=360), fieldDec=S.arr('dec', n, lo=-80, hi=30),
                observationStartMJD=S.arr('mjd', n, lo=60000, hi=60010), scheduler_note=S.arr('note', n, kind='s', pool=['DD:a, x', 'pair, 1', 'u,', '']))


OUT = [('GalacticStacker', lambda: cs.GalacticStacker(), ['r', 'r'], True),
       ('EclipticStacker', lambda: cs.EclipticStacker(), ['r', 'r'], True),
       ('EclipticStacker relative to the sun', lambda: cs.EclipticStacker(subtract_sun_lon=True), ['r', 'r'], True),
       ('HealpixStacker', lambda: cs.HealpixStacker(nside=4), ['i', 'i'], True),
       ('NFollowStacker', lambda: nf.NFollowStacker(min_size=9.0, time_steps=[0.5]), ['i'], True),
       ('NoteRootStacker', lambda: gs.NoteRootStacker(), ['s'], True),
       ('ParallaxFactorStacker', lambda: gs.ParallaxFactorStacker(), ['r', 'r'], True),
       ('DayObsStacker', lambda: dst.DayObsStacker(), ['i'], True),
       ('DayObsISOStacker', lambda: dst.DayObsISOStacker(), ['s'], True),
       ('ObservationStartDatetime64Stacker', lambda: dst.ObservationStartDatetime64Stacker(), ['dt'], True),
       ('WFDlabelStacker', lambda: lb.WFDlabelStacker(), ['s'], False)]


def _outside(name, mk, kinds, honours):
    cls = mk().__class__

    @contract('C07', name, [cls.__module__ + ':' + cls.__name__ + '._run', B + 'run'],
              bounded='computed by astropy, healpy or string functions outside the model', trials=60, size=4)
    def f(S):
        n = S.int('n', 1, 4)
        ds = S.table(**sky(S, n))
        ks = kinds
        if 'dt' in kinds:
            old = S.snapshot(ds)
            out = mk().run(ds)
            S.unchanged('table given not modified', ds, old)
            same(S, 'fresh run', out, old)
            S.ensure('adds the declared columns', names(out) == names(old) + list(mk().cols_added))
            again = mk().run(out)
            S.ensure('second run adds nothing', names(again) == names(out) and bool(np.all(again[mk().cols_added[0]] == out[mk().cols_added[0]])))
            return
        protocol(S, mk, ds, kinds=ks, honours=honours)
    return f


for _a in OUT:
    _outside(*_a)


@contract('C07', 'NEODistStacker', ['rubin_sim.maf.stackers.neo_dist_stacker:NEODistStacker._run', B + 'run'],
          bounded='a per-visit search over a distance grid', trials=100, size=4)
def c_neo(S):
    n = S.int('n', 1, 4)
    ds = S.table(id=S.arr('id', n, kind='i'), solarElong=S.arr('el', n, lo=10, hi=180), filter=S.arr('band', n, kind='s', pool=BANDS), sunAz=S.arr('saz', n, lo=0, hi=6),
                 azimuth=S.arr('az', n, lo=0, hi=6), fiveSigmaDepth=S.arr('m5', n, lo=20, hi=26))
    protocol(S, lambda: neo.NEODistStacker(stepsize=0.125), ds, honours=False)


@contract('C07', 'ObservationStartTimestampStacker', ['rubin_sim.maf.stackers.date_stackers:ObservationStartTimestampStacker.run'],
          bounded='pandas', trials=60, size=4)
def c_ts(S):
    n = S.int('n', 0, 4)
    ds = S.table(**sky(S, n))
    old = S.snapshot(ds)
    st = dst.ObservationStartTimestampStacker()
    out = st.run(ds)
    S.unchanged('table given not modified', ds, old)
    S.ensure('same visits', len(out) == len(old) and names(out) == names(old) + ['start_timestamp'] and all(list(out[c]) == list(old[c]) for c in names(old)))
    again = st.run(out)
    S.ensure('second run adds nothing', names(again) == names(out) and list(again['start_timestamp']) == list(out['start_timestamp']))
    for t, m in zip(out['start_timestamp'], old['observationStartMJD']):
        S.ensure('time of the visit', abs(t.to_julian_date() - 2400000.5 - m) < 1e-4)
