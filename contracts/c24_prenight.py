"""C24: pre-night simulations cover the nights asked for, are archived intact, and the latest suitable one is found."""
import contextlib
import datetime
import hashlib
import logging
import math
import os
import pathlib
import tempfile
import types
import warnings
from unittest import mock
from uuid import UUID
import numpy as np
import pandas as pd
import yaml
from astropy.time import Time
from lsst.resources import ResourcePath
from pyver import npmodel
from pyver.api import contract
import rubin_sim.sim_archive.prenight as pn
import rubin_sim.sim_archive.prenightindex as pi
import rubin_sim.sim_archive.prototype as pt
import rubin_sim.sim_archive.sim_archive as sa
import rubin_sim.sim_archive.util as su
import rubin_sim.sim_archive.vseqarchive as va

A = 'rubin_sim.sim_archive.'
logging.getLogger('rubin_sim').setLevel(logging.CRITICAL)
DAY = datetime.date(2025, 5, 1)


class Rng:
    """a random number generator that gives the drawn number and notes what it was asked for"""

    def __init__(self, S, v, loc, scale):
        self.S, self.v, self.w = S, v, (loc, scale)

    def normal(self, loc, scale):
        self.S.ensure('slew offset drawn with the configured mean and scatter', self.S.and_(self.S.eq(loc, self.w[0]), self.S.eq(scale, self.w[1])))
        return self.v


def overhead(S, keys, by_argument=False):
    """(offset, slew part, scatter) of a call with the named entries of an observation"""
    loc, scale = S.real('slew_loc', lo=0, near=[0]), S.real('slew_scale', lo=0, near=[0])
    slew = S.real('slewtime', lo=0, near=[0])
    z, sc, least = S.real('normal', near=[0, -1]), S.real('scatter', near=[0]), S.real('min_overhead', near=[0])
    obs = {'slewtime': slew, 'visittime': S.real('visittime', lo=0), 'exptime': S.real('exptime', lo=0)}
    seen = {}
    f = S.obj(pn.AnomalousOverheadFunc, rng=Rng(S, z, loc, scale), slew_loc=loc, slew_scale=scale, visit_loc=0.0, visit_scale=0.0,
              scatter_kwargs={'scale': 2.0, 'loc': 1.0}, min_overhead=least, scatter_dist_func=lambda **kw: (seen.update(kw), sc)[1])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        given = {k: obs[k] for k in keys}
        got = f(slewtime=slew) if by_argument else f(obs=given)
    S.ensure('scatter drawn with the configured arguments', seen == {'scale': 2.0, 'loc': 1.0})
    S.ensure('observation is left alone', by_argument or set(given) == set(keys) and all(given[k] is obs[k] for k in keys))
    used = S.or_(loc > 0, scale > 0)
    part = S.ite(used, S.ite(slew * z + slew < 0, -slew, slew * z), 0.0)
    S.ensure('a slew never takes negative time', slew + part >= 0)
    return got, part, sc, least, obs


@contract('C24', 'overhead of a visit', A + 'prenight:AnomalousOverheadFunc.__call__')
def overhead_checked(S):
    got, part, sc, least, o = overhead(S, ('slewtime', 'visittime', 'exptime'))
    model = o['slewtime'] + o['visittime'] - o['exptime']
    S.ensure('the overhead is never below the minimum', S.or_(model + got >= least, S.eq(model + got, least)))
    S.ensure('slew offset plus scatter, or what reaches the minimum', S.eq(got, S.ite(model + part + sc < least, least - model, part + sc)))


@contract('C24', 'overhead of a visit with no exposure time', A + 'prenight:AnomalousOverheadFunc.__call__')
def overhead_unchecked(S):
    keys = S.choice('keys', [('slewtime',), ('slewtime', 'visittime'), ('slewtime', 'exptime')])
    got, part, sc, least, o = overhead(S, keys)
    S.ensure('slew offset plus scatter', S.eq(got, part + sc))


@contract('C24', 'overhead of a slew time', A + 'prenight:AnomalousOverheadFunc.__call__')
def overhead_slew(S):
    got, part, sc, least, o = overhead(S, (), True)
    S.ensure('slew offset plus scatter', S.eq(got, part + sc))


@contract('C24', 'random overheads are reproducible', A + 'prenight:AnomalousOverheadFunc.__init__', bounded='random number generator', trials=200)
def overhead_random(S):
    r = S.r
    seed, dist = r.randint(0, 10 ** 6), r.choice([None, 'normal', 'halfnorm'])
    kw = dict(slew_scale=r.choice([0., .1, 1.5]), slew_loc=r.choice([0., .2]), min_overhead=r.choice([0., 5.]))
    args = {'scale': r.choice([0., 3.]), 'loc': r.choice([0., 1.])}
    S.draws.update(seed=seed, dist=dist, kw=kw, args=args)
    import scipy.stats
    if dist:
        kw.update(scatter_distribution=dist if dist == 'normal' else scipy.stats.halfnorm, scatter_kwargs=args)
    obs = [dict(slewtime=r.uniform(0, 60), visittime=34., exptime=r.choice([30., 33.9])) for _ in range(5)]
    keep = dict(args)
    go = lambda: [(lambda f: [f(obs=o) for o in obs])(pn.AnomalousOverheadFunc(seed, **kw))][0]  # noqa
    a = go()
    S.ensure('same seed, same overheads', a == go())
    S.ensure('arguments are left alone', args == keep)
    rng = np.random.default_rng(seed)
    for o, x in zip(obs, a):
        slew = max(o['slewtime'] * rng.normal(kw['slew_loc'], kw['slew_scale']), -o['slewtime']) if kw['slew_scale'] > 0 or kw['slew_loc'] > 0 else 0.
        sc = rng.normal(args['loc'], args['scale']) if dist == 'normal' else scipy.stats.halfnorm.rvs(random_state=rng, **(args if dist else {'scale': 0., 'loc': 0.}))
        model = o['slewtime'] + 34. - o['exptime']
        S.ensure('offsets follow the generator', abs(x - max(slew + sc, kw['min_overhead'] - model)) < 1e-9)
    S.raises(AttributeError, lambda: pn.AnomalousOverheadFunc(seed, scatter_distribution='no_such'))


def mjd(d):
    return (d - datetime.date(1858, 11, 17)).days


@contract('C24', 'start and length of a simulation', A + 'prenight:compute_sim_start_and_end', bounded='calendar dates', trials=600)
def sim_span(S):
    r = S.r
    first, n = DAY + datetime.timedelta(days=r.randint(-400, 400)), r.randint(1, 12)
    almanac = np.zeros(n, dtype=[('night', int), ('sunset', float), ('sun_n12_setting', float), ('sunrise', float)])
    base = mjd(first) + 1
    for k in range(n):
        almanac['sunset'][k] = base + k + r.uniform(-.15, .1)
        almanac['sun_n12_setting'][k] = almanac['sunset'][k] + r.uniform(.02, .05)
        almanac['sunrise'][k] = base + k + r.uniform(.35, .48)
    i = r.randrange(n)
    m = r.randint(1, n - i)
    day, delay = first + datetime.timedelta(days=i), r.choice([0, 0, 15, 90.5])
    S.draws.update(first=str(first), day=str(day), nights=m, delay=delay, almanac=almanac.tolist())
    given = r.choice([int(day.strftime('%Y%m%d')), day.isoformat(), day])
    with mock.patch.object(pn, 'Almanac', lambda: types.SimpleNamespace(sunsets=almanac)):
        start, dur = pn.compute_sim_start_and_end(given, m, delay) if delay else pn.compute_sim_start_and_end(given, m)
    S.ensure('starts at twilight of the evening of the day, after the delay', abs(start - (almanac['sun_n12_setting'][i] + delay / 1440)) < 1e-7)
    S.ensure('ends at the sunrise of the last night', abs(start + dur - almanac['sunrise'][i + m - 1]) < 1e-7)


@contract('C24', 'start and length of a simulation, any almanac', A + 'prenight:compute_sim_start_and_end',
          assumes=['the almanac lists consecutive nights, each with its sunset near local evening, twilight and sunrise in that order'])
def sim_span_any(S):
    n = S.int('n', 1)
    day = S.choice('day', ['2025-05-01', '2025-12-31', '2028-02-29', '2020-03-01'])
    m = S.int('nights', 1, gen=lambda r: r.randint(1, int(n)))
    i = S.int('night of the day', 0, gen=lambda r: r.randint(0, int(n) - int(m)))
    S.assume(i + m <= n)
    delay = S.real('delay', 0, 120, near=[0])
    frac, dusk, dawn = S.arr('frac', n, lo=.6, hi=1.1), S.arr('dusk', n, lo=.01, hi=.12), S.arr('dawn', n, lo=1.35, hi=1.59)
    base = mjd(datetime.date.fromisoformat(day)) - i          # night 0 of the almanac belongs to this date
    k = npmodel.c_arange(n) if S.symbolic else np.arange(int(n))
    sunset = frac + k + base
    sunsets = S.table(sunset=sunset, sun_n12_setting=sunset + dusk, sunrise=dawn + k + base)
    with mock.patch.object(pn, 'Almanac', lambda: types.SimpleNamespace(sunsets=sunsets)):
        start, dur = pn.compute_sim_start_and_end(day, m, delay)
    S.ensure('starts at twilight of the evening of the day, after the delay', S.eq(start, sunset[i] + dusk[i] + delay / 1440))
    S.ensure('ends at the sunrise of the last night', S.eq(start + dur, dawn[i + m - 1] + (i + m - 1) + base))


@contract('C24', 'observing date', A + 'util:dayobs_to_date', bounded='calendar dates', trials=800)
def dayobs(S):
    r = S.r
    day = DAY + datetime.timedelta(days=r.randint(-9000, 9000))
    frac = r.choice([.5, .50001, .999, 1.0, 1.2, 1.49999, r.uniform(.5, 1.4999)])     # days after midnight of the evening
    S.draws.update(day=str(day), frac=frac)
    S.ensure('number', su.dayobs_to_date(int(day.strftime('%Y%m%d'))) == day)
    S.ensure('text', su.dayobs_to_date(day.isoformat()) == day)
    S.ensure('text with a time', su.dayobs_to_date(day.isoformat() + 'T23:10:00') == day)
    S.ensure('date', su.dayobs_to_date(day) == day)
    S.ensure('date and time', su.dayobs_to_date(datetime.datetime(day.year, day.month, day.day, 22, 1)) == day)
    t = Time(mjd(day) + frac, format='mjd', scale='utc')
    S.ensure('instant, rolling over at noon', su.dayobs_to_date(t) == day)
    S.ensure('instant in an array', su.dayobs_to_date(Time([mjd(day) + frac], format='mjd', scale='utc')) == day)
    S.raises(AssertionError, lambda: su.dayobs_to_date(3.5))


def sims(S, now):
    r = S.r
    rows = []
    for k in range(r.randint(0, 7)):
        age = r.choice([r.uniform(0, 4), r.uniform(0, 4), .9999, 2.9999, 3.0001]) + k * 1e-6
        rows.append(dict(visitseq_uuid='u%d' % k, creation_time=now - pd.Timedelta(days=age), tags=r.choice([['ideal', 'nominal'], ['nominal', 'x', 'ideal'], ['ideal'], ['nominal'], []]),
                         visitseq_url='url%d' % k, age=age, nights=sorted(r.sample(range(4), r.randint(1, 4)))))
    r.shuffle(rows)
    return rows


def latest(rows, tags, age):
    ok = [x for x in rows if set(tags) <= set(x['tags']) and math.floor(x['age']) <= age]
    return max(ok, key=lambda x: x['creation_time']) if ok else None


@contract('C24', 'latest simulation with the requested tags', A + 'prenightindex:select_latest_prenight_sim', bounded='pandas', trials=500)
def select(S):
    rows = sims(S, pd.Timestamp.now(tz='UTC'))
    tags, age = S.r.choice([('ideal', 'nominal'), ('ideal',), ()]), S.r.choice([0, 1, 2, 2, 5])
    S.draws.update(tags=tags, age=age, sims=[(x['visitseq_uuid'], x['age'], x['tags']) for x in rows])
    want = latest(rows, tags, age)
    tab = pd.DataFrame(rows, columns=['visitseq_uuid', 'creation_time', 'tags', 'visitseq_url']).set_index('visitseq_uuid')
    got = pi.select_latest_prenight_sim(tab, tags, age)
    S.ensure('newest of those with all the tags that are not too old', (got is None) == (want is None) and (want is None or got['visitseq_uuid'] == want['visitseq_uuid']))
    if tags == ('ideal', 'nominal') and age == 2:
        again = pi.select_latest_prenight_sim(tab)
        S.ensure('default tags and age', (again is None) == (want is None) and (want is None or again['visitseq_uuid'] == want['visitseq_uuid']))


@contract('C24', 'latest simulation that covers the nights', A + 'sim_archive:find_latest_prenight_sim_for_nights', also=[A + 'prenightindex:select_latest_prenight_sim'],
          bounded='pandas, with a stand-in for the index of simulations', trials=500)
def find(S):
    r = S.r
    rows = sims(S, pd.Timestamp.now(tz='UTC'))
    a, b = sorted((r.randrange(4), r.randrange(4)))
    tags, age, tel = r.choice([('ideal', 'nominal'), ('ideal',), ()]), r.choice([0, 1, 2, 5]), r.choice(['simonyi', 'auxtel'])
    S.draws.update(nights=(a, b), tags=tags, age=age, sims=[(x['visitseq_uuid'], x['age'], x['tags'], x['nights']) for x in rows])
    iso = lambda k: (DAY + datetime.timedelta(days=k)).isoformat()  # noqa
    asked = []

    def index(day, telescope, **kw):
        asked.append((telescope, kw))
        return pd.DataFrame([x for x in rows if any(iso(k) == day for k in x['nights'])], columns=['visitseq_uuid', 'creation_time', 'tags', 'visitseq_url']).set_index('visitseq_uuid')
    want = latest([x for x in rows if a in x['nights'] and b in x['nights']], tags, age)
    with mock.patch.object(sa, 'get_prenight_index', index):
        go = lambda: sa.find_latest_prenight_sim_for_nights(iso(a), None if a == b else iso(b), tags=tags, telescope=tel, max_simulation_age=age, get_prenight_index_kwargs={'schema': 'q'})  # noqa
        if want is None:
            S.raises(sa.NoMatchingSimulationsFoundError, go)
        else:
            S.ensure('newest suitable simulation of both nights', go()['visitseq_uuid'] == want['visitseq_uuid'])
    S.ensure('asked for the telescope, with the arguments', all(x == (tel, {'schema': 'q'}) for x in asked))


@contract('C24', 'visits of the requested nights', A + 'sim_archive:fetch_sim_for_nights', bounded='pandas, with a stand-in for the file of visits', trials=300)
def fetch(S):
    r = S.r
    n = r.randint(1, 12)
    t = np.array([mjd(DAY) + r.randint(0, 4) + r.choice([.5, .49999, .75, 1.2]) for _ in range(n)])
    a, b = sorted((r.randrange(-1, 5), r.randrange(-1, 5)))
    iso = lambda k: (DAY + datetime.timedelta(days=k)).isoformat()  # noqa
    S.draws.update(t=t.tolist(), nights=(a, b))
    tab = np.zeros(n, dtype=[('observationId', int), ('observationStartMJD', float)])
    tab['observationId'], tab['observationStartMJD'] = np.arange(n), t
    ext, how = r.choice(['.db', '.h5']), r.choice(['path', 'text', 'dict'])
    where = 'file:///nowhere/opsim' + ext
    asked = []

    def read(rp, dbcols=None, stackers=(), **kw):
        asked.append(str(rp))
        x = tab
        for s in stackers:
            x = s.run(x)
        return x if ext == '.db' else pd.DataFrame(x)
    want = [k for k in range(n) if a <= math.floor(t[k] - .5) - mjd(DAY) <= b]
    which = {'path': ResourcePath(where), 'text': where, 'dict': {'tags': ()}}[how]
    keep = r.random() < .3
    stackers = [sa.DayObsISOStacker()] if keep else []
    with mock.patch.object(sa, 'get_sim_data', read), mock.patch.object(sa, 'get_visits', read), \
            mock.patch.object(sa, 'find_latest_prenight_sim_for_nights', lambda f, l, **kw: {'visitseq_url': where, 'files': {}} if (f, l, kw) == (iso(a), iso(b), {'tags': ()}) else {}):
        got = sa.fetch_sim_for_nights(iso(a), iso(b) if b != a or r.random() < .5 else None, which, stackers=stackers) if keep else \
            sa.fetch_sim_for_nights(iso(a), iso(b), which)
    S.ensure('read from the requested file', asked == [where])
    S.ensure('exactly the visits of those nights, in order', got['observationId'].tolist() == want)
    S.ensure('start times kept', got['observationStartMJD'].tolist() == t[want].tolist())
    S.ensure('night label only when asked for', ('day_obs_iso8601' in got.columns) == keep)


class Converter:
    """stand-in for the schema converter of rubin_scheduler: writes the text of the table"""

    def obs2opsim(self, obs, filename=None):
        if filename is not None:
            with open(filename, 'w') as f:
                f.write(repr(np.asarray(obs).tolist()))
        return pd.DataFrame({'mjd': np.asarray(obs['mjd'])})


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory() as d, mock.patch.dict(os.environ, {'USER': 'someone'}), mock.patch.object(sa, 'SchemaConverter', Converter), \
            mock.patch.object(sa.socket, 'getfqdn', lambda: 'here'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield d


def make(S, d, k, tags):
    """a simulation directory, with what it must record"""
    r = S.r
    n = r.randint(1, 5)
    obs = np.zeros(n, dtype=[('mjd', float)])
    obs['mjd'] = [mjd(DAY) + r.randint(0, 3) + r.choice([.5, .7, 1.3, 1.499]) for _ in range(n)]
    extra = os.path.join(d, 'extra%d.txt' % k)
    with open(extra, 'w') as f:
        f.write('notes %d' % r.randint(0, 10 ** 6))
    path = os.path.join(d, 'sim%d' % k)
    os.mkdir(path)
    start, nights = mjd(DAY) + r.randint(0, 3) + .97, r.randint(1, 3)
    kw = r.choice([{}, {'sim_start_mjd': start, 'sim_duration': np.float64(nights), 'n_visit_limit': np.int64(7), 'verbose': True, 'name': 'x'}])
    S.draws['sim%d' % k] = dict(mjd=obs['mjd'].tolist(), kw=repr(kw))
    out = sa.make_sim_data_dir(obs, in_files={'notes': extra}, sim_runner_kwargs=kw, tags=tags, label='label %d' % k, data_path=path)
    md = yaml.safe_load(open(os.path.join(path, 'sim_metadata.yaml')))
    ev = lambda x: (datetime.date(1858, 11, 17) + datetime.timedelta(days=math.floor(x - .5))).isoformat()  # noqa
    first, last = (ev(start), ev(start + nights - 1)) if kw else (ev(obs['mjd'].min()), ev(obs['mjd'].max()))
    S.ensure('directory as asked', str(out) == path)
    S.ensure('first and last observing date', md['simulated_dates'] == {'first': first, 'last': last})
    S.ensure('tags and label', md.get('tags', []) == tags and md['label'] == 'label %d' % k)
    S.ensure('arguments of the simulation', md.get('sim_runner_kwargs', {}) == ({k2: v.item() if isinstance(v, np.generic) else v for k2, v in kw.items()}))
    S.ensure('every file recorded', {x['name'] for x in md['files'].values()} == {'opsim.db', 'obs_stats.txt', 'extra%d.txt' % k})
    S.ensure('hash of every file', all(x['md5'] == hashlib.md5(open(os.path.join(path, x['name']), 'rb').read()).hexdigest() for x in md['files'].values()))
    S.ensure('supplied file copied', open(os.path.join(path, 'extra%d.txt' % k)).read() == open(extra).read())
    return path, md


@contract('C24', 'simulations put in the archive',
          [A + 'sim_archive:make_sim_data_dir', A + 'prototype:_next_sim_date_and_index', A + 'prototype:transfer_archive_dir', A + 'prototype:check_opsim_archive_resource',
           A + 'prototype:read_archived_sim_metadata', A + 'prototype:_build_archived_sim_label'],
          bounded='files in a scratch directory, with a stand-in for the schema converter', trials=60)
def archive(S):
    r = S.r
    now = datetime.datetime.now(datetime.timezone.utc)
    if (now + datetime.timedelta(minutes=2)).date() != now.date():
        return                                                          # the day must not end while simulations are added
    with scratch() as d:
        base = ResourcePath(os.path.join(d, 'archive'), forceDirectory=True)
        base.mkdir()
        uri = base.geturl()
        n = r.randint(1, 4)
        today = datetime.datetime.now(datetime.timezone.utc).date().isoformat()
        taken = r.choice([[], [], ['9'], ['3', '12'], ['notes']])
        for x in taken:
            os.makedirs(os.path.join(d, 'archive', today, x))
        top = max([int(x) for x in taken if x.isdigit()], default=0)
        S.draws.update(n=n, taken=taken)
        stored = {}
        for k in range(n):
            path, md = make(S, d, k, r.choice([['ideal', 'nominal'], ['ideal'], []]))
            rp = pt.transfer_archive_dir(path, uri)
            S.ensure('next number of the day', rp.geturl().rstrip('/').split('/')[-2:] == [today, str(top + 1 + k)])
            for f in list(md['files'].values()) + [{'name': 'sim_metadata.yaml'}]:
                S.ensure('file stored unchanged', rp.join(f['name']).read() == open(os.path.join(path, f['name']), 'rb').read())
            chk = pt.check_opsim_archive_resource(rp.geturl())
            S.ensure('files match their hashes', set(chk) == {f['name'] for f in md['files'].values()} and all(chk.values()))
            stored[rp.geturl().rstrip('/')] = md
        bad = r.choice(sorted(stored))
        ResourcePath(bad, forceDirectory=True).join('opsim.db').write(b'spoiled')
        chk = pt.check_opsim_archive_resource(bad + '/')
        S.ensure('a changed file is noticed, and only that', [k for k, v in chk.items() if not v] == ['opsim.db'])
        got = pt.read_archived_sim_metadata(uri, num_nights=2)
        S.ensure('all of them are found', sorted(k.rstrip('/') for k in got) == sorted(stored))
        for k, m in got.items():
            w = stored[k.rstrip('/')]
            S.ensure('labelled with date, number and own label', m['label'] == '%s %s' % ('/'.join(k.rstrip('/').split('/')[-2:]), w['label']))
            S.ensure('everything else as stored', {a: b for a, b in m.items() if a != 'label'} == {a: b for a, b in w.items() if a != 'label'})
        S.ensure('none of other days', pt.read_archived_sim_metadata(uri, latest='2020-01-05', num_nights=3) == {})


@contract('C24', 'latest archived simulation', A + 'prototype:find_latest_prenight_sim_for_nights', bounded='with a stand-in for the metadata of the archive', trials=800)
def find_old(S):
    r = S.r
    iso = lambda k: (DAY + datetime.timedelta(days=k)).isoformat()  # noqa
    meta = {}
    for _ in range(r.randint(0, 6)):
        f, l = sorted((r.randrange(4), r.randrange(4)))
        m = dict(simulated_dates={'first': iso(f), 'last': iso(l)}, tags=r.choice([['ideal', 'nominal'], ['ideal'], ['x', 'nominal', 'ideal']]), files={'observations': {'name': 'o.db'}})
        if r.random() < .5:
            m['telescope'] = r.choice(['simonyi', 'Simonyi', 'auxtel'])
        meta['file:///arch/%s/%d/' % (iso(r.choice([-2, -1, 0])), r.choice([1, 2, 3, 10]))] = m
    a, b = sorted((r.randrange(4), r.randrange(4)))
    tags, tel = r.choice([('ideal', 'nominal'), ('ideal',)]), r.choice(['simonyi', 'auxtel'])
    S.draws.update(meta=meta, nights=(a, b), tags=tags, tel=tel)
    ok = [u for u, m in meta.items() if m['simulated_dates']['first'] <= iso(a) and m['simulated_dates']['last'] >= iso(b) and set(tags) <= set(m['tags']) and
          m.get('telescope', tel).lower() == tel]
    key = lambda u: (u.split('/')[-3], int(u.split('/')[-2]))  # noqa
    with mock.patch.object(pt, 'read_archived_sim_metadata', lambda *x, **y: {k: dict(v) for k, v in meta.items()}), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = pt.find_latest_prenight_sim_for_nights(iso(a), iso(b), tags=tags, telescope=tel, archive_uri='file:///arch/')
    S.ensure('one is found when there is one', (got is None) == (not ok))
    if ok:
        S.ensure('latest day, then highest number', got['uri'] == max(ok, key=key))
        S.ensure('its visits', got['opsim_rp'].geturl() == got['uri'] + 'o.db')


@contract('C24', 'visits as tables and back', [A + 'util:opsimdb_to_hdf5', A + 'util:hdf5_to_opsimdb'], bounded='files of compiled libraries', trials=40)
def tables(S):
    import sqlite3
    r = S.r
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        db = os.path.join(d, 'a.db')
        data = {nm: pd.DataFrame({'observationId': range(r.randint(1, 5)), 'x': 0.}) for nm in r.sample(['observations', 'info', 'more'], r.randint(1, 3))}
        con = sqlite3.connect(db)
        for nm, t in data.items():
            t['x'] = [r.uniform(-1e5, 1e5) for _ in range(len(t))]
            t['band'] = [r.choice(['g', 'r', '']) for _ in range(len(t))]
            t.to_sql(nm, con, index=False)
        con.close()
        S.draws.update({k: v.to_dict('list') for k, v in data.items()})
        h5 = su.opsimdb_to_hdf5(db) if r.random() < .5 else su.opsimdb_to_hdf5(db, os.path.join(d, 'a.h5'))
        S.ensure('name of the table file', h5 == os.path.join(d, 'a.h5'))
        back = su.hdf5_to_opsimdb(h5, os.path.join(d, 'b.db'))
        S.ensure('name of the database', back == os.path.join(d, 'b.db'))
        con = sqlite3.connect(back)
        names = [x[0] for x in con.execute("SELECT name FROM sqlite_master WHERE type='table'")]
        S.ensure('same tables', sorted(names) == sorted(data))
        for nm, t in data.items():
            got = pd.read_sql_query('SELECT * FROM %s' % nm, con)
            S.ensure('same columns and rows', list(got.columns) == list(t.columns) and got.values.tolist() == t.values.tolist())
        con.close()


@contract('C24', 'statistics of each night', A + 'vseqarchive:compute_nightly_stats', bounded='pandas', trials=150)
def nightly(S):
    r = S.r
    n = r.randint(1, 12)
    t = np.array([mjd(DAY) + r.randint(0, 2) + r.choice([.5, .49999, .75, 1.2]) for _ in range(n)])
    cols = {'altitude': [r.uniform(20, 90) for _ in range(n)], 'azimuth': [r.uniform(0, 360) for _ in range(n)], 'seeing': [r.uniform(.4, 2) for _ in range(n)]}
    which = r.choice([None, ('seeing',), ('seeing', 'altitude')])
    name = r.choice(['obs_start_mjd', 'observationStartMJD'])
    S.draws.update(t=t.tolist(), which=which, cols=cols, name=name)
    tab = pd.DataFrame({name: t, **cols})
    keep = tab.copy()
    out = va.compute_nightly_stats(tab) if which is None else va.compute_nightly_stats(tab, which)
    S.ensure('visits left alone', tab.equals(keep))
    night = np.floor(t - .5).astype(int)
    rows = {}
    for _, x in out.iterrows():
        rows[(mjd(x['day_obs']), x['value_name'])] = x
    S.ensure('one row for each night and value', len(out) == len(rows) and set(rows) == {(k, c) for k in set(night.tolist()) for c in (which or ('altitude', 'azimuth'))})
    for (k, c), x in rows.items():
        v = np.array(cols[c])[night == k]
        want = dict(count=len(v), mean=v.mean(), min=v.min(), max=v.max(), p05=np.percentile(v, 5), q1=np.percentile(v, 25), median=np.median(v), q3=np.percentile(v, 75), p95=np.percentile(v, 95))
        S.ensure('statistics of the visits of that night', all(abs(x[a] - b) < 1e-9 for a, b in want.items()))
        S.ensure('scatter of the visits of that night', np.isnan(x['std']) if len(v) < 2 else abs(x['std'] - v.std(ddof=1)) < 1e-9)
        S.ensure('not accumulated', not x['accumulated'])
    S.raises(ValueError, lambda: va.compute_nightly_stats(pd.DataFrame(cols)))


class Meta:
    """stand-in for the metadata database: notes what is registered"""

    def __init__(self, uuid, telescope, created):
        self.md = dict(visitseq_uuid=uuid, telescope=telescope, creation_time=created)
        self.log = []

    def get_visitseq_metadata(self, uuid):
        assert uuid == self.md['visitseq_uuid']
        return self.md

    def set_visitseq_url(self, uuid, url):
        self.log.append(('url', uuid, url))

    def register_file(self, uuid, file_type, sha, location, update=False):
        self.log.append((file_type, uuid, sha, location.geturl(), update))


@contract('C24', 'files of a simulation in the archive', [A + 'vseqarchive:add_file', A + 'vseqarchive:construct_base_resource_path', A + 'vseqarchive:_write_file_to_archive', A + 'vseqarchive:_write_data_to_archive'],
          bounded='files in a scratch directory, with a stand-in for the metadata database', trials=100)
def files(S):
    r = S.r
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        uuid = UUID(int=r.randrange(2 ** 128))
        k, frac = r.randint(0, 300), r.choice([.5, .9, 1.2, 1.499])
        created = (pd.Timestamp(DAY, tz='UTC') + pd.Timedelta(days=k + frac)).to_pydatetime().replace(tzinfo=None)
        tel, kind, upd = r.choice(['simonyi', 'auxtel']), r.choice(['visits', 'rewards', 'notes']), r.random() < .5
        S.draws.update(uuid=str(uuid), created=str(created), tel=tel, kind=kind, upd=upd)
        content = bytes(r.randrange(256) for _ in range(r.randint(0, 50)))
        src = os.path.join(d, 'a file.h5')
        with open(src, 'wb') as f:
            f.write(content)
        m = Meta(uuid, tel, created)
        base = ResourcePath(os.path.join(d, 'arch'), forceDirectory=True)
        loc = va.add_file(m, uuid, r.choice([src, pathlib.Path(src)]), kind, r.choice([base, base.geturl()]), update=upd)
        want = os.path.join(d, 'arch', tel, (DAY + datetime.timedelta(days=k)).isoformat(), str(uuid), 'a file.h5')
        S.ensure('telescope, observing date of its creation and identifier', loc.ospath == want)
        S.ensure('stored unchanged', open(want, 'rb').read() == content and open(src, 'rb').read() == content)
        S.ensure('registered with its hash', m.log == ([('url', uuid, loc.geturl())] if kind == 'visits' else [(kind, uuid, hashlib.sha256(content).digest(), loc.geturl(), upd)]))


@contract('C24', 'index of simulations of a night', [A + 'prenightindex:get_prenight_index', A + 'prenightindex:get_prenight_index_from_bucket',
                                                 A + 'prenightindex:_get_sim_metadata_from_metadata_index'],
          bounded='files in a scratch directory; the database is not reachable', trials=40)
def index(S):
    r = S.r
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings(), mock.patch.object(pi, 'get_prenight_index_from_database', mock.Mock(side_effect=RuntimeError('no database'))):
        warnings.simplefilter('ignore')
        want = {}
        for tel in ('simonyi', 'auxtel'):
            for k in (0, 1, 40):
                if r.random() < .3:
                    continue
                day = DAY + datetime.timedelta(days=k)
                rows = {str(UUID(int=r.randrange(2 ** 128))): dict(label='%s %d %d' % (tel, k, j), daily_id=j + (10 if tel == 'auxtel' else 0), x=r.uniform(0, 1)) for j in range(1, r.randint(2, 4))}
                want[tel, k] = rows
                p = os.path.join(d, tel, str(day.year), str(day.month))
                os.makedirs(p, exist_ok=True)
                pd.DataFrame.from_dict(rows, orient='index').to_json(os.path.join(p, '%s_prenights_for_%s.json' % (tel, day.isoformat())), orient='index')
        S.draws.update(want={'%s %d' % k: v for k, v in want.items()})
        for tel in ('simonyi', 'auxtel'):
            for k in (0, 1, 40):
                day = DAY + datetime.timedelta(days=k)
                given = r.choice([day, day.isoformat(), int(day.strftime('%Y%m%d'))])
                got = pi.get_prenight_index(given, tel, prenight_index_path=d)
                rows = want.get((tel, k), {})
                S.ensure('simulations of the night and the telescope', sorted(map(str, got.index)) == sorted(rows) and all(got.loc[u, 'label'] == x['label'] for u, x in rows.items()))
                for u, x in rows.items():
                    one = pi._get_sim_metadata_from_metadata_index(r.choice([day, int(day.strftime('%Y%m%d'))]), r.choice([u, UUID(u)]), prenight_index_path=d)
                    S.ensure('the one with that identifier', one['label'] == x['label'] and one['visitseq_uuid'] == UUID(u))
                S.raises(ValueError, lambda: pi._get_sim_metadata_from_metadata_index(day, UUID(int=1), prenight_index_path=d))
