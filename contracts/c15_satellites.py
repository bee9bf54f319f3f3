"""C15: synthetic satellites have well-formed element sets, and streaks are those inside the field."""
import math
import types
import numpy as np
from astropy import constants as const
from astropy import units as u
from pyver.api import contract, loops
from pyver.engine import LoopSpec, SEnum
from pyver.sym import SArr, SV, IV, Unsupported, Dom as SDom
from pyver.terms import NANC
import z3
import rubin_sim.satellite_constellations.sat_utils as su

K = 'rubin_sim.satellite_constellations.sat_utils:'
TEXT = 'formatted text of fixed columns is outside the solver theories'


def digit(line):
    return sum(int(c) if c.isdigit() else c == '-' for c in line[:68]) % 10


def layout(S, tle, nr, epoch, inc, raan, ma, mm, name=None):
    from sgp4.api import Satrec
    rows = tle.split('\n')
    S.ensure('name and two lines', len(rows) == 3 and (name is None or rows[0] == name))
    l1, l2 = rows[1:]
    S.ensure('sixty-nine characters each', len(l1) == 69 and len(l2) == 69)
    S.ensure('line numbers', l1[:2] == '1 ' and l2[:2] == '2 ')
    S.ensure('same catalogue number in both lines', l1[2:7] == l2[2:7] == '%05d' % nr)
    S.ensure('checksum of the first line', l1[68] == str(digit(l1)))
    S.ensure('checksum of the second line', l2[68] == str(digit(l2)))
    blank1, blank2 = (1, 8, 17, 32, 43, 52, 61, 63), (1, 7, 16, 25, 33, 42, 51)
    S.ensure('blank separators', all(l1[i] == ' ' for i in blank1) and all(l2[i] == ' ' for i in blank2))
    S.ensure('epoch in its columns', abs(float(l1[18:32]) - epoch) < 1e-7)
    S.ensure('inclination in its columns', abs(float(l2[8:16]) - inc) < 1e-4)
    S.ensure('node in its columns', abs(float(l2[17:25]) - raan) < 1e-4)
    S.ensure('eccentricity in its columns', l2[26:33].isdigit() and int(l2[26:33]) == 1000)
    S.ensure('argument of perigee in its columns', float(l2[34:42]) == 0)
    S.ensure('mean anomaly in its columns', abs(float(l2[43:51]) - ma) < 1e-4)
    S.ensure('mean motion in its columns', abs(float(l2[52:63]) - mm) < 1e-7)
    sat = Satrec.twoline2rv(l1, l2)
    S.ensure('read back by the propagator',
             sat.satnum == nr and abs(math.degrees(sat.inclo) - inc) < 1e-4 and abs(math.degrees(sat.nodeo) - raan) < 1e-4 and abs(sat.ecco - 1e-4) < 1e-9 and
             abs(math.remainder(math.degrees(sat.mo) - ma, 360)) < 1e-3 and abs(sat.no_kozai - mm * 2 * math.pi / 1440) < 1e-9)


@contract('C15', 'two-line element set', K + 'tle_from_orbital_parameters', bounded=TEXT, trials=3000)
def tle(S):
    r = S.r
    nr = r.choice([0, 5, 8000, 12345, 99999, r.randint(0, 99999)])
    ang = lambda hi: r.choice([0., hi, 9.99995, 99.99996, 45.1234, r.uniform(0, hi)])  # noqa
    epoch, inc, raan, ma = r.choice([23274., 10001.5, 99365.99999999, r.uniform(10001, 99365)]), min(180., ang(180.)), ang(359.9), ang(359.9)
    mm = r.choice([1.0027, 9.99999999, 15.5, r.uniform(.1, 16.9)])
    S.draws.update(nr=nr, epoch=epoch, inc=inc, raan=raan, ma=ma, mm=mm)
    name = r.choice(['Test 1', 'starV1 8000', 'X'])
    out = su.tle_from_orbital_parameters(name, nr, epoch, inc * u.deg, raan * u.deg, ma * u.deg, mm / u.day)
    layout(S, out, nr, epoch, inc, raan, ma, mm, name)
    rad = su.tle_from_orbital_parameters(name, nr, epoch, (inc * u.deg).to(u.rad), (raan * u.deg).to(u.rad), (ma * u.deg).to(u.rad), (mm / u.day).to(1 / u.hour))
    layout(S, rad, nr, epoch, inc, raan, ma, mm, name)


@contract('C15', 'mean motion of a circular orbit', K + 'satellite_mean_motion', bounded='quantities with units', trials=300)
def motion(S):
    alt = S.r.choice([0., 340., 550., 1200., 35786., S.r.uniform(100, 40000)])
    S.draws['alt'] = alt
    mm = su.satellite_mean_motion(alt * u.km)
    a = (alt * u.km + const.R_earth)
    S.ensure('revolutions per day obey the third law', abs(((mm.to(1 / u.s) * 2 * np.pi) ** 2 * a ** 3 / const.GM_earth).to_value(u.dimensionless_unscaled) - 1) < 1e-9)
    S.ensure('higher is slower', su.satellite_mean_motion((alt + 1) * u.km) < mm)
    S.ensure('same in other units', abs((su.satellite_mean_motion((alt * 1000) * u.m) / mm).to_value(u.dimensionless_unscaled) - 1) < 1e-9)


@contract('C15', 'constellation', K + 'create_constellation', bounded=TEXT, trials=60)
def constellation(S):
    r = S.r
    k = r.randint(1, 4)
    alts, incs = np.array([r.uniform(300, 2000) for _ in range(k)]), np.array([r.uniform(1, 179) for _ in range(k)])
    npl, spp = np.array([r.randint(1, 6) for _ in range(k)]), np.array([r.choice([1, 1, 2, 3, 7]) for _ in range(k)])
    seed = r.randint(0, 99)
    S.draws.update(alts=alts.tolist(), incs=incs.tolist(), npl=npl.tolist(), spp=spp.tolist(), seed=seed)
    go = lambda: su.create_constellation(alts * u.km, incs * u.deg, npl, spp, epoch=24001.25, name='nm', seed=seed)  # noqa
    out = go()
    S.ensure('one satellite for each place in each plane', len(out) == int((npl * spp).sum()))
    S.ensure('same constellation again', go() == out)
    nrs = [x.split('\n')[1][2:7] for x in out]
    S.ensure('different catalogue numbers', len(set(nrs)) == len(nrs))
    S.ensure('names carry the catalogue number', [x.split('\n')[0] for x in out] == ['nm %d' % int(x) for x in nrs])
    at = 0
    for a, i, n, s in zip(alts, incs, npl, spp):
        grp = [x.split('\n')[2] for x in out[at:at + n * s]]
        full = out[at:at + n * s]
        at += n * s
        mm = su.satellite_mean_motion(a * u.km).to_value(1 / u.day)
        raan, ma = [float(x[17:25]) for x in grp], [float(x[43:51]) for x in grp]
        for t, x, y in zip(full, raan, ma):
            layout(S, t, int(t.split('\n')[1][2:7]), 24001.25, i, x, y, mm)
        if s > 1:
            planes = {}
            for x, y in zip(raan, ma):
                planes.setdefault(x, []).append(y)
            S.ensure('planes are evenly spread', np.allclose(sorted(planes), np.arange(n) * 360. / n, atol=1e-3))
            S.ensure('satellites are evenly spread in each plane', all(len(v) == s and np.allclose(np.diff(sorted(v)), 360. / s, atol=1e-3) for v in planes.values()))
        else:
            S.ensure('single satellites have angles in a circle', all(0 <= x <= 360 for x in raan + ma))


@contract('C15', 'named constellations', [K + 'starlink_tles_v1', K + 'starlink_tles_v2', K + 'oneweb_tles'], bounded='three fixed constellations', trials=1)
def named(S):
    for f, alt, inc, n, s in ((su.starlink_tles_v1, [550, 540, 570, 560, 560], [53, 53.2, 70, 97.6, 97.6], [72, 72, 36, 6, 4], [22, 22, 20, 58, 43]),
                              (su.starlink_tles_v2, [340, 345, 350, 360, 525, 530, 535, 604, 614], [53, 46, 38, 96.9, 53, 43, 33, 148, 115.7],
                               [48, 48, 48, 30, 28, 28, 28, 12, 18], [110, 110, 110, 120, 120, 120, 120, 12, 18]),
                              (su.oneweb_tles, [1200] * 3, [87.9, 40, 55], [49, 72, 72], [36, 32, 32])):
        out = f()
        S.ensure('number of satellites', len(out) == sum(a * b for a, b in zip(n, s)))
        at = 0
        for a, i, k, m in zip(alt, inc, n, s):
            S.ensure('inclination of each shell', all(abs(float(x.split('\n')[2][8:16]) - i) < 1e-3 for x in out[at:at + k * m]))
            mm = su.satellite_mean_motion(a * u.km).to_value(1 / u.day)
            S.ensure('motion of each shell', all(abs(float(x.split('\n')[2][52:63]) - mm) < 1e-6 for x in out[at:at + k * m]))
            at += k * m
        for t in out[::97]:
            S.ensure('well formed', all(len(x) == 69 and x[68] == str(digit(x)) for x in t.split('\n')[1:]))


# ---- what is seen: a stand-in for the propagator gives each satellite a known track

class Ang:
    def __init__(self, x):
        self.radians, self.degrees = x, np.degrees(x)


class Seen:
    def __init__(self, sat, t):
        self.sat, self.t = sat, t

    def is_sunlit(self, eph):
        return np.asarray(self.sat.lit(self.t))

    def __sub__(self, other):
        return self

    def altaz(self):
        return Ang(np.asarray(self.sat.alt(self.t))), Ang(np.asarray(self.sat.az(self.t))), None

    def radec(self):
        return Ang(np.asarray(self.sat.ra(self.t))), Ang(np.asarray(self.sat.dec(self.t))), None


class Sat:
    def __init__(self, ra0, dec0, vra, vdec, alt0, valt, lit0, t0):
        self.p = (ra0, dec0, vra, vdec, alt0, valt)
        self.lit0, self.t0 = lit0, t0
        self.until = np.inf

    def at(self, t):
        return Seen(self, np.asarray(t))

    def ra(self, t):
        return (self.p[0] + self.p[2] * (t - self.t0)) % (2 * np.pi)

    def dec(self, t):
        return self.p[1] + self.p[3] * (t - self.t0)

    def alt(self, t):
        return self.p[4] + self.p[5] * (t - self.t0)

    def az(self, t):
        return self.ra(t) / 2 + .1

    def lit(self, t):
        return (np.asarray(t) < self.until) == bool(self.lit0)


class Clock:
    def ut1_jd(self, jd):
        return np.asarray(jd) - 2400000.5


class Site:
    def at(self, t):
        return None


def sky(S, n, alt_limit, t0, near=None):
    r = S.r
    c = S.obj(su.Constellation)
    c.alt_limit_rad, c.fov_radius_rad = np.radians(alt_limit), np.radians(1.75)
    c.eph, c.ts, c.observatory_site = None, Clock(), Site()
    c.sat_list = []
    for _ in range(n):
        ra, dec = (r.uniform(0, 6.28), r.uniform(-1., .5)) if near is None else (near[0] + r.uniform(-.1, .1), near[1] + r.uniform(-.06, .06))
        v = r.choice([300, 300, 100])
        c.sat_list.append(Sat(ra, dec, r.uniform(-1, 1) * v, r.uniform(-1, 1) * v, r.uniform(-.3, 1.2), r.uniform(-300, 300), r.random() < .7, t0))
        if r.random() < .3:
            c.sat_list[-1].until = t0 + r.choice([.0003, .0006])     # enters or leaves the shadow of the earth
    S.draws.update(sats=[(s.p, s.lit0, s.until) for s in c.sat_list], alt_limit=alt_limit)
    return c


class GList(SArr):
    """a list that has grown to n entries"""

    def append(self, v):
        n = self.dom.n
        b = v.t if isinstance(v, SV) else NANC if v != v else z3.RealVal(v)
        old = self.body
        new = SArr(SDom(n + 1), z3.If(IV == n, b, old), self.kind)
        self.dom, self.body = new.dom, new.body


class Star:
    def __init__(self, S, w, k):
        self.S, self.w, self.k = S, w, k

    def at(self, t):
        self.S.ensure('at the time asked for', self.S.eq(t, self.w['jd']))
        return StarAt(self)


class StarAt:
    def __init__(self, star):
        self.star = star

    def of(self, nm):
        k = self.star.k
        x = self.star.w[nm]
        return x.get(k) if isinstance(x, SArr) else x[k]

    def is_sunlit(self, eph):
        return self.of('lit')

    def __sub__(self, other):
        self.star.S.ensure('seen from the site at the same time', self.star.S.eq(other, self.star.w['jd']))
        return self

    def altaz(self):
        return types.SimpleNamespace(radians=self.of('alt')), types.SimpleNamespace(radians=self.of('az')), None


class Passes(LoopSpec):
    """after k satellites the three lists hold, for each of the first k, whether it is lit and where it is seen (nan if dark)"""
    heap = ('altitudes_rad', 'azimuth_rad', 'illum')
    dead = ('current_sat', 'illum', 'topo', 'alt', 'az', 'dist')

    def want(self, S, k):
        w = S.spec_state
        lit = w['lit'].body
        d = SDom(k.t)
        return {'illum': GList(d, lit, 'b'), 'altitudes_rad': GList(d, z3.If(lit, w['alt'].body, NANC), 'r'),
                'azimuth_rad': GList(d, z3.If(lit, w['az'].body, NANC), 'r')}

    def havoc(self, S, k, v, it):
        for nm, x in self.want(S, k).items():
            setattr(S.spec_state['c'], nm, x)
        return {}

    def inv(self, S, k, v, it):
        out = []
        for nm, x in self.want(S, k).items():
            got = getattr(S.spec_state['c'], nm, None)
            if not isinstance(got, GList) and got != []:
                raise Unsupported('%s is not kept as a growing list' % nm)
            out.append((nm, k == 0 if isinstance(got, list) else S.eq(got, x)))
        return out


@contract('C15', 'visible satellites, any number of them', [K + 'Constellation.update_mjd'],
          loops=loops('rubin_sim.satellite_constellations.sat_utils', {'Constellation.update_mjd': Passes}),
          assumes=['the propagator gives the position and illumination of each satellite at the time it is asked for'])
def visible_any(S):
    n = S.int('n', 1)
    lit, alt, az = S.arr('lit', n, 'b'), S.arr('alt', n, lo=-2, hi=2), S.arr('az', n, lo=0, hi=7)
    lim = S.real('limit', near=[0, .35], gen=lambda r: r.choice([0., .5, -.5, float(alt[0])]))
    mjd = S.real('mjd', 59000, 63000)
    w = dict(lit=lit, alt=alt, az=az, jd=mjd + 2400000.5)
    c = S.obj(su.Constellation, alt_limit_rad=lim, eph=None, ts=types.SimpleNamespace(ut1_jd=lambda jd: jd), observatory_site=types.SimpleNamespace(at=lambda t: t))
    if S.symbolic:
        c.sat_list = SEnum(n.t, lambda k: Star(S, w, k))
    else:
        c.sat_list = [Star(S, w, k) for k in range(int(n))]
    w['c'] = c
    S.spec_state = w
    c.update_mjd(mjd)
    S.ensure('one entry for each satellite', S.and_(S.size(c.altitudes_rad) == n, S.size(c.azimuth_rad) == n, S.size(c.illum) == n))
    S.ensure('lit or not', S.eq(c.illum, lit))
    for nm, got, x in (('altitude', c.altitudes_rad, alt), ('azimuth', c.azimuth_rad, az)):
        S.forall('%s of each lit satellite' % nm, n, lambda k: S.implies(lit[k], S.eq(got[k], x[k])))
        S.forall('no %s for the others' % nm, n, lambda k: S.or_(lit[k], SV(got[k].t == NANC) if S.symbolic else np.isnan(got[k])))
    seen = (alt >= lim) & lit
    S.ensure('as many as are lit and at or above the limit', S.size(c.visible) == S.count(seen))
    S.forall('only those', S.size(c.visible), lambda k: seen[c.visible[k]])
    S.forall2('in ascending order, each once', S.size(c.visible), lambda i, j: c.visible[i] < c.visible[j])


@contract('C15', 'visible satellites', [K + 'Constellation.update_mjd'], bounded='stand-in for the propagator with known tracks', trials=400)
def visible(S):
    n, lim, t = S.r.randint(1, 8), S.r.choice([0., 20., 40.]), 60000.25
    c = sky(S, n, lim, t)
    for tt in (t, t + .001):
        c.update_mjd(tt)
        alt = [float(s.alt(tt)) for s in c.sat_list]
        S.ensure('illuminated and above the limit, all of them', c.visible.tolist() == [i for i in range(n) if c.sat_list[i].lit(tt) and alt[i] >= np.radians(lim)])
        S.ensure('altitude of each illuminated satellite', all((abs(c.altitudes_rad[i] - alt[i]) < 1e-6) if c.sat_list[i].lit(tt) else np.isnan(c.altitudes_rad[i]) for i in range(n)))
        S.ensure('azimuth of each illuminated satellite', all((abs(c.azimuth_rad[i] - c.sat_list[i].az(tt)) < 1e-6) if c.sat_list[i].lit(tt) else np.isnan(c.azimuth_rad[i]) for i in range(n)))
        S.ensure('one entry for each satellite', len(c.altitudes_rad) == len(c.azimuth_rad) == len(c.illum) == n)


@contract('C15', 'tracks of every satellite at every time', [K + 'Constellation.paths_array'], bounded='stand-in for the propagator with known tracks', trials=300)
def paths(S):
    n, t = S.r.randint(1, 5), 60000.25
    c = sky(S, n, 20., t)
    mj = t + np.array([S.r.uniform(0, .003) for _ in range(S.r.randint(1, 4))])
    ra, dec, alt, lit = c.paths_array(mj)
    S.ensure('a row for each satellite, a column for each time', all(x.shape == (n, len(mj)) for x in (ra, dec, alt, lit)))
    for i, s in enumerate(c.sat_list):
        S.ensure('track of the satellite of that row', np.allclose(ra[i], s.ra(mj), atol=1e-5) and np.allclose(dec[i], s.dec(mj), atol=1e-5) and np.allclose(alt[i], s.alt(mj), atol=1e-5) and bool((lit[i] == s.lit(mj)).all()))


def chord(x, y, rad):
    """length of the polyline inside the circle"""
    out = 0.
    for x0, y0, x1, y1 in zip(x, y, x[1:], y[1:]):
        dx, dy = x1 - x0, y1 - y0
        a, b, c = dx * dx + dy * dy, x0 * dx + y0 * dy, x0 * x0 + y0 * y0 - rad * rad
        if a == 0 or b * b - a * c <= 0:
            continue
        q = math.sqrt(b * b - a * c)
        lo, hi = max(0, (-b - q) / a), min(1, (-b + q) / a)
        out += max(0, hi - lo) * math.sqrt(a)
    return out


def project(ra, dec, ra0, dec0):
    c = np.sin(dec0) * np.sin(dec) + np.cos(dec0) * np.cos(dec) * np.cos(ra - ra0)
    return np.cos(dec) * np.sin(ra - ra0) / c, (np.cos(dec0) * np.sin(dec) - np.sin(dec0) * np.cos(dec) * np.cos(ra - ra0)) / c


@contract('C15', 'streak length', K + '_streak_length', bounded='polygon intersection, checked against exact chords', trials=4000)
def streak(S):
    r = S.r
    ra0, dec0, rad = r.choice([0., 1., 6.27]), r.uniform(-1.2, .5), r.choice([.01, .0305, .05])
    k = r.randint(2, 8)
    a, b, va, vb = r.uniform(-.08, .08), r.uniform(-.08, .08), r.uniform(-.05, .05), r.uniform(-.05, .05)
    dec = np.clip(dec0 + b + vb * np.arange(k), -1.5, 1.5)
    ra = (ra0 + a + va * np.arange(k)) % (2 * np.pi)
    S.draws.update(ra=ra.tolist(), dec=dec.tolist(), ra0=ra0, dec0=dec0, rad=rad)
    got = su._streak_length(ra, dec, ra0, dec0, rad)
    lo, hi = (chord(*project(ra, dec, ra0, dec0), f * rad) for f in (.998, 1.))          # a polygon of 64 sides stands for the circle
    S.ensure('length of the track inside the field', lo - 1e-9 <= got <= hi + 1e-9)
    S.ensure('not negative', got >= 0)


@contract('C15', 'streaks of visits', [K + 'Constellation.check_pointings', K + '_streak_length'], bounded='stand-in for the propagator with known tracks', trials=1500)
def pointings(S):
    r = S.r
    t, lim = 60000.25, S.r.choice([0., 20.])
    nv = r.randint(1, 4)
    ra, dec = np.array([r.uniform(0, 360) for _ in range(nv)]), np.array([r.uniform(-60, 20) for _ in range(nv)])
    mj = t + np.array([r.uniform(0, .0005) for _ in range(nv)])
    c = sky(S, r.randint(1, 6), lim, t, near=(math.radians(ra[0]), math.radians(dec[0])))
    vt, fov = r.choice([15., 30.]), r.choice([1.75, 1.])
    if r.random() < .3:
        vt = np.array([r.choice([15., 30.]) for _ in range(nv)])
    S.draws.update(ra=ra.tolist(), dec=dec.tolist(), mjd=mj.tolist(), vt=str(vt), fov=fov)
    ln, ns = c.check_pointings(ra, dec, mj, vt, fov_radius=fov)
    S.ensure('one answer for each visit', len(ln) == len(ns) == nv)
    vts = np.broadcast_to(vt, nv) / 86400.
    for i in range(nv):
        lo, hi, cnt, low = 0., 0., 0, 0
        for s in c.sat_list:
            up = max(s.alt(mj[i]), s.alt(mj[i] + vts[i])) > np.radians(lim)
            if not (up and (s.lit(mj[i]) or s.lit(mj[i] + vts[i]))):
                continue
            tt = np.linspace(mj[i], mj[i] + vts[i], 60)
            x, y = project(s.ra(tt), s.dec(tt), math.radians(ra[i]), math.radians(dec[i]))
            ok = np.cos(s.dec(tt)) * np.cos(s.ra(tt) - math.radians(ra[i])) > 0
            w1, w2 = [chord(x, y, math.radians(fov) * f) if ok.all() and np.hypot(x, y).min() < .15 else 0. for f in (.99, 1.01)]
            lo, hi, cnt, low = lo + w1, hi + w2, cnt + (w1 > 0), low + (w2 > 0)
        S.ensure('number of satellites crossing the field', cnt <= ns[i] <= low)
        S.ensure('total length of their streaks, in degrees', math.degrees(lo) * .995 <= ln[i] <= math.degrees(hi) * 1.005)
    S.ensure('a visit has a length exactly when it has a streak', bool(((ln > 0) == (ns > 0)).all()))
