"""C08: derived visit geometry and depth columns match their definitions."""
import datetime
import math
import numpy as np
from pyver.api import contract
import rubin_sim.maf.stackers.general_stackers as gs
import rubin_sim.maf.stackers.date_stackers as dst
import rubin_sim.maf.stackers.coord_stackers as cs
import rubin_sim.maf.stackers.teff_stacker as tf
import rubin_sim.maf.stackers.sdss_stackers as sd
import rubin_sim.maf.stackers.n_follow_stacker as nf
import rubin_sim.maf.stackers.m5_optimal_stacker as mo

G = 'rubin_sim.maf.stackers.general_stackers:'
BANDS = ['u', 'g', 'r', 'i', 'z', 'y']
RUN = ['rubin_sim.maf.stackers.base_stacker:BaseStacker.run']


def rad(S, x, deg):
    return S.fn('radians', x) if deg else x


@contract('C08', 'hour angle', [G + 'HourAngleStacker._run'] + RUN)
def ha(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    turn = 360 if deg else 2 * S.pi
    lst = S.arr('lst', n, lo=0, hi=turn, hi_open=True, gen=None if S.symbolic else (lambda r: r.choice([0, .25, .5, .75, 7 / 8., 1 / 16.]) * float(turn)))
    ra = S.arr('ra', n, lo=0, hi=turn, hi_open=True, gen=None if S.symbolic else (lambda r: r.choice([0, .25, .5, .75, 7 / 8., 1 / 16.]) * float(turn)))
    ds = S.table(observationStartLST=lst, fieldRA=ra)
    r = gs.HourAngleStacker(degrees=deg).run(ds)['HA']
    S.ensure('one value per visit', S.eq(S.size(r), n))
    tol = 0 if S.symbolic else 1e-9

    def one(k):
        d = (lst[k] - ra[k]) / turn * 24
        return S.and_(r[k] >= -12 - tol, r[k] <= 12 + tol, S.or_(S.eq(r[k], d), S.eq(r[k], d + 24), S.eq(r[k], d - 24)))
    S.forall('difference of sidereal time and right ascension, wrapped to within 12 hours', n, one)


@contract('C08', 'zenith distance', [G + 'ZenithDistStacker._run'] + RUN)
def zd(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    alt = S.arr('alt', n)
    r = gs.ZenithDistStacker(degrees=deg).run(S.table(altitude=alt))['zenithDistance']
    S.forall('quarter turn minus altitude', n, lambda k: S.eq(r[k], (90 if deg else S.pi / 2) - alt[k]))


@contract('C08', 'normalised airmass', [G + 'NormAirmassStacker._run'] + RUN, safety=False)
def na(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    lat = S.real('lat', -80, 80)
    dec = S.arr('dec', n, lo=-90 if deg else -1.5, hi=90 if deg else 1.5)
    x = S.arr('x', n, lo=1)
    r = gs.NormAirmassStacker(degrees=deg, telescope_lat=lat).run(S.table(airmass=x, fieldDec=dec))['normairmass']
    S.forall('airmass relative to the airmass at transit', n, lambda k: S.eq(
        r[k], S.div(x[k], S.div(1, S.fn('cos', abs(rad(S, dec[k], deg) - S.fn('radians', lat)))))))


def pa_spec(S, lst, ra, dec, lat):
    h = S.fn('sin', lst - ra), S.fn('cos', lst - ra)
    return h


@contract('C08', 'parallactic angle', [G + 'ParallacticAngleStacker._run'] + RUN)
def pa(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    turn = 360 if deg else 6
    lst = S.arr('lst', n, lo=0, hi=turn)
    ra = S.arr('ra', n, lo=0, hi=turn)
    dec = S.arr('dec', n, lo=-80 if deg else -1.375, hi=30 if deg else .5)
    st = gs.ParallacticAngleStacker(degrees=deg)
    out = st.run(S.table(observationStartLST=lst, fieldRA=ra, fieldDec=dec, observationStartMJD=lst))
    q, h = out['PA'], out['HA']
    lat = math.radians(st.site.latitude)

    def one(k):
        a = h[k] * S.pi / 12
        d = rad(S, dec[k], deg)
        v = S.fn('arctan2', S.fn('sin', a), S.fn('cos', d) * math.tan(st.site.latitude_rad) - S.fn('sin', d) * S.fn('cos', a))
        return S.eq(q[k], S.fn('degrees', v) if deg else v)
    S.forall('angle between the pole and the zenith at the field', n, one)
    r = gs.HourAngleStacker(degrees=deg).run(S.table(observationStartLST=lst, fieldRA=ra))['HA']
    S.forall('with the hour angle of the same visit', n, lambda k: S.eq(h[k], r[k]))
    S.ensure('latitude of the site', S.eq(lat, st.site.latitude_rad))


@contract('C08', 'differential refraction', [G + 'DcrStacker._run'] + RUN, safety=False)
def dcr(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    turn = 360 if deg else 6
    cols = dict(observationStartLST=S.arr('lst', n, lo=0, hi=turn), fieldRA=S.arr('ra', n, lo=0, hi=turn),
                fieldDec=S.arr('dec', n, lo=-80 if deg else -1.375, hi=30 if deg else .5), altitude=S.arr('alt', n, lo=20 if deg else .375, hi=88 if deg else 1.5),
                band=S.arr('band', n, kind='s', pool=['g', 'r']), observationStartMJD=S.arr('mjd', n))
    mags = dict(g=S.real('g', 0, 1), r=S.real('r', 0, 1))
    out = gs.DcrStacker(degrees=deg, dcr_magnitudes=mags).run(S.table(**cols))
    z = gs.ZenithDistStacker(degrees=deg).run(S.table(**cols))['zenithDistance']
    p = gs.ParallacticAngleStacker(degrees=deg).run(S.table(**cols))['PA']

    def one(k, f, col):
        m = S.ite(cols['band'][k] == 'g', mags['g'], mags['r'])
        return S.eq(out[col][k], m * (S.fn('tan', rad(S, z[k], deg)) * S.fn(f, rad(S, p[k], deg))))
    S.forall('along right ascension', n, lambda k: one(k, 'sin', 'ra_dcr_amp'))
    S.forall('along declination', n, lambda k: one(k, 'cos', 'dec_dcr_amp'))


@contract('C08', 'differential refraction, second moments', [G + 'Dcr2Stacker._run'] + RUN, safety=False, budget=180)
def dcr2(S):
    n = S.int('n', 1)
    deg = S.bool('deg')
    own = S.bool('own')
    turn = 360 if deg else 6
    cols = dict(observationStartLST=S.arr('lst', n, lo=0, hi=turn), fieldRA=S.arr('ra', n, lo=0, hi=turn),
                fieldDec=S.arr('dec', n, lo=-80 if deg else -1.375, hi=30 if deg else .5), altitude=S.arr('alt', n, lo=20 if deg else .375, hi=88 if deg else 1.5),
                band=S.arr('band', n, kind='s', pool=['g', 'r']), observationStartMJD=S.arr('mjd', n))
    mags = dict(g=S.real('g', 0, 1), r=S.real('r', 0, 1))
    kw = dict(zstacker=gs.ZenithDistStacker(degrees=deg), pastacker=gs.ParallacticAngleStacker(degrees=deg)) if own else {}
    out = gs.Dcr2Stacker(degrees=deg, dcr2_magnitudes=mags, **kw).run(S.table(**cols))
    z = gs.ZenithDistStacker(degrees=deg).run(S.table(**cols))['zenithDistance']
    p = gs.ParallacticAngleStacker(degrees=deg).run(S.table(**cols))['PA']

    def one(k, col):
        m = S.ite(cols['band'][k] == 'g', mags['g'], mags['r'])
        t = S.fn('tan', rad(S, z[k], deg))
        s, c = S.fn('sin', rad(S, p[k], deg)), S.fn('cos', rad(S, p[k], deg))
        f = dict(dcr_var=1, ra_dcr_var=s * s, dec_dcr_var=c * c, ra_dec_dcr_cov=s * c)[col]
        return S.eq(out[col][k], m * t * t * f)
    for col in ['dcr_var', 'ra_dcr_var', 'dec_dcr_var', 'ra_dec_dcr_cov']:
        S.forall(col, n, lambda k: one(k, col))


@contract('C08', 'night of a visit', ['rubin_sim.maf.stackers.date_stackers:DayObsMJDStacker._run'] + RUN)
def day_mjd(S):
    n = S.int('n', 1)
    t = S.arr('t', n, lo=59000, hi=62000)
    r = dst.DayObsMJDStacker().run(S.table(observationStartMJD=t))['day_obs_mjd']
    S.forall('starts at noon', n, lambda k: S.and_(r[k] + 0.5 <= t[k], t[k] < r[k] + 1.5))


@contract('C08', 'calendar night of a visit', ['rubin_sim.maf.stackers.date_stackers:DayObsStacker._run', 'rubin_sim.maf.stackers.date_stackers:DayObsISOStacker._run',
                                               'rubin_sim.maf.stackers.date_stackers:ObservationStartDatetime64Stacker._run'],
          bounded='dates are converted to text by astropy', trials=300)
def day_iso(S):
    n = S.int('n', 1)
    t = S.arr('t', n, lo=59000, hi=62000)
    ds = S.table(observationStartMJD=t)
    a = dst.DayObsStacker().run(ds)['dayObs']
    b = dst.DayObsISOStacker().run(ds)['day_obs_iso8601']
    c = dst.ObservationStartDatetime64Stacker().run(ds)['observationStartDatetime64']
    for k in range(n):
        d = datetime.date(1858, 11, 17) + datetime.timedelta(days=math.floor(t[k] - 0.5))
        S.ensure('date of the noon before', str(b[k]) == d.isoformat() and int(a[k]) == int(d.strftime('%Y%m%d')))
        S.ensure('time stamp', abs((c[k] - np.datetime64('1858-11-17T00:00:00')) / np.timedelta64(1, 's') - t[k] * 86400) < 1e-3)


@contract('C08', 'overhead', [G + 'OverheadStacker._run'] + RUN)
def overhead(S):
    n = S.int('n', 1)
    limited = S.bool('limited')
    gap = S.real('gap', 0, 1000)
    t = S.arr('t', n, lo=60000, hi=60004)
    vt = S.arr('vt', n, lo=0, hi=100)
    et = S.arr('et', n, lo=0, hi=100)
    kw = dict(max_gap=gap) if limited else dict(max_gap=1e9)
    r = gs.OverheadStacker(**kw).run(S.table(observationStartMJD=t, visitTime=vt, visitExposureTime=et))['overhead']
    S.ensure('no overhead before the first visit', S.eq(r[0], math.nan))
    g = gap if limited else 1e9

    def one(k):
        ov = ((t[k] + vt[k] / 86400) - (t[k - 1] + vt[k - 1] / 86400)) * 86400 - et[k]
        if not S.symbolic and abs(ov - g * 60) < 1e-4:
            return True
        night = S.floor(t[k] - 0.5) == S.floor(t[k - 1] - 0.5)
        lim = ov <= g * 60
        return S.or_(S.and_(night, lim, S.eq(r[k], ov, atol=1e-4)), S.and_(S.or_(S.floor(t[k] - 0.5) != S.floor(t[k - 1] - 0.5), ov > g * 60), S.eq(r[k], math.nan)))
    S.forall('time between the ends of visits of the same night that is not exposure', n, one, lo=1)


@contract('C08', 'saturation depth', [G + 'SaturationStacker._run'] + RUN, safety=False)
def sat(S):
    n = S.int('n', 1)
    see, sky = S.arr('seeing', n, lo=0.5, hi=2), S.arr('sky', n, lo=10, hi=23)
    et, ne = S.arr('et', n, lo=1, hi=60), S.arr('nexp', n, lo=1, hi=2)
    x = S.arr('x', n, lo=1, hi=2)
    band = S.arr('band', n, kind='s', pool=['g', 'r'])
    zp = dict(g=S.real('zg', 26, 29), r=S.real('zr', 26, 29))
    km = dict(g=S.real('kg', 0, 1), r=S.real('kr', 0, 1))
    sat_e, pix = S.real('sat_e', 50000, 200000), S.real('pix', 0.125, 0.5)
    ds = S.table(seeingFwhmEff=see, skyBrightness=sky, visitExposureTime=et, numExposures=ne, band=band, airmass=x)
    with np.errstate(all='ignore'):
        r = gs.SaturationStacker(zeropoints=zp, km=km, saturation_e=sat_e, pixscale=pix).run(ds)['saturation_mag']

    def one(k):
        z = S.ite(band[k] == 'g', zp['g'], zp['r'])
        km_ = S.ite(band[k] == 'g', km['g'], km['r'])
        e = S.div(et[k], ne[k])
        left = sat_e - S.p10(0.4 * (z - sky[k])) * (pix * pix) * e
        if not S.symbolic and abs(left) < 1e-3:
            return True
        ok = S.cond(left > 0)
        if not ok:
            return S.or_(S.eq(left, 0), S.eq(r[k], math.nan))
        src = left * 2.0 * S.pi * (S.div(S.div(see[k], 2.354), pix)) ** 2
        return S.eq(r[k], -2.5 * S.log10(S.div(src, e)) + z - km_ * (x[k] - 1.0))
    S.forall("each visit's own saturation magnitude, undefined only when its sky saturates", n, one)


@contract('C08', 'five-sigma depth column', [G + 'FiveSigmaStacker._run'], bounded='the depth formula is in rubin_scheduler', trials=200)
def m5(S):
    from rubin_scheduler.utils import m5_flat_sed
    n = S.int('n', 1)
    see, sky, et, x = S.arr('seeing', n, lo=0.5, hi=2), S.arr('sky', n, lo=18, hi=23), S.arr('et', n, lo=1, hi=60), S.arr('x', n, lo=1, hi=2)
    band = S.arr('band', n, kind='s', pool=BANDS)
    r = gs.FiveSigmaStacker().run(S.table(airmass=x, seeingFwhmEff=see, skyBrightness=sky, band=band, visitExposureTime=et))['m5_simsUtils']
    for k in range(n):
        S.ensure("depth from the visit's own conditions", S.eq(r[k], m5_flat_sed(str(band[k]), sky[k], see[k], et[k], x[k])))


@contract('C08', 'optimal depth', ['rubin_sim.maf.stackers.m5_optimal_stacker:M5OptimalStacker._run'] + RUN, safety=False)
def m5opt(S):
    n = S.int('n', 1)
    bs = S.choice('bands', [['g', 'r'], ['i', 'u'], ['y', 'z']])
    kc = dict(u=.5, g=.21, r=.13, i=.1, z=.07, y=.18)
    sc = dict(g=-0.52611780327408397, i=-0.67898669252082422, r=-0.61378749766766827, u=-0.27840980367303503, y=-0.69635091524779691, z=-0.69652846002009128)
    x, dec = S.arr('x', n, lo=1, hi=3), S.arr('dec', n, lo=-80, hi=30)
    m5_ = S.arr('m5', n, lo=20, hi=26)
    band = S.arr('band', n, kind='s', pool=bs)
    moon, sun = S.arr('moon', n, lo=-1, hi=1), S.arr('sun', n, lo=-1, hi=1)
    st = mo.M5OptimalStacker()
    r = st.run(S.table(airmass=x, fieldDec=dec, skyBrightness=m5_, seeingFwhmEff=x, fiveSigmaDepth=m5_, filter=band, moonAlt=moon, sunAlt=sun))['m5_optimal']
    tw = math.radians(-18.0) if not S.symbolic else -S.pi / 10

    def one(k):
        kx = S.ite(band[k] == bs[0], kc[bs[0]], kc[bs[1]])
        sl = S.ite(band[k] == bs[0], sc[bs[0]], sc[bs[1]])
        best = S.div(1.0, S.fn('cos', abs(S.fn('radians', dec[k]) - st.site.latitude_rad)))
        dark = S.and_(moon[k] <= 0, sun[k] <= tw)
        d = S.ite(dark, sl * (x[k] - best), 0.0)
        return S.eq(r[k], m5_[k] - 0.5 * d - 0.15 * S.log10(S.div(best, x[k])) - kx * (best - x[k]))
    S.forall("from the visit's own band, airmass and sky", n, one)


@contract('C08', 'effective exposure time', ['rubin_sim.maf.stackers.teff_stacker:compute_teff'])
def teff1(S):
    n = S.int('n', 1)
    m5_ = S.arr('m5', n, lo=20, hi=26)
    et = S.arr('et', n, lo=1, hi=60)
    normed = S.bool('normed')
    fid = S.real('fid', 20, 26)
    base = S.real('base', 1, 60)
    r = tf.compute_teff(m5_, 'g', et, fiducial_depth=dict(g=fid), teff_base=base, normed=normed)
    S.forall('exposure time that reaches the depth under fiducial conditions', n, lambda k: S.eq(
        r[k], S.div(base * S.p10(0.8 * (m5_[k] - fid)), et[k] if normed else 1)))


@contract('C08', 'effective exposure time column', ['rubin_sim.maf.stackers.teff_stacker:TeffStacker._run', 'rubin_sim.maf.stackers.teff_stacker:compute_teff'],
          bounded='the depth table is looked up per visit in Python')
def teff(S):
    n = S.int('n', 1)
    m5_ = S.arr('m5', n, lo=20, hi=26)
    et = S.arr('et', n, lo=1, hi=60)
    band = S.arr('band', n, kind='s', pool=BANDS)
    normed = S.bool('normed')
    custom = S.bool('custom')
    fid = {b: S.real('f' + b, 20, 26) for b in BANDS} if custom else None
    base = S.real('base', 1, 60) if custom else None
    r = tf.TeffStacker(normed=normed, fiducial_depth=fid, fiducial_exptime=base).run(S.table(fiveSigmaDepth=m5_, band=band, visitExposureTime=et))['t_eff']
    ref = fid if custom else dict(u=23.7, g=24.97, r=24.52, i=24.13, z=23.56, y=22.55)
    for k in range(n):
        v = (base if custom else 30.0) * 10 ** (0.8 * (m5_[k] - ref[str(band[k])]))
        S.ensure("from the visit's own band and depth", S.eq(r[k], v / et[k] if normed else v))


@contract('C08', 'corner coordinates', ['rubin_sim.maf.stackers.sdss_stackers:SdssRADecStacker._run', 'rubin_sim.maf.stackers.coord_stackers:wrap_ra'] + RUN)
def sdss(S):
    n = S.int('n', 1)
    p = {'p%d' % k: S.arr('p%d' % k, n, lo=-360, hi=720) for k in range(1, 9)}
    out = sd.SdssRADecStacker().run(S.table(**p))
    for j in range(1, 5):
        ra, dec = out['RA%d' % j], out['Dec%d' % j]
        a, b = p['p%d' % (2 * j - 1)], p['p%d' % (2 * j)]

        def one(k):
            t = S.floor(a[k] / 360.0)
            return S.eq(ra[k], (a[k] - 360 * S.real_of(t)) * S.pi / 180)
        S.forall('right ascension of corner %d wrapped to one turn' % j, n, one)
        S.forall('declination of corner %d' % j, n, lambda k: S.eq(dec[k], S.fn('radians', b[k])))


@contract('C08', 'sky coordinates', ['rubin_sim.maf.stackers.coord_stackers:GalacticStacker._run', 'rubin_sim.maf.stackers.coord_stackers:EclipticStacker._run',
                                     'rubin_sim.maf.stackers.coord_stackers:HealpixStacker._run'],
          bounded='coordinates are transformed by astropy and healpy', trials=40, size=4)
def coords(S):
    import healpy as hp
    from astropy.coordinates import SkyCoord, get_sun
    from astropy.time import Time
    import astropy.units as u
    n = S.int('n', 1, 4)
    deg = S.bool('deg')
    sun = S.bool('sun')
    f = 1.0 if deg else math.pi / 180
    ra, dec = S.arr('ra', n, lo=0, hi=359), S.arr('dec', n, lo=-85, hi=85)
    mjd = S.arr('mjd', n, lo=60000, hi=60400)
    ds = S.table(fieldRA=ra * f, fieldDec=dec * f, observationStartMJD=mjd)
    g = cs.GalacticStacker(degrees=deg).run(ds)
    e = cs.EclipticStacker(degrees=deg, subtract_sun_lon=sun).run(ds)
    for k in range(n):
        c = SkyCoord(ra[k] * u.deg, dec[k] * u.deg)
        S.ensure('galactic coordinates of the visit', S.eq(g['gall'][k], c.galactic.l.rad, atol=1e-7) and S.eq(g['galb'][k], c.galactic.b.rad, atol=1e-7))
        q = c.geocentricmeanecliptic
        lon = q.lon.deg
        if sun:
            lon = lon - get_sun(Time(mjd[k], format='mjd')).geocentricmeanecliptic.lon.deg
        d = (e['eclipLon'][k] / f - lon) % 360
        S.ensure('ecliptic longitude of the visit', min(d, 360 - d) < 1e-5)
        S.ensure('ecliptic latitude of the visit', S.eq(e['eclipLat'][k] / f, q.lat.deg, atol=1e-5))
    nside = S.choice('nside', [1, 4, 64])
    if deg:
        h = cs.HealpixStacker(nside=nside).run(ds)
        for k in range(n):
            S.ensure('pixel of the visit', int(h['ring_healpix'][k]) == hp.ang2pix(nside, ra[k], dec[k], lonlat=True) and
                     int(h['nest_healpix'][k]) == hp.ang2pix(nside, ra[k], dec[k], lonlat=True, nest=True))


@contract('C08', 'altitude and azimuth', ['rubin_sim.maf.stackers.coord_stackers:ra_dec2_alt_az'],
          bounded='the sidereal time comes from rubin_scheduler', trials=400)
def altaz(S):
    from rubin_scheduler.utils import calc_lmst
    n = S.int('n', 1)
    ra, dec = S.arr('ra', n, lo=0, hi=6.25), S.arr('dec', n, lo=-1.5, hi=1.5)
    lat, lon = S.real('lat', -1.4, 1.4), S.real('lon', -3, 3)
    mjd = S.arr('mjd', n, lo=60000, hi=60400)
    alt, az = cs.ra_dec2_alt_az(ra, dec, lat, lon, mjd)
    alt2, _ = cs.ra_dec2_alt_az(ra, dec, lat, lon, mjd, altonly=True)
    for k in range(n):
        h = calc_lmst(mjd[k], lon) * math.pi / 12 - ra[k]
        # unit vector, x to the north, y to the east, z up
        v = (math.sin(dec[k]) * math.cos(lat) - math.cos(dec[k]) * math.sin(lat) * math.cos(h), -math.cos(dec[k]) * math.sin(h),
             math.sin(dec[k]) * math.sin(lat) + math.cos(dec[k]) * math.cos(lat) * math.cos(h))
        w = (math.cos(alt[k]) * math.cos(az[k]), math.cos(alt[k]) * math.sin(az[k]), math.sin(alt[k]))
        S.ensure('direction', max(abs(a - b) for a, b in zip(v, w)) < 1e-6)
        S.ensure('altitude alone', S.eq(alt[k], alt2[k]))


@contract('C08', 'number of follow-up observatories', ['rubin_sim.maf.stackers.n_follow_stacker:NFollowStacker._run', 'rubin_sim.maf.stackers.n_follow_stacker:find_telescopes'],
          bounded='the sidereal time comes from rubin_scheduler', trials=200, size=4)
def follow(S):
    from rubin_scheduler.utils import calc_lmst
    n = S.int('n', 1, 4)
    deg = S.bool('deg')
    f = 1.0 if deg else math.pi / 180
    ra, dec = S.arr('ra', n, lo=0, hi=359), S.arr('dec', n, lo=-85, hi=85)
    mjd = S.arr('mjd', n, lo=60000, hi=60400)
    size = S.choice('size', [3.0, 6.5, 9.5])
    lim = S.real('lim', 1.25, 3)
    steps = S.choice('steps', [[0.5], [0.5, 3.5], [1.0, 6.0, 11.0]])
    st = nf.NFollowStacker(min_size=size, airmass_limit=lim, time_steps=np.array(steps), degrees=deg)
    r = st.run(S.table(fieldRA=ra * f, fieldDec=dec * f, observationStartMJD=mjd))['nObservatories']
    for k in range(n):
        cnt, unsure = 0, 0
        for t in st.telescopes:
            S.ensure('telescopes of the requested size', t['aperture'] >= size)
            best = 1e9
            for s in steps:
                h = calc_lmst(mjd[k] + s / 24., math.radians(t['lon'])) * math.pi / 12 - math.radians(ra[k])
                d, la = math.radians(dec[k]), math.radians(t['lat'])
                sa = math.sin(d) * math.sin(la) + math.cos(d) * math.cos(la) * math.cos(h)
                if sa > 0:
                    best = min(best, 1 / sa)
            cnt += best <= lim
            unsure += abs(best - lim) < 1e-6
        S.ensure('observatories that see the field below the airmass limit at one of the times', abs(int(r[k]) - cnt) <= unsure)


@contract('C08', 'root of the note', [G + 'NoteRootStacker._run'], bounded='string functions')
def note(S):
    n = S.int('n', 1)
    t = S.arr('note', n, kind='s', pool=['DD:a, x', 'pair, 1', 'long, a, b', '', 'none'])
    r = gs.NoteRootStacker().run(S.table(scheduler_note=t))['scheduler_note_root']
    for k in range(n):
        S.ensure('text before the first comma', str(r[k]) == str(t[k]).partition(',')[0])


@contract('C08', 'parallax factor', [G + 'ParallaxFactorStacker._run', G + 'ParallaxFactorStacker._gnomonic_project_toxy'],
          bounded='positions are transformed by astropy', trials=15, size=3)
def parf(S):
    n = S.int('n', 1, 3)
    deg = S.bool('deg')
    f = 1.0 if deg else math.pi / 180
    ra, dec = S.arr('ra', n, lo=0, hi=359), S.arr('dec', n, lo=-80, hi=80)
    mjd = S.arr('mjd', n, lo=60000, hi=60400)
    out = gs.ParallaxFactorStacker(degrees=deg).run(S.table(fieldRA=ra * f, fieldDec=dec * f, observationStartMJD=mjd))
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    for k in range(n):
        e = get_body_barycentric('earth', Time(mjd[k], format='mjd')).xyz.to_value('au')
        a, d = math.radians(ra[k]), math.radians(dec[k])
        px = e[0] * math.sin(a) - e[1] * math.cos(a)
        py = e[0] * math.cos(a) * math.sin(d) + e[1] * math.sin(a) * math.sin(d) - e[2] * math.cos(d)
        S.ensure('parallax ellipse of a source at one parsec', abs(out['ra_pi_amp'][k] - px) < 2e-3 and abs(out['dec_pi_amp'][k] - py) < 2e-3)
