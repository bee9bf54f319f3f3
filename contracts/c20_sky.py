"""C20: a sky-position slice holds exactly the visits that cover its point."""
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
import z3
from pyver.api import contract
from pyver import npmodel
from pyver.sym import SV, SArr, lift, num, to_real, R
import rubin_scheduler.utils as simsUtils
import rubin_sim.maf.maps as maps
import rubin_sim.maf.maps.ebv_3d_hp as e3
import rubin_sim.maf.slicers as slicers
import rubin_sim.maf.slicers.base_spatial_slicer as bs
import rubin_sim.maf.slicers.user_points_slicer as up

BS = 'rubin_sim.maf.slicers.base_spatial_slicer:BaseSpatialSlicer.'
UP = 'rubin_sim.maf.slicers.user_points_slicer:UserPointsSlicer.'
HS = 'rubin_sim.maf.slicers.healpix_slicer:HealpixSlicer.'
SUB = 'rubin_sim.maf.slicers.healpix_subset_slicer:'
BASE = 'rubin_sim.maf.slicers.base_slicer:BaseSlicer.'
MP = 'rubin_sim.maf.maps.'


# ---- assumed contracts of the libraries (symbolic run only)
def _num(*v):
    return [to_real(num(lift(x))) for x in v]


_PAIR = z3.Function('uf!pair', R, R, R)
_X, _Y, _Z = (z3.Function('uf!xyz' + c, R, R, R) for c in 'xyz')
_CHORD = z3.Function('uf!chord', R, R)
_BALL = z3.Function('uf!ball', *([R] * 5 + [z3.BoolSort()]))


def pair(a, b):
    return npmodel.bmap(lambda x, y: SV(_PAIR(*_num(x, y))), a, b)


def xyz(ra, dec):
    """rubin_scheduler: the unit vector of a position in radians"""
    return tuple(npmodel.bmap(lambda a, b, f=f: SV(f(*_num(a, b))), ra, dec) for f in (_X, _Y, _Z))


def chord(radius=1.75):
    """rubin_scheduler: the chord of an angle in degrees"""
    return SV(_CHORD(*_num(radius)))


def ball(p, q, r):
    """an arbitrary predicate "these two unit vectors are within this chord" """
    return npmodel.emap(lambda v: SV(_BALL(*_num(v, q[0], q[1], q[2], r))), pair(pair(p[0], p[1]), p[2]))


class Tree:
    """scipy's KD-tree over unit vectors: the ball query returns each point within the distance once"""

    def __init__(self, ra, dec, leafsize=100, scale=None):
        self.p = xyz(ra, dec)

    def query_ball_point(self, q, r):
        return npmodel.m_where(ball(self.p, q, r))[0]


_CAM = z3.Function('uf!camera', *([R] * 5 + [z3.BoolSort()]))


class Camera:
    """rubin_scheduler's footprint: the indices of the pointings whose rotated footprint holds the position, an arbitrary
    predicate of position, pointing, rotation (in radians) and radius"""

    def __init__(self, units='degrees', footprint_file=None, max_radius=1.94):
        assert units == 'radians'
        self.r = max_radius

    def inside(self, ora, odec, p, rot):
        return SV(_CAM(*_num(ora, odec, p, rot, self.r)))

    def __call__(self, ora, odec, ra, dec, rot):
        return npmodel.m_where(npmodel.bmap(lambda a, c: self.inside(ora, odec, a, c), pair(ra, dec), rot))[0]


class Unit:
    rad = 1
    deg = 1


_GL, _GB = z3.Function('uf!gall', R, R, R), z3.Function('uf!galb', R, R, R)


class Angle:
    def __init__(self, rad):
        self.rad = rad


class Coord:
    """astropy: galactic coordinates, an arbitrary function of the position"""

    def __init__(self, ra, dec):
        self.l = Angle(npmodel.bmap(lambda a, b: SV(_GL(*_num(a, b))), ra, dec))
        self.b = Angle(npmodel.bmap(lambda a, b: SV(_GB(*_num(a, b))), ra, dec))
        self.galactic = self

    def transform_to(self, frame):
        return self


_RAD = z3.Function('uf!radians', R, R)


def radians(x):
    """numpy: an arbitrary function of each angle (the same wherever the slicers use it)"""
    return npmodel.emap(lambda v: SV(_RAD(*_num(v))), x)


class Numpy:
    def __getattr__(self, name):
        return radians if name in ('radians', 'deg2rad') else getattr(npmodel.NP, name)


LIBS = {'rubin_sim.maf.slicers.user_points_slicer:np': Numpy(), 'rubin_sim.maf.slicers.base_spatial_slicer:np': Numpy(),
        'rubin_scheduler.utils:_build_tree': Tree, 'rubin_scheduler.utils:_xyz_from_ra_dec': xyz,
        'rubin_scheduler.utils:xyz_angular_radius': chord, 'rubin_scheduler.utils:LsstCameraFootprint': Camera,
        'rubin_sim.maf.slicers.user_points_slicer:SkyCoord': Coord, 'rubin_sim.maf.slicers.user_points_slicer:u': Unit}
LIBA = ['scipy KD-tree: a ball query returns each point within the distance exactly once',
        'rubin_scheduler: unit vectors, chord of an angle, camera footprint predicate',
        'astropy: galactic coordinates of a position']


def camera_file(S, d):
    """a camera footprint with gaps, in scratch"""
    m = 21
    img = np.array([[S.r.random() < .7 for _ in range(m)] for _ in range(m)])
    f = os.path.join(d, 'fov.npz')
    np.savez(f, image=img, x=np.linspace(-2, 2, m))
    return f


def separation(ra1, d1, ra2, d2):
    """great-circle separation (radians), accurate at all distances"""
    a = [math.cos(d1) * math.cos(ra1), math.cos(d1) * math.sin(ra1), math.sin(d1)]
    b = [math.cos(d2) * math.cos(ra2), math.cos(d2) * math.sin(ra2), math.sin(d2)]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(a, b)))


def expected(pra, pdec, ra, dec, rot, radius, cam):
    """(surely in, surely out) of the visits given in radians"""
    inn, out = set(), set()
    for j in range(len(ra)):
        s = separation(pra, pdec, ra[j], dec[j])
        r = math.radians(radius)
        if abs(s - r) < 1e-9:
            continue
        ok = s < r and (cam is None or len(cam(pra, pdec, ra[j:j + 1], dec[j:j + 1], rot[j:j + 1])) == 1)
        (inn if ok else out).add(j)
    return inn, out


def exact(S, tag, idxs, inn, out):
    idxs = [int(i) for i in idxs]
    S.ensure(tag + ': no visit twice', len(set(idxs)) == len(idxs))
    S.ensure(tag + ': every visit that covers the point', inn <= set(idxs))
    S.ensure(tag + ': only visits that cover the point', not (out & set(idxs)))


@contract('C20', 'the slice of a given point', [BS + 'setup_slicer', BS + '_set_rad', BS + '_build_tree', BS + '_setupLSSTCamera', UP + '__init__', BASE + '__getitem__'],
          also=['rubin_sim.maf.slicers.base_slicer', 'rubin_sim.maf.slicers.base_spatial_slicer'], stubs=LIBS, assumes=LIBA)
def points(S):
    n, m = S.int('n', 1), S.int('m', 1)
    use_cam, deg = S.bool('use_cam'), S.bool('deg')
    radius = S.real('radius', .1, 60)
    toward = radians if S.symbolic else np.radians
    back = toward if deg else (lambda x: x)
    if S.symbolic:
        pra, pdec = S.arr('pra', m), S.arr('pdec', m)
        ra, dec, rot = S.arr('ra', n), S.arr('dec', n), S.arr('rot', n)
        extra = S.arr('extra', m)
        d = cf = None
    else:
        r = S.r
        pra, pdec, ra, dec, rot, extra = sky_draws(S, n, m, radius, deg)
        d = tempfile.mkdtemp(prefix='c20')
        cf = camera_file(S, d) if use_cam else None
    try:
        t = S.table(lon=ra, lat=dec, rot=rot, other=rot)
        old = S.snapshot(t)
        sl = up.UserPointsSlicer(pra, pdec, lon_col='lon', lat_col='lat', rot_sky_pos_col_name='rot', lat_lon_deg=deg,
                                 radius=radius, use_camera=use_cam, camera_radius=1.5, camera_footprint_file=cf, verbose=False,
                                 leafsize=100 if S.symbolic else S.choice('leafsize', [1, 2, 100]))
        sl.slice_points['mapval'] = extra
        sl.slice_points['label'] = 'all'
        sl.setup_slicer(t)
        k = S.int('k', 0, m - 1)
        s = sl[k]
        idxs = s['idxs']
        sp = s['slice_point']
        S.ensure('one slice per point', S.eq(sl.nslice, m))
        S.ensure('slice identifier', S.eq(sp['sid'], k))
        S.ensure('position of the point', S.and_(S.eq(sp['ra'], toward(pra[k])), S.eq(sp['dec'], toward(pdec[k]))))
        S.ensure('its own map value', S.eq(sp['mapval'], extra[k]))
        S.ensure('shared values are passed whole', sp['label'] == 'all')
        S.unchanged('visits not modified', t, old)
        q = toward(pra[k]), toward(pdec[k])
        if S.symbolic:
            S.ensure('its own galactic coordinates', S.and_(S.eq(sp['gall'], SV(_GL(*_num(*q)))), S.eq(sp['galb'], SV(_GB(*_num(*q))))))
            cov = ball(xyz(back(ra), back(dec)), xyz(*q), chord(radius))
            if use_cam:
                cov = cov & npmodel.bmap(lambda a, c: Camera('radians', None, 1.5).inside(q[0], q[1], a, c), pair(back(ra), back(dec)), back(rot))
            S.forall('only visits that cover the point', S.size(idxs), lambda i: S.and_(idxs[i] >= 0, idxs[i] < n, cov.get(num(idxs[i]))))
            S.forall2('no visit twice', S.size(idxs), lambda i, j: idxs[i] != idxs[j])
            S.ensure('every visit that covers the point', S.eq(S.size(idxs), S.count(cov)))
        else:
            cam = simsUtils.LsstCameraFootprint(units='radians', footprint_file=cf, max_radius=1.5) if use_cam else None
            galactic(S, sp)
            exact(S, 'slice', idxs, *expected(q[0], q[1], back(ra), back(dec), back(rot), radius, cam))
    finally:
        if d:
            shutil.rmtree(d)


def galactic(S, sp):
    """the galactic coordinates of a slice point (pole at 192.85948, 27.12825; position angle 122.93192 degrees)"""
    a, d = sp['ra'] - math.radians(192.85948), sp['dec']
    p = math.radians(27.12825)
    x = math.sin(p) * math.cos(d) * math.cos(a) - math.cos(p) * math.sin(d)
    y = math.cos(d) * math.sin(a)
    z = math.sin(p) * math.sin(d) + math.cos(p) * math.cos(d) * math.cos(a)
    l, b = math.radians(122.93192) - math.atan2(y, -x), sp['galb']
    cb = math.cos(b)
    S.ensure('galactic latitude', abs(math.sin(b) - z) < 1e-5)
    S.ensure('galactic longitude', abs(math.cos(b) * math.cos(sp['gall']) - cb * math.cos(l)) < 1e-5 and abs(math.cos(b) * math.sin(sp['gall']) - cb * math.sin(l)) < 1e-5)


def sky_draws(S, n, m, radius, deg):
    """points and visits near one another, around the zero of longitude and the poles too (points in degrees)"""
    r = S.r
    pra = np.array([r.choice([0., 359.99, 180., r.uniform(0, 360)]) for _ in range(m)])
    pdec = np.array([r.choice([89.9, -90., 0., r.uniform(-90, 90)]) for _ in range(m)])
    ra, dec = np.zeros(n), np.zeros(n)
    for j in range(n):
        i = r.randrange(m)
        if r.random() < .3:
            ra[j], dec[j] = r.uniform(0, 360), math.degrees(math.asin(r.uniform(-1, 1)))
            continue
        s = r.choice([radius, 1.5, 1.0]) * r.choice([0, .5, .99, 1.01, r.uniform(0, 1.5)])
        pa = r.uniform(0, 2 * math.pi)
        a, d, s = math.radians(pra[i]), math.radians(pdec[i]), math.radians(s)
        sd = math.sin(d) * math.cos(s) + math.cos(d) * math.sin(s) * math.cos(pa)
        dec[j] = math.degrees(math.asin(max(-1, min(1, sd))))
        ra[j] = (pra[i] + math.degrees(math.atan2(math.sin(pa) * math.sin(s) * math.cos(d), math.cos(s) - math.sin(d) * sd))) % 360
    rot = np.array([r.uniform(0, 360) for _ in range(n)])
    extra = np.array([r.uniform(0, 5) for _ in range(m)])
    S.draws.update(points=[pra.tolist(), pdec.tolist()], visits=[ra.tolist(), dec.tolist(), rot.tolist()])
    if not deg:
        ra, dec, rot = np.radians(ra), np.radians(dec), np.radians(rot)
    return pra, pdec, ra, dec, rot, extra


@contract('C20', 'the slices of sky pixels', [BS + 'setup_slicer', HS + '__init__', HS + '_pix2radec', SUB + 'HealpixSubsetSlicer.setup_slicer', SUB + 'HealpixSubsetSlicer.__init__', SUB + 'HealpixSubsetSlicer.__next__', SUB + 'make_circle_subset_slicer'],
          bounded='sky pixels and KD-tree of compiled libraries, checked against great-circle separations', trials=150)
def pixels(S):
    import healpy as hp
    r = S.r
    nside = S.choice('nside', [1, 2, 4, 8])
    use_cam, deg = S.bool('use_cam'), S.bool('deg')
    sub = S.choice('sub', ['all', 'subset', 'circle'])
    radius = r.choice([2.45, r.uniform(.5, 60)])
    npix = hp.nside2npix(nside)
    th, ph = hp.pix2ang(nside, np.arange(npix))
    pra, pdec = np.degrees(ph), 90 - np.degrees(th)
    want = np.arange(npix)
    if sub == 'subset':
        want = np.array(sorted(r.sample(range(npix), r.randint(1, npix))))
    cen, rc = (r.uniform(0, 360), r.uniform(-90, 90)), r.uniform(20, 170)
    if sub == 'circle':
        want = np.array([i for i in range(npix) if separation(math.radians(cen[0]), math.radians(cen[1]), ph[i], math.pi / 2 - th[i]) <= math.radians(rc)], int)
        deg, use_cam, radius = True, False, 2.45
    d = tempfile.mkdtemp(prefix='c20')
    try:
        cf = camera_file(S, d) if use_cam else None
        kw = dict(lon_col='lon', lat_col='lat', rot_sky_pos_col_name='rot', lat_lon_deg=deg, radius=radius, use_camera=use_cam,
                  camera_radius=1.5, camera_footprint_file=cf, verbose=False, use_cache=r.random() < .5, leafsize=S.choice('leafsize', [1, 2, 100]))
        if sub == 'all':
            sl = slicers.HealpixSlicer(nside=nside, **kw)
        elif sub == 'subset':
            sl = slicers.HealpixSubsetSlicer(nside, want, **kw)
        else:
            sl = slicers.make_circle_subset_slicer(cen[0], cen[1], radius=rc, nside=nside)[0]
            S.ensure('the pixels of the circle', np.array_equal(np.sort(sl.hpid), want))
            sl = slicers.HealpixSubsetSlicer(nside, sl.hpid, **kw)
        S.ensure('one slice per pixel', sl.nslice == npix and np.array_equal(sl.slice_points['sid'], np.arange(npix)))
        cam = simsUtils.LsstCameraFootprint(units='radians', footprint_file=cf, max_radius=1.5) if use_cam else None
        vals = np.array([r.random() for _ in range(npix)])

        class Vals:
            def run(self, sp):
                sp['v'] = vals
                sp['table'] = np.zeros((npix, 3)) + vals[:, None]
                sp['bins'] = np.arange(npix + 5)
                return sp
        for rep in range(2):
            n = r.randint(1, 8)
            _, _, ra, dec, rot, _ = sky_draws(S, n, 1, radius, deg)
            for j in range(n):
                if r.random() < .7:
                    i = r.randrange(npix)
                    ra[j], dec[j] = pra[i], min(90, max(-90, pdec[i] + r.uniform(-1, 1) * radius))
                    if not deg:
                        ra[j], dec[j] = math.radians(ra[j]), math.radians(dec[j])
            t = np.zeros(n, dtype=[('lon', float), ('lat', float), ('rot', float)])
            t['lon'], t['lat'], t['rot'] = ra, dec, rot
            S.draws['table %d' % rep] = t.tolist()
            keep = t.copy()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sl.setup_slicer(t, maps=[Vals()])
            S.ensure('visits not modified', np.array_equal(t, keep))
            g = math.pi / 180 if deg else 1
            seen = []
            for s in sl:
                i = int(s['slice_point']['sid'])
                seen.append(i)
                exact(S, 'slice', s['idxs'], *expected(ph[i], math.pi / 2 - th[i], ra * g, dec * g, rot * g, radius, cam))
                sp = s['slice_point']
                S.ensure('its own position and map values', abs(sp['ra'] - ph[i]) < 1e-12 and abs(sp['dec'] - (math.pi / 2 - th[i])) < 1e-12
                         and sp['v'] == vals[i] and np.array_equal(sp['table'], [vals[i]] * 3) and len(sp['bins']) == npix + 5 and sp['nside'] == nside)
                galactic(S, sp)
                e = sl[i]
                S.ensure('asked for by number', set(map(int, e['idxs'])) == set(map(int, s['idxs'])) and e['slice_point']['sid'] == i)
            S.ensure('the pixels asked for, in order', seen == [int(i) for i in sl.hpid] if sub != 'all' else seen == list(range(npix)))
            if sub != 'all':
                for i in set(range(npix)) - set(seen):
                    S.ensure('a pixel outside the subset holds no visit', len(sl[i]['idxs']) == 0)
    finally:
        shutil.rmtree(d)


@contract('C20', 'the slice without position holds every visit', ['rubin_sim.maf.slicers.uni_slicer:UniSlicer.setup_slicer', 'rubin_sim.maf.slicers.uni_slicer:UniSlicer.__init__'])
def uni(S):
    n = S.int('n', 0)
    t = S.table(a=S.arr('a', n), b=S.arr('b', n))
    v = S.arr('v', 1)
    w = S.arr('w', 5)

    class Vals:
        def run(self, sp):
            sp['v'], sp['w'], sp['label'] = v, w, 7
            return sp
    sl = slicers.UniSlicer(verbose=False)
    sl.setup_slicer(t, maps=[Vals()])
    s = sl[0]
    S.ensure('map values', S.and_(S.eq(s['slice_point']['v'], v[0]), S.eq(s['slice_point']['w'], w), S.eq(s['slice_point']['label'], 7)))
    S.ensure('one slice', S.eq(sl.nslice, 1))
    S.ensure('size', S.eq(S.size(t['a'][s['idxs']]), n))
    x = t['a'][s['idxs']]
    S.forall('every visit', n, lambda k: S.eq(x[k], t['a'][k]))
    S.ensure('slice identifier', S.eq(s['slice_point']['sid'], 0))


@contract('C20', 'a slice point carries the sky map at its own position', [MP + 'dust_map:DustMap.run', MP + 'ebv_hp:eb_vhp', MP + 'gal_coords_map:GalCoordsMap.run', MP + 'stellar_density_map:StellarDensityMap.run', 'rubin_sim.maf.utils.maf_utils:radec2pix'],
          bounded='map files and sky pixels of compiled libraries', trials=120)
def skymaps(S):
    import healpy as hp
    r = S.r
    d = tempfile.mkdtemp(prefix='c20')
    try:
        nmap = S.choice('nmap', [2, 4])
        files = {}
        for ns in (2, 4):
            files[ns] = np.array([r.uniform(0, 2) for _ in range(hp.nside2npix(ns))])
            np.savez(os.path.join(d, 'dust_nside_%i.npz' % ns), ebvMap=files[ns])
        nl = 9
        stars = np.array([[r.uniform(0, 9) for _ in range(nl)] for _ in range(hp.nside2npix(nmap))])
        bins = np.arange(nl + 1.)
        np.savez(os.path.join(d, 'starDensity_r_nside_64.npz'), starDensity=stars, bins=bins)
        np.savez(os.path.join(d, 'starDensity_g_wdstars_nside_64.npz'), starDensity=stars + 1, bins=bins)
        wd = S.bool('wd')
        m = r.randint(1, 6)
        pra, pdec, *_ = sky_draws(S, 0, m, 2., True)
        grid = S.bool('grid')
        ns = S.choice('ns', [2, 4])
        kw = dict(use_camera=False, verbose=False)
        sl = slicers.HealpixSlicer(nside=ns, use_cache=False, **kw) if grid else slicers.UserPointsSlicer(pra, pdec, **kw)
        ra, dec = (np.array(sl.slice_points[k]) for k in ('ra', 'dec'))
        t = np.zeros(1, dtype=[(k, float) for k in ('fieldRA', 'fieldDec', 'rotSkyPos')])
        interp = S.bool('interp')
        dm = maps.DustMap(nside=nmap, map_path=d, interp=interp)
        ml = [dm, maps.StellarDensityMap(map_dir=d, **(dict(startype='wdstars', filtername='g') if wd else {})), maps.GalCoordsMap()]
        r.shuffle(ml)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sl.setup_slicer(t, maps=ml)
        from astropy.coordinates import SkyCoord
        c = SkyCoord(ra * 180 / math.pi, dec * 180 / math.pi, unit='deg').galactic
        key = 'g' if wd else 'r'
        for i in range(len(ra)):
            sp = sl[i]['slice_point']
            if grid:
                e = files[ns][i]
            elif interp:
                e = hp.get_interp_val(files[nmap], math.pi / 2 - dec[i], ra[i])
            else:
                e = files[nmap][hp.ang2pix(nmap, math.pi / 2 - dec[i], ra[i])]
            S.ensure('dust', abs(sp['ebv'] - e) < 1e-12)
            S.ensure('stars', np.array_equal(sp['starLumFunc_' + key], stars[hp.ang2pix(nmap, math.pi / 2 - dec[i], ra[i])] + wd) and np.array_equal(sp['starMapBins_' + key], bins))
            S.ensure('galactic coordinates', abs(math.sin(sp['gall'] - c[i].l.rad)) * math.cos(sp['galb']) < 1e-9 and math.cos(sp['gall'] - c[i].l.rad) * math.cos(sp['galb']) > -1e-9 and abs(sp['galb'] - c[i].b.rad) < 1e-9)
    finally:
        shutil.rmtree(d)


@contract('C20', 'the dust map with distance', [MP + 'dust_map_3d:DustMap3D.run', MP + 'dust_map_3d:DustMap3D.distance_at_dmag', MP + 'ebv_3d_hp:ebv_3d_hp', MP + 'ebv_3d_hp:get_x_at_nearest_y'],
          bounded='map files and sky pixels of compiled libraries', trials=60)
def dust3d(S):
    import healpy as hp
    from astropy.io import fits
    r = S.r
    d = tempfile.mkdtemp(prefix='c20')
    try:
        data = {}
        for name, ns, nested in (('a.fits', 2, False), ('b.fits', 2, True), ('c.fits', 4, False)):
            npix, nd = hp.nside2npix(ns), 6
            dist = np.sort(np.array([[r.uniform(50, 9000) for _ in range(nd)] for _ in range(npix)]), axis=1)
            ebv = np.cumsum(np.array([[r.uniform(0, .4) for _ in range(nd)] for _ in range(npix)]), axis=1)
            h = fits.PrimaryHDU()
            h.header['NSIDE'], h.header['NESTED'] = ns, nested
            sd, se = dist, ebv
            if nested:
                sd, se = (np.column_stack([hp.reorder(a[:, i], 'ring', 'nest') for i in range(nd)]) for a in (dist, ebv))
            fits.HDUList([h, fits.ImageHDU(sd), fits.ImageHDU(se)]).writeto(os.path.join(d, name))
            data[name] = (ns, dist, ebv)
        for rep in range(3):
            name = r.choice(sorted(data))
            ns, dist, ebv = data[name]
            pra, pdec, *_ = sky_draws(S, 0, r.randint(2, 5), 2., True)
            grid, interp = r.random() < .5, r.random() < .5
            S.draws['rep %d' % rep] = [name, grid, interp]
            kw = dict(use_camera=False, verbose=False)
            sl = slicers.HealpixSlicer(nside=ns, use_cache=False, **kw) if grid else slicers.UserPointsSlicer(pra, pdec, **kw)
            ra, dec = (np.array(sl.slice_points[k]) for k in ('ra', 'dec'))
            pc, dmag = r.choice([3000, r.uniform(100, 8000)]), r.choice([15.2, r.uniform(8, 20)])
            m = maps.DustMap3D(nside=r.choice([2, 4]) if not grid else ns, map_file=os.path.join(d, name), interp=interp, filtername='g', dist_pc=pc, d_mag=dmag, r_x={'g': r.uniform(2, 4), 'r': 1.})
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sp = m.run(dict(sl.slice_points))
            rx = m.r_x['g']
            for i in range(len(ra)):
                if interp and not grid:
                    ds, es = ([float(hp.get_interp_val(a[:, k], math.pi / 2 - dec[i], ra[i])) for k in range(6)] for a in (dist, ebv))
                else:
                    p = i if grid else hp.ang2pix(ns, math.pi / 2 - dec[i], ra[i])
                    ds, es = dist[p], ebv[p]
                S.ensure('distances and reddening of the point', np.allclose(sp['ebv3d_dists'][i], ds, rtol=1e-9) and np.allclose(sp['ebv3d_ebvs'][i], es, rtol=1e-9))
                near = min(range(6), key=lambda k: abs(ds[k] - pc))
                S.ensure('reddening at the distance', abs(sp['ebv3d_ebv_at_%.1f' % pc][i] - es[near]) < 1e-9)
                mm = [5 * math.log10(x) - 5 + rx * e for x, e in zip(ds, es)]
                near = min(range(6), key=lambda k: abs(mm[k] - dmag))
                far = 10 ** (0.2 * (dmag - rx * es[-1]) + 1)
                one = m.distance_at_dmag(dmag, np.array(ds), np.array(es), filtername=r.choice(['g', None]))
                S.ensure('distance at the magnitude difference of one point', abs(one - max(far, ds[near])) < 1e-6 * max(far, ds[near]))
                mr = [5 * math.log10(x) - 5 + e for x, e in zip(ds, es)]
                nr = min(range(6), key=lambda k: abs(mr[k] - dmag))
                fr = 10 ** (0.2 * (dmag - es[-1]) + 1)
                S.ensure('distance in another band', abs(m.distance_at_dmag(dmag, np.array(ds), np.array(es), filtername='r') - max(fr, ds[nr])) < 1e-6 * max(fr, ds[nr]))
                S.ensure('distance at the magnitude difference', abs(sp['ebv3d_dist_at_%.1f' % dmag][i] - max(far, ds[near])) < 1e-6 * max(far, ds[near]))
    finally:
        shutil.rmtree(d)
