"""C10: depth, signal-to-noise and magnitude errors tell one consistent story."""
import math
import numpy as np
from pyver.api import contract
import rubin_sim.phot_utils.signaltonoise as sn
import rubin_sim.phot_utils.predicted_zeropoints as pz
import rubin_sim.maf.utils.astrometry_utils as au
from rubin_sim.phot_utils.sed import Sed
from rubin_sim.phot_utils.bandpass import Bandpass

N = 'rubin_sim.phot_utils.signaltonoise:'
A = 'rubin_sim.maf.utils.astrometry_utils:'
BANDS = ['u', 'g', 'r', 'i', 'z', 'y']


class Q:
    pass


class FlatSed:
    """contract of Sed for a spectrum of one shape: counts, flux and magnitude as functions of its amplitude
    (proved of the real Sed in C09: calc_adu is linear in the flux, scaling shifts the magnitude, normalising gives
    the requested magnitude, mag_from_flux and flux_from_mag are inverse)"""
    S = None
    k = None      # counts of the unit spectrum
    f = None      # its flux in the bandpass
    zp = -2.5 * math.log10(3631)

    def __init__(self, wavelen=None, flambda=None, amp=None):
        self.amp = amp if amp is not None else (flambda.amp if flambda is not None else None)
        self.wavelen = self.flambda = self

    def set_flat_sed(self):
        self.amp = 1

    def calc_adu(self, bandpass, phot_params):
        return self.amp * (bandpass.counts * phot_params.exptime * phot_params.nexp / phot_params.gain)

    def calc_mag(self, bandpass):
        return -2.5 * FlatSed.S.log10(self.amp * bandpass.flux) - self.zp

    def calc_flux_norm(self, m, bandpass):
        return FlatSed.S.p10(-0.4 * (m + self.zp)) / (self.amp * bandpass.flux)

    def multiply_flux_norm(self, c):
        self.amp = self.amp * c

    def flux_from_mag(self, m):
        return FlatSed.S.p10(-0.4 * (m + self.zp))

    def mag_from_flux(self, f):
        return -2.5 * FlatSed.S.log10(f) - self.zp

    def __getattr__(self, n):
        from pyver.sym import Unsupported
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('Sed.%s is not part of the contract used here' % n)


def spectrum(S, name, lo, hi, **kw):
    """a spectrum of flat shape and drawn amplitude"""
    amp = S.real(name, lo, hi, **kw)
    if S.symbolic:
        return FlatSed(amp=amp)
    s = Sed()
    s.set_flat_sed()
    s.multiply_flux_norm(amp)
    return s


STUB = {N + 'Sed': FlatSed}


def params(S, sys=None):
    return S.obj(Q, effarea=1.0, exptime=S.real('exptime', 1, 60), nexp=S.int('nexp', 1, 4), gain=S.real('gain', 0.5, 4), readnoise=S.real('rn', 0, 10),
                 darkcurrent=S.real('dc', 0, 1), othernoise=S.real('on', 0, 5), platescale=S.real('ps', 0.125, 0.5), sigma_sys=sys)


def band(S, tag=''):
    counts, flux = S.real('counts' + tag, 1, 1000), S.real('flux' + tag, 0.125, 8)
    if S.symbolic:
        return S.obj(Q, counts=counts, flux=flux)
    n = 3 + int(counts) % 20
    b = Bandpass(wavelen=500 + 5.0 * np.arange(n), sb=np.linspace(0.125, 1, n) * flux / 8)
    s = Sed()
    s.set_flat_sed()
    b.flux = s.calc_flux(b)
    b.counts = s.calc_adu(b, S.obj(Q, exptime=1.0, nexp=1, effarea=1.0, gain=1.0))
    return b


@contract('C10', 'effective and geometric seeing', [N + 'fwhm_eff2_fwhm_geom', N + 'fwhm_geom2_fwhm_eff'])
def seeing(S):
    n = S.int('n', 1)
    x = S.arr('x', n, lo=0, hi=5)
    a = sn.fwhm_eff2_fwhm_geom(x)
    b = sn.fwhm_geom2_fwhm_eff(a)
    c = sn.fwhm_eff2_fwhm_geom(sn.fwhm_geom2_fwhm_eff(x))
    S.forall('geometric seeing', n, lambda k: S.eq(a[k], 0.822 * x[k] + 0.052))
    S.forall('converting back', n, lambda k: S.and_(S.eq(b[k], x[k]), S.eq(c[k], x[k])))


@contract('C10', 'effective pixels and instrument noise', [N + 'calc_neff', N + 'calc_instr_noise_sq'])
def neff(S):
    q = params(S)
    x = S.real('x', 0.25, 4)
    S.ensure('pixels', S.eq(sn.calc_neff(x, q.platescale) * q.platescale * q.platescale, 2.266 * x * x))
    r = sn.calc_instr_noise_sq(q)
    S.ensure('each contribution once per exposure', S.eq(r * q.gain * q.gain, q.nexp * (q.readnoise * q.readnoise + q.darkcurrent * q.exptime + q.othernoise * q.othernoise)))


def noise_sq(S, sky, hw, q, x):
    """the stated noise model: sky and instrument, in the effective pixels"""
    n = S.div(2.266 * x * x, q.platescale * q.platescale)
    skyc = sky.calc_adu(hw, q) * q.platescale * q.platescale
    inst = S.div(q.nexp * (q.readnoise * q.readnoise + q.darkcurrent * q.exptime + q.othernoise * q.othernoise), q.gain * q.gain)
    return n * (S.div(skyc, q.gain) + inst)


@contract('C10', 'total noise', [N + 'calc_total_non_source_noise_sq', N + 'calc_neff', N + 'calc_instr_noise_sq'], stubs=STUB, assumes=['counts of a spectrum are linear in it (C09)'])
def total(S):
    FlatSed.S = S
    q, hw = params(S), band(S)
    sky = spectrum(S, 'sky', 0, 10)
    x = S.real('x', 0.25, 4)
    r = sn.calc_total_non_source_noise_sq(sky, hw, q, x)
    S.ensure('sky and instrument once each, over the effective pixels', S.eq(r, noise_sq(S, sky, hw, q, x)))


@contract('C10', 'signal to noise of a spectrum', [N + 'calc_snr_sed', N + 'calc_total_non_source_noise_sq'], stubs=STUB, assumes=['counts of a spectrum are linear in it (C09)'])
def snr_sed(S):
    FlatSed.S = S
    q, hw, tot = params(S), band(S), band(S, '2')
    sky, src = spectrum(S, 'sky', 0.125, 10), spectrum(S, 'src', 0.125, 10)
    x = S.real('x', 0.25, 4)
    r = sn.calc_snr_sed(src, tot, sky, hw, q, x)
    c = src.calc_adu(tot, q)
    S.ensure('positive', r > 0)
    S.ensure('counts over the noise of source, sky and instrument', S.eq(r * r * (S.div(c, q.gain) + noise_sq(S, sky, hw, q, x)), c * c))


@contract('C10', 'a source at the five-sigma depth has signal-to-noise five', [N + 'calc_m5', N + 'calc_snr_sed', N + 'calc_total_non_source_noise_sq'], stubs=STUB,
          assumes=['counts of a spectrum are linear in it, magnitudes shift with its scale (C09)'], safety=False)
def m5(S):
    FlatSed.S = S
    q, hw, tot = params(S), band(S), band(S, '2')
    sky = spectrum(S, 'sky', 0.125, 10)
    x = S.real('x', 0.25, 4)
    m = sn.calc_m5(sky, tot, hw, q, x)
    src = spectrum(S, 'a', 0, 100, lo_open=True)
    if S.symbolic:
        # a source of that magnitude: equal magnitudes are equal fluxes
        S.assume(S.eq(src.calc_mag(tot), m))
        S.assume(S.eq(src.amp * tot.flux, S.p10(-0.4 * (m + src.zp))))
    else:
        src.multiply_flux_norm(src.calc_flux_norm(m, tot))
    c = src.calc_adu(tot, q)
    v = noise_sq(S, sky, hw, q, x)
    S.ensure('c^2 = 25 (c / gain + noise)', S.eq(c * c, 25 * (S.div(c, q.gain) + v)))


@contract('C10', 'sky for a target depth', [N + 'calc_sky_counts_per_pixel_for_m5', N + 'scale_sky_m5', N + 'calc_neff', N + 'calc_instr_noise_sq'], stubs=STUB,
          assumes=['counts of a spectrum are linear in it, magnitudes shift with its scale (C09)'], safety=False)
def skyfor(S):
    FlatSed.S = S
    q, hw, tot = params(S), band(S), band(S, '2')
    x = S.real('x', 0.25, 4)
    m = S.real('m', 20, 25)
    r = sn.calc_sky_counts_per_pixel_for_m5(m, tot, q, x)
    c = S.div(S.p10(-0.4 * (m + FlatSed.zp)), tot.flux) * tot.counts * q.exptime * S.real_of(q.nexp) / q.gain
    inst = S.div(q.nexp * (q.readnoise * q.readnoise + q.darkcurrent * q.exptime + q.othernoise * q.othernoise), q.gain * q.gain)
    n = S.div(2.266 * x * x, q.platescale * q.platescale)
    S.ensure('with that sky the source has signal-to-noise five', S.eq(c * c, 25 * (S.div(c, q.gain) + n * (S.div(r, q.gain) + inst)),
                                                                             atol=0 if S.symbolic else 1e-9 * n * (inst + 1)))


@contract('C10', 'scaled sky', [N + 'scale_sky_m5', N + 'calc_sky_counts_per_pixel_for_m5'], stubs=STUB, assumes=['counts of a spectrum are linear in it (C09)'],
          safety=False, bounded='copies the arrays of the sky spectrum', trials=100)
def scaled(S):
    FlatSed.S = S
    w = np.arange(400., 600., 5.)
    q = params(S)
    q.effarea = 320000.0
    t = S.arr('t', len(w), lo=0.125, hi=1)
    b = Bandpass(wavelen=w, sb=t)
    sky = Sed(wavelen=w, flambda=np.full(len(w), 1e-17))
    keep = sky.flambda.copy()
    x = S.real('x', 0.5, 2)
    m = S.choice('m', [22.0, 24.0, 20.5])
    target = sn.calc_sky_counts_per_pixel_for_m5(m, b, q, x)
    if target <= 0:
        S.assume(False)
    out = sn.scale_sky_m5(m, sky, b, b, q, x)
    S.ensure('the sky counts per pixel are those required', S.eq(out.calc_adu(b, q) * q.platescale ** 2, target, rtol=1e-8))
    S.ensure('so the depth is the target', abs(sn.calc_m5(out, b, b, q, x) - m) < 1e-8)
    S.unchanged('sky', sky.flambda, keep)


@contract('C10', 'end to end with real spectra', [N + 'calc_m5', N + 'calc_snr_sed', N + 'calc_gamma', N + 'calc_snr_m5', N + 'calc_mag_error_sed'], bounded='real spectra are resampled', trials=25)
def e2e(S):
    w = np.arange(400., 600., 5.)
    q = params(S)
    q.effarea = 320000.0
    b = Bandpass(wavelen=w, sb=S.arr('t', len(w), lo=0.125, hi=1))
    hw = Bandpass(wavelen=w, sb=S.arr('h', len(w), lo=0.125, hi=1))
    sky = Sed(wavelen=w, flambda=np.full(len(w), S.choice('lev', [1e-17, 1e-16])))
    x = S.real('x', 0.5, 2)
    m = sn.calc_m5(sky, b, hw, q, x)
    src = Sed()
    src.set_flat_sed()
    src.multiply_flux_norm(src.calc_flux_norm(m, b))
    s5 = sn.calc_snr_sed(src, b, sky, hw, q, x)
    S.ensure('signal-to-noise five at the depth', abs(s5 - 5) < 1e-8)
    S.ensure('verbose changes nothing', abs(sn.calc_snr_sed(src, b, sky, hw, q, x) - s5) < 1e-12)
    g = sn.calc_gamma(b, m, q)
    S.ensure('and from the depth alone', abs(sn.calc_snr_m5(m, b, m, q)[0] - 5) < 1e-8)
    src.multiply_flux_norm(4.0)
    a, g2 = sn.calc_snr_m5(m - 2.5 * math.log10(4.0), b, m, q)
    S.ensure('both descriptions agree for other sources', abs(sn.calc_snr_sed(src, b, sky, hw, q, x) - a) < 1e-6 and g == g2)


@contract('C10', 'noise parameter', [N + 'calc_gamma'], stubs=STUB, assumes=['counts of a spectrum are linear in it (C09)'], safety=False)
def gamma(S):
    FlatSed.S = S
    q, b = params(S), band(S)
    m = S.real('m', 20, 25)
    r = sn.calc_gamma(b, m, q)
    c = S.div(S.p10(-0.4 * (m + FlatSed.zp)), b.flux) * b.counts * q.exptime * S.real_of(q.nexp) / q.gain
    S.ensure('from the counts of a source at the depth', S.eq((0.04 - r) * c * q.gain, 1))


@contract('C10', 'signal to noise from the depth', [N + 'calc_snr_m5'], stubs=STUB, safety=False)
def snr_m5(S):
    FlatSed.S = S
    n = S.int('n', 1)
    m = S.arr('m', n, lo=15, hi=30)
    d = S.real('m5', 20, 26)
    g = S.real('g', 0, 0.04)
    q = params(S)
    r, gg = sn.calc_snr_m5(m, None, d, q, gamma=g)
    five, _ = sn.calc_snr_m5(d, None, d, q, gamma=g)
    S.ensure('given parameter is used', S.eq(gg, g))
    S.ensure('five at the depth', S.eq(five, 5))

    def one(k):
        x = S.div(S.p10(-0.4 * (d + FlatSed.zp)), S.p10(-0.4 * (m[k] + FlatSed.zp)))
        return S.and_(r[k] > 0, S.eq(r[k] * r[k] * ((0.04 - g) * x + g * x * x), 1))
    S.forall('stated noise', n, one)


@contract('C10', 'signal-to-noise falls with magnitude', [N + 'calc_snr_m5'], stubs=STUB, safety=False)
def mono(S):
    FlatSed.S = S
    a, b = S.real('a', 15, 30), S.real('b', 15, 30)
    S.assume(a < b)
    d = S.real('m5', 20, 26)
    g = S.real('g', 0, 0.04)
    q = params(S)
    ra, rb = sn.calc_snr_m5(a, None, d, q, gamma=g)[0], sn.calc_snr_m5(b, None, d, q, gamma=g)[0]
    S.ensure('brighter is better', ra > rb)


@contract('C10', 'magnitude error', [N + 'mag_error_from_snr', N + 'calc_mag_error_m5'], stubs=STUB, safety=False)
def magerr(S):
    FlatSed.S = S
    n = S.int('n', 1)
    x = S.arr('x', n, lo=0, lo_open=True, hi=1000)
    e = sn.mag_error_from_snr(x)
    S.forall('stated formula', n, lambda k: S.eq(e[k], 2.5 * S.log10(1 + S.div(1, x[k]))))
    m, d, g = S.real('m', 15, 30), S.real('m5', 20, 26), S.real('g', 0, 0.04)
    with_sys = S.bool('sys')
    sys = S.real('s', 0, 0.25) if with_sys else None
    q = params(S, sys)
    r, _ = sn.calc_mag_error_m5(m, None, d, q, gamma=g)
    base = sn.mag_error_from_snr(sn.calc_snr_m5(m, None, d, q, gamma=g)[0])
    if with_sys:
        S.ensure('systematic part added in quadrature', S.and_(r >= 0, S.eq(r * r, base * base + sys * sys)))
        S.ensure('never smaller than the systematic part', r >= sys - (0 if S.symbolic else 1e-12))
        S.ensure('never smaller than the random part', r >= base - (0 if S.symbolic else 1e-12))
    else:
        S.ensure('random part alone', S.eq(r, base))


@contract('C10', 'magnitude error of a spectrum', [N + 'calc_mag_error_sed', N + 'calc_snr_sed'], stubs=STUB, safety=False)
def magerr_sed(S):
    FlatSed.S = S
    with_sys = S.bool('sys')
    sys = S.real('s', 0, 0.25) if with_sys else None
    q, hw, tot = params(S, sys), band(S), band(S, '2')
    sky, src = spectrum(S, 'sky', 0.125, 10), spectrum(S, 'src', 0.125, 10)
    x = S.real('x', 0.25, 4)
    r = sn.calc_mag_error_sed(src, tot, sky, hw, q, x)
    base = sn.mag_error_from_snr(sn.calc_snr_sed(src, tot, sky, hw, q, x))
    if with_sys:
        S.ensure('systematic part added in quadrature', S.and_(r >= 0, S.eq(r * r, base * base + sys * sys)))
    else:
        S.ensure('random part alone', S.eq(r, base))


@contract('C10', 'astrometric error', [N + 'calc_astrometric_error'], safety=False)
def astrom(S):
    n = S.int('n', 1)
    m = S.arr('m', n, lo=15, hi=30)
    d, f, nv, fl = S.real('m5', 20, 26), S.real('f', 0.5, 2), S.int('nv', 1, 100), S.real('fl', 0, 50)
    r = sn.calc_astrometric_error(m, d, fwhm_geom=f, nvisit=nv, systematic_floor=fl)

    def one(k):
        x = S.p10(0.4 * (m[k] - d))
        rand = S.div(f * f * 1000000 * ((0.04 - 0.039) * x + 0.039 * x * x), S.real_of(nv))
        return S.and_(r[k] >= 0, S.eq(r[k] * r[k], fl * fl + rand))
    S.forall('random error over the visits, floor added in quadrature', n, one)
    S.forall('never below the floor', n, lambda k: r[k] >= fl - (0 if S.symbolic else 1e-9))


@contract('C10', 'signal to noise of a visit', [A + 'm52snr'], safety=False)
def m52(S):
    n = S.int('n', 1)
    m, d = S.arr('m', n, lo=15, hi=30), S.arr('d', n, lo=20, hi=26)
    g = S.real('g', 0, 0.04)
    plain = S.bool('plain')
    r = au.m52snr(m, d, gamma=None if plain else g)

    def one(k):
        if plain:
            return S.eq(r[k], 5 * S.p10(-0.4 * (m[k] - d[k])))
        x = S.p10(0.4 * (m[k] - d[k]))
        return S.and_(r[k] > 0, S.eq(r[k] * r[k] * ((0.04 - g) * x + g * x * x), 1))
    S.forall('stated formula', n, one)
    x = S.real('x', 15, 30)
    S.ensure('five at the depth', S.eq(au.m52snr(x, x, gamma=None if plain else g), 5))
    a, b, c = S.real('a', 15, 30), S.real('b', 15, 30), S.real('c', 20, 26)
    S.assume(a < b)
    S.ensure('falls with magnitude', au.m52snr(a, c, gamma=None if plain else g) > au.m52snr(b, c, gamma=None if plain else g))


@contract('C10', 'astrometric precision', [A + 'astrom_precision'], safety=False)
def prec(S):
    n = S.int('n', 1)
    f, s = S.arr('f', n, lo=0.125, hi=4), S.arr('s', n, lo=0.5, hi=1000)
    fl = S.real('fl', 0, 1)
    r = au.astrom_precision(f, s, systematic_floor=fl)
    S.forall('seeing over signal-to-noise, floor added in quadrature', n, lambda k: S.and_(r[k] >= 0, S.eq(r[k] * r[k], S.div(f[k], s[k]) ** 2 + fl * fl)))
    S.forall('never below either part', n, lambda k: S.and_(r[k] >= fl - (0 if S.symbolic else 1e-12), r[k] >= S.div(f[k], s[k]) - (0 if S.symbolic else 1e-12)))


PZ = 'rubin_sim.phot_utils.predicted_zeropoints:'


@contract('C10', 'predicted zeropoints', [PZ + f for f in ('predicted_zeropoint', 'predicted_zeropoint_hardware', 'predicted_zeropoint_itl', 'predicted_zeropoint_hardware_itl',
                                                          'predicted_zeropoint_e2v', 'predicted_zeropoint_hardware_e2v')], safety=False)
def zps(S):
    b = S.choice('b', BANDS)
    x, y, t = S.real('x', 1, 3), S.real('y', 1, 3), S.real('t', 0.5, 100)
    S.assume(x < y)
    for nm, sky, hw in (('combined', pz.predicted_zeropoint, pz.predicted_zeropoint_hardware), ('ITL', pz.predicted_zeropoint_itl, pz.predicted_zeropoint_hardware_itl),
                        ('E2V', pz.predicted_zeropoint_e2v, pz.predicted_zeropoint_hardware_e2v)):
        S.ensure(nm + ': more airmass, less light', sky(b, x, t) > sky(b, y, t))
        S.ensure(nm + ': the atmosphere only takes light', sky(b, x, t) < hw(b, t))
        S.ensure(nm + ': linear in airmass', S.eq((sky(b, x, t) - sky(b, 1, t)) * (y - 1), (sky(b, y, t) - sky(b, 1, t)) * (x - 1), atol=1e-9))
        S.ensure(nm + ': exposure time', S.and_(S.eq(sky(b, x, t) - sky(b, x), 2.5 * S.log10(t), atol=1e-9), S.eq(hw(b, t) - hw(b), 2.5 * S.log10(t), atol=1e-9)))
