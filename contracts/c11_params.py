"""C11: instrument parameters hold exactly what was asked for and never change."""
import math
import numpy as np
from pyver.api import contract
import rubin_sim.phot_utils.photometric_parameters as pp
import rubin_sim.phot_utils.physical_parameters as ph

P = 'rubin_sim.phot_utils.photometric_parameters:'
NAMES = ['exptime', 'nexp', 'effarea', 'gain', 'readnoise', 'darkcurrent', 'othernoise', 'platescale', 'sigma_sys']
DEF = dict(exptime=15.0, nexp=2, effarea=math.pi * (6.423 / 2.0 * 100) ** 2, gain=2.3, readnoise=8.8, darkcurrent=0.2, othernoise=0.0, platescale=0.2)
SYS = dict(u=0.0075, g=0.005, r=0.005, i=0.005, z=0.0075, y=0.0075, any=0.005)


def default(name, band):
    return SYS[band] if name == 'sigma_sys' else DEF[name]


def same(S, a, b):
    return a == b if a is None or isinstance(a, str) else S.eq(a, b, rtol=0, atol=0)


@contract('C11', 'given values and defaults', [P + 'PhotometricParameters.__init__', P + 'make_dict'], budget=200, max_paths=5000)
def given(S):
    """every subset of the nine quantities is a separate path, and the given values are arbitrary (zero included)"""
    band = S.choice('band', [None, 'u', 'g', 'r', 'i', 'z', 'y', 'any'])
    sub = S.int('subset', 0, 2 ** 9 - 1) if not S.symbolic else None
    kw = {}
    for k, n in enumerate(NAMES):
        v = S.real(n)
        if (S.bool('has_' + n) if S.symbolic else (sub >> k) & 1):
            kw[n] = v
    q = pp.PhotometricParameters(bandpass=band, **kw)
    for n in NAMES:
        if n in kw:
            S.ensure('%s is the value given' % n, S.eq(getattr(q, n), kw[n], rtol=0, atol=0))
        else:
            S.ensure('%s is the default of the band' % n, S.eq(getattr(q, n), default(n, band or 'any'), rtol=1e-12))
    S.ensure('the band is reported', q.bandpass == band)


@contract('C11', 'unknown bands', [P + 'PhotometricParameters.__init__'], max_paths=20000, budget=200)
def unknown(S):
    band = S.choice('band', ['x', 'U', 'w', ''])
    miss = S.choice('miss', list(range(10)))
    kw = {n: S.real(n) for k, n in enumerate(NAMES) if k != miss}
    try:
        q = pp.PhotometricParameters(bandpass=band, **kw)
    except RuntimeError:
        q = None
    S.ensure('accepted only with every quantity given', (q is not None) == (miss == 9))
    if q is not None:
        for n in NAMES:
            S.ensure('%s is the value given' % n, S.eq(getattr(q, n), kw[n], rtol=0, atol=0))


@contract('C11', 'cannot be changed', [P + 'PhotometricParameters.' + n for n in NAMES + ['bandpass']], max_paths=20000, budget=200)
def frozen(S):
    band = S.choice('band', [None, 'u', 'y'])
    given_ = S.choice('given', [NAMES, [], NAMES[:4], NAMES[4:], NAMES[::2]])
    kw = {n: S.real(n) for n in given_}
    q = pp.PhotometricParameters(bandpass=band, **kw)
    before = {n: getattr(q, n) for n in NAMES + ['bandpass']}
    n = S.choice('which', NAMES + ['bandpass'])
    try:
        setattr(q, n, 7.0)
        refused = False
    except Exception:
        refused = True
    S.ensure('setting %s is refused' % n, refused)
    S.ensure('and nothing changed', S.and_(*[same(S, getattr(q, m), before[m]) for m in before]))
    r = pp.PhotometricParameters(bandpass=band, **kw)
    S.ensure('sets made later are not affected by earlier ones', S.and_(*[same(S, getattr(r, m), before[m]) for m in before]))
    other = pp.PhotometricParameters()
    S.ensure('nor are the defaults', S.and_(*[S.eq(getattr(other, m), default(m, 'any')) for m in NAMES]))


@contract('C11', 'physical constants', ['rubin_sim.phot_utils.physical_parameters:PhysicalParameters.__init__'])
def phys(S):
    q = ph.PhysicalParameters()
    vals = dict(lightspeed=299792458.0, planck=6.626068e-27, nm2m=1e-9, ergsetc2jansky=1e23)
    n = S.choice('which', sorted(vals))
    try:
        setattr(q, n, 1.0)
        refused = False
    except Exception:
        refused = True
    S.ensure('setting %s is refused' % n, refused)
    S.ensure('values', S.and_(*[S.eq(getattr(q, m), v) for m, v in vals.items()]))


@contract('C11', 'dust coefficients', [P + 'DustValues.__init__'], bounded='spectra are resampled', trials=25)
def dustv(S):
    from rubin_sim.phot_utils.sed import Sed
    from rubin_sim.phot_utils.bandpass import Bandpass
    rv = S.choice('rv', [3.1, 4.0])
    ebv = S.choice('ebv', [1.0, 0.5])
    bands = {}
    for k, nm in enumerate(['a', 'b'][:S.int('nb', 1, 2)]):
        w = 400.0 + 100 * k + np.arange(40)
        bands[nm] = Bandpass(wavelen=w, sb=S.arr('t' + nm, 40, lo=0.125, hi=1))
    d = pp.DustValues(r_v=rv, bandpass_dict=bands, ref_ebv=ebv)
    S.ensure('one coefficient per band', set(d.ax1) == set(bands) and d.r_x == d.ax1 and d.ref_ebv == ebv)
    for nm, b in bands.items():
        s = Sed()
        s.set_flat_sed(wavelen_min=b.wavelen.min(), wavelen_max=b.wavelen.max(), wavelen_step=1.0)
        m = s.calc_mag(b)
        a, bb = s.setup_ccm_ab()
        s.flambda = s.flambda * 10 ** (-0.4 * (a + bb / rv) * rv * ebv)
        s.fnu = None
        S.ensure('extinction of a flat source in the band', abs(d.ax1[nm] - (s.calc_mag(b) - m)) < 1e-9)
