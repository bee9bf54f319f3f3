"""C09: spectrum and magnitude conversions are mutually consistent."""
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
from pyver.api import contract
import rubin_sim.phot_utils.sed as sed_m
import rubin_sim.phot_utils.bandpass as bp_m
import rubin_sim.phot_utils.sed_utils as su_m
import rubin_sim.phot_utils.spectral_resampling as sr
from rubin_sim.phot_utils.sed import Sed
from rubin_sim.phot_utils.bandpass import Bandpass

X = 'rubin_sim.phot_utils.sed:Sed.'
BP = 'rubin_sim.phot_utils.bandpass:Bandpass.'
C = 299792458.0


class Q:
    pass


def grid(S, n, name='w'):
    return S.arr(name, n, lo=300, hi=1100, order='inc', distinct=True)


def trap(S, y, w):
    """trapezoidal integral, written out"""
    return S.sum((y[1:] + y[:-1]) * (w[1:] - w[:-1]) / 2)


@contract('C09', 'magnitude and flux', [X + 'flux_from_mag', X + 'mag_from_flux'], safety=False)
def magflux(S):
    n = S.int('n', 1)
    m, f = S.arr('m', n, lo=0, hi=30), S.arr('f', n, lo=0, lo_open=True)
    s = Sed()
    back = s.mag_from_flux(s.flux_from_mag(m))
    fw = s.flux_from_mag(s.mag_from_flux(f))
    S.forall('magnitude of the flux of a magnitude', n, lambda k: S.eq(back[k], m[k]))
    S.forall('flux of the magnitude of a flux', n, lambda k: S.eq(fw[k], f[k]))
    x = S.real('x', 0, 30)
    S.ensure('single values', S.and_(S.eq(s.mag_from_flux(s.flux_from_mag(x)), x)))
    S.ensure('AB zeropoint', abs(s.zp + 2.5 * math.log10(3631.0)) < 1e-12)


@contract('C09', 'flux per wavelength and per frequency, arrays', [X + 'flambda_tofnu', X + 'fnu_toflambda', X + '_check_use_self'], safety=False)
def fluxarr(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0)
    w0, f0 = S.snapshot(w), S.snapshot(f)
    s = Sed()
    wa, a = s.flambda_tofnu(w, f)
    wb, b = s.fnu_toflambda(wa, a)
    wc, c = s.fnu_toflambda(w, f)
    wd, d = s.flambda_tofnu(wc, c)
    S.forall('fnu in Jansky', n, lambda k: S.eq(a[k], f[k] * w[k] * w[k] * 1e-9 / C * 1e23))
    S.forall('flambda from fnu from flambda', n, lambda k: S.and_(S.eq(b[k], f[k]), S.eq(wb[k], w[k])))
    S.forall('fnu from flambda from fnu', n, lambda k: S.and_(S.eq(d[k], f[k]), S.eq(wd[k], w[k])))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)


def make(S, n, w, f, kind):
    return Sed(wavelen=w, flambda=f) if kind == 'flambda' else Sed(wavelen=w, fnu=f)


@contract('C09', 'spectrum keeps both flux forms in step', [X + 'set_sed', X + '__init__', X + 'flambda_tofnu', X + 'fnu_toflambda', X + 'synchronize_sed', X + 'get_sed_flambda', X + 'get_sed_fnu'], safety=False)
def forms(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0)
    w0, f0 = S.snapshot(w), S.snapshot(f)
    kind = S.choice('kind', ['flambda', 'fnu'])
    s = make(S, n, w, f, kind)
    wl, fl = s.get_sed_flambda()
    wn, fn = s.get_sed_fnu()
    S.forall('the given flux is kept', n, lambda k: S.and_(S.eq((fl if kind == 'flambda' else fn)[k], f[k]), S.eq(wl[k], w[k]), S.eq(wn[k], w[k])))
    S.forall('the other form agrees', n, lambda k: S.eq(fn[k], fl[k] * w[k] * w[k] * 1e-9 / C * 1e23))
    s.synchronize_sed()
    wn, fn2 = s.get_sed_fnu()
    wl, fl2 = s.get_sed_flambda()
    S.forall('synchronising changes neither', n, lambda k: S.and_(S.eq(fn2[k], fn[k]), S.eq(fl2[k], fl[k])))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)


@contract('C09', 'redshift of arrays', [X + 'redshift_sed'], safety=False)
def z_arr(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0)
    w0, f0 = S.snapshot(w), S.snapshot(f)
    z = S.real('z', 0, 6)
    dim = S.bool('dim')
    neg = S.bool('neg')
    s = Sed()
    if neg:
        z = -z
    wa, a = s.redshift_sed(z, dimming=dim, wavelen=w, flambda=f)
    one = 1 + abs(z)
    S.forall('wavelengths are stretched', n, lambda k: S.eq(wa[k], S.div(w[k], one) if neg else w[k] * one))
    S.forall('flux', n, lambda k: S.eq(a[k], f[k] if not dim else (f[k] * one if neg else S.div(f[k], one))))
    wb, b = s.redshift_sed(-z, dimming=dim, wavelen=wa, flambda=a)
    S.forall('undone by the opposite shift', n, lambda k: S.and_(S.eq(wb[k], w[k]), S.eq(b[k], f[k])))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)


@contract('C09', 'redshift of a spectrum', [X + 'redshift_sed', X + 'set_sed', X + 'flambda_tofnu'], safety=False)
def z_self(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0)
    w0, f0 = S.snapshot(w), S.snapshot(f)
    z = S.real('z', 0, 6)
    dim = S.bool('dim')
    kind = S.choice('kind', ['flambda', 'fnu'])
    s = make(S, n, w, f, kind)
    _, fl0 = s.get_sed_flambda()
    s.redshift_sed(z, dimming=dim)
    _, fl = s.get_sed_flambda()
    _, fn = s.get_sed_fnu()
    S.forall('stretched', n, lambda k: S.and_(S.eq(s.wavelen[k], w[k] * (1 + z)), S.eq(fl[k], S.div(fl0[k], 1 + z) if dim else fl0[k])))
    S.forall('both flux forms are those of the shifted spectrum', n, lambda k: S.eq(fn[k], fl[k] * s.wavelen[k] * s.wavelen[k] * 1e-9 / C * 1e23))
    s.redshift_sed(-z, dimming=dim)
    S.forall('undone by the opposite shift', n, lambda k: S.and_(S.eq(s.wavelen[k], w[k]), S.eq(s.flambda[k], fl0[k])))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)


@contract('C09', 'scaling of flux', [X + 'multiply_flux_norm', X + 'fnu_toflambda', X + 'flambda_tofnu'], safety=False)
def scale(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0)
    w0, f0 = S.snapshot(w), S.snapshot(f)
    c = S.real('c', 0, 100, lo_open=True)
    kind = S.choice('kind', ['flambda', 'fnu'])
    s = make(S, n, w, f, kind)
    wa, fa = s.multiply_flux_norm(c, wavelen=w, fnu=f)
    S.forall('arrays', n, lambda k: S.and_(S.eq(fa[k], f[k] * c), S.eq(wa[k], w[k])))
    _, fl0 = s.get_sed_flambda()
    _, fn0 = s.get_sed_fnu()
    s.multiply_flux_norm(c)
    _, fl = s.get_sed_flambda()
    _, fn = s.get_sed_fnu()
    S.forall('both forms of the flux', n, lambda k: S.and_(S.eq(fn[k], fn0[k] * c), S.eq(fl[k], fl0[k] * c), S.eq(s.wavelen[k], w[k])))
    s.multiply_flux_norm(S.div(1, c))
    S.forall('undone', n, lambda k: S.and_(S.eq(s.fnu[k], fn0[k]), S.eq(s.flambda[k], fl0[k])))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)


@contract('C09', 'normalised filter response', [BP + 'sb_tophi', BP + 'set_bandpass', BP + 'get_bandpass'], safety=False)
def phi(S):
    n = S.int('n', 2)
    w, t = grid(S, n), S.arr('t', n, lo=0, hi=1)
    tot = trap(S, t / w, w)
    S.assume(tot > 0)
    w0, t0 = S.snapshot(w), S.snapshot(t)
    b = Bandpass(wavelen=w, sb=t)
    b.sb_tophi()
    S.forall('proportional to response over wavelength', n, lambda k: S.eq(b.phi[k] * tot, S.div(t[k], w[k])))
    ww, tt = b.get_bandpass()
    S.forall('the response itself is kept', n, lambda k: S.and_(S.eq(ww[k], w[k]), S.eq(tt[k], t[k])))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('response', t, t0)


@contract('C09', 'normalised response integrates to one', [BP + 'sb_tophi'], safety=False)
def phi1(S):
    n = S.int('n', 2)
    w, t = grid(S, n), S.arr('t', n, lo=0, hi=1)
    S.assume(trap(S, t / w, w) > 0)
    b = Bandpass(wavelen=w, sb=t)
    b.sb_tophi()
    p = b.phi
    S.ensure('integral', S.eq(trap(S, p, w), 1))


def setup(S, kind='fnu'):
    n = S.int('n', 2)
    w, t, f = grid(S, n), S.arr('t', n, lo=0, hi=1), S.arr('f', n, lo=0, hi=10)
    b = Bandpass(wavelen=w, sb=t)
    S.assume(trap(S, t / w, w) > 0)
    b.sb_tophi()
    s = make(S, n, w, f, kind)
    return n, w, t, f, b, s


@contract('C09', 'flux and magnitude in a bandpass', [X + 'calc_flux', X + 'calc_mag', X + 'resample_sed', X + '_need_resample', X + 'mag_from_flux'], also=['rubin_sim.phot_utils.bandpass'], safety=False)
def cflux(S):
    kind = S.choice('kind', ['flambda', 'fnu'])
    n, w, t, f, b, s = setup(S, kind)
    p = b.phi
    _, fn = s.get_sed_fnu()
    tot = trap(S, fn * p, w)
    r = s.calc_flux(b)
    S.ensure('flux weighted by the normalised response', S.eq(r, tot))
    S.ensure('with arrays', S.eq(s.calc_flux(b, wavelen=w, fnu=fn), tot))
    S.assume(tot > 1e-3)
    S.ensure('magnitude of that flux', S.eq(s.calc_mag(b), -2.5 * S.log10(tot) - s.zp))


@contract('C09', 'scaled flux shifts the magnitude', [X + 'calc_flux', X + 'calc_mag', X + 'multiply_flux_norm'], also=['rubin_sim.phot_utils.bandpass'], safety=False)
def shift(S):
    n, w, t, f, b, s = setup(S)
    c = S.real('c', 0.125, 100)
    p = b.phi
    S.assume(trap(S, f * p, w) > 1e-3)
    m = s.calc_mag(b)
    f1 = s.calc_flux(b)
    s.multiply_flux_norm(c)
    f2 = s.calc_flux(b)
    S.ensure('flux in the bandpass', S.eq(f2, c * f1))
    m2 = s.calc_mag(b)
    S.ensure('magnitude of the scaled flux', S.eq(m2, -2.5 * S.log10(c * f1) - s.zp))
    S.ensure('magnitude of the flux', S.eq(m, -2.5 * S.log10(f1) - s.zp))
    g = S.real('g', 0, lo_open=True)
    S.ensure('lemma: log of a product', S.eq(S.log10(c * g), S.log10(c) + S.log10(g)))
    if not S.symbolic:  # follows from the three above
        S.ensure('by -2.5 log of the factor', S.eq(m2, m - 2.5 * S.log10(c)))


@contract('C09', 'normalising to a magnitude', [X + 'calc_flux_norm', X + 'calc_mag', X + 'multiply_flux_norm'], also=['rubin_sim.phot_utils.bandpass'], safety=False)
def tomag(S):
    n, w, t, f, b, s = setup(S)
    m = S.real('m', 10, 20)
    p = b.phi
    S.assume(trap(S, f * p, w) > 1e-3)
    c = s.calc_flux_norm(m, b)
    S.ensure('the factor', S.eq(c * s.calc_flux(b), s.flux_from_mag(m)))
    s.multiply_flux_norm(c)
    if S.symbolic:
        S.assume(s.calc_flux(b) > 1e-3)
    S.ensure('gives exactly that magnitude', S.eq(s.calc_mag(b), m))


@contract('C09', 'spectra are normalised at a wavelength', [X + 'renormalize_sed', X + 'flambda_tofnu', X + 'fnu_toflambda'], safety=False)
def renorm(S):
    n = S.int('n', 2)
    w, f = grid(S, n), S.arr('f', n, lo=0.125, hi=10)
    w0, f0 = S.snapshot(w), S.snapshot(f)
    j = S.int('j', 0)
    S.assume(j < n)
    v = S.real('v', 0.125, 8)
    form = S.choice('form', ['flambda', 'fnu'])
    own = S.bool('own')
    at = w[j]
    if own:
        s = Sed(wavelen=w, flambda=f)
        _, fn0 = s.get_sed_fnu()
        s.renormalize_sed(lambdanorm=at, normvalue=v, normflux=form)
        r = s
    else:
        s = Sed()
        r = s.renormalize_sed(wavelen=w, lambdanorm=at, normvalue=v, normflux=form, **{form: f})
    _, fl = r.get_sed_flambda()
    _, fn = r.get_sed_fnu()
    start = fn0 if own and form == 'fnu' else f
    got = fn if form == 'fnu' else fl
    S.ensure('takes the requested value there', S.eq(got[j], v))
    S.forall('and is scaled by the same factor everywhere', n, lambda k: S.and_(S.eq(got[k] * start[j], start[k] * v), S.eq(r.wavelen[k], w[k])))
    S.forall('in both forms', n, lambda k: S.eq(fn[k], fl[k] * w[k] * w[k] * 1e-9 / C * 1e23))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)


@contract('C09', 'spectra are normalised over a gap', [X + 'renormalize_sed'], bounded='the gap is sampled with arange')
def renorm_gap(S):
    n = S.int('n', 2)
    w, f = grid(S, n), S.arr('f', n, lo=0.125, hi=10)
    v = S.real('v', 0.125, 8)
    form = S.choice('form', ['flambda', 'fnu'])
    lo = S.real('at', 310, 1090)
    if not (w[0] <= lo <= w[-1]):
        S.assume(False)
    gap = S.choice('gap', [0, 1.0, 4.0])
    s = Sed()
    r = s.renormalize_sed(wavelen=w, lambdanorm=lo, normvalue=v, gap=gap, normflux=form, wavelen_step=0.5, **{form: f})
    fl = r.get_sed_flambda()[1] if form == 'flambda' else r.get_sed_fnu()[1]
    pts = [lo] if gap == 0 else [lo - gap + 0.5 * k for k in range(int(4 * gap))]
    S.ensure('the mean over the gap is the requested value', S.eq(np.mean(np.interp(pts, w, fl)), v))


@contract('C09', 'counts from a spectrum', [X + 'calc_adu', X + 'resample_sed', X + '_need_resample'], also=['rubin_sim.phot_utils.bandpass'], safety=False)
def adu(S):
    n = S.int('n', 2)
    lo, step = S.real('lo', 300, 400), S.real('step', 0.5, 10)
    w = np.array([lo + step * k for k in range(n)]) if not S.symbolic else S.arr('w', n, lo=300, hi=1100, order='inc', distinct=True)
    t, f = S.arr('t', n, lo=0, hi=1), S.arr('f', n, lo=0, hi=10)
    q = S.obj(Q, exptime=S.real('e', 1, 60), nexp=S.int('ne', 1, 4), effarea=S.real('ea', 1, 100), gain=S.real('g', 0.5, 4))
    b = Bandpass(wavelen=w, sb=t)
    s = Sed(wavelen=w, fnu=f)
    r = s.calc_adu(b, q)
    S.ensure('photons through the response, over the exposures, area and gain', S.eq(
        r * q.gain, S.sum(f / w * t) * (w[1] - w[0]) * (q.exptime * q.nexp * q.effarea) * (1 / 1e23) * (1 / 6.626068e-27)))
    S.ensure('with arrays', S.eq(s.calc_adu(b, q, wavelen=w, fnu=f), r))


@contract('C09', 'product of spectra on one grid', [X + 'multiply_sed', X + 'set_sed'], safety=False)
def mult(S):
    n = S.int('n', 1)
    w, f, g = grid(S, n), S.arr('f', n, lo=0), S.arr('g', n, lo=0)
    s = Sed(wavelen=w, flambda=f)
    t = Sed(wavelen=w, flambda=g)
    r = s.multiply_sed(t)
    S.forall('product of the fluxes', n, lambda k: S.and_(S.eq(r.flambda[k], f[k] * g[k]), S.eq(r.wavelen[k], w[k])))
    S.unchanged('first flux', s.flambda, f)
    S.unchanged('second flux', t.flambda, g)
    S.unchanged('first wavelengths', s.wavelen, w)


@contract('C09', 'product of throughputs on one grid', [BP + 'multiply_throughputs', BP + 'set_bandpass'], safety=False)
def multb(S):
    n = S.int('n', 2)
    w, f, g = grid(S, n), S.arr('f', n, lo=0, hi=1), S.arr('g', n, lo=0, hi=1)
    b = Bandpass(wavelen=w, sb=f)
    wn, r = b.multiply_throughputs(w, g)
    S.forall('product', n, lambda k: S.and_(S.eq(r[k], f[k] * g[k]), S.eq(wn[k], w[k])))
    S.unchanged('response', b.sb, f)
    S.unchanged('other', b.wavelen, w)


@contract('C09', 'effective wavelength', [BP + 'calc_eff_wavelen', BP + 'sb_tophi'], safety=False)
def effw(S):
    n = S.int('n', 2)
    w, t = grid(S, n), S.arr('t', n, lo=0, lo_open=True, hi=1)
    S.assume(trap(S, t / w, w) > 0)
    S.assume(S.sum(t) > 0)
    b = Bandpass(wavelen=w, sb=t)
    p, q = b.calc_eff_wavelen()
    S.ensure('response weighted mean wavelength', S.eq(q * S.sum(t), S.sum(w * t)))
    S.ensure('normalised response weighted mean wavelength', S.eq(p, S.div(S.sum(w * b.phi), S.sum(b.phi))))


def ccm(S, x, law):
    """coefficients of Cardelli, Clayton & Mathis (1989); O'Donnell (1994) in the optical"""
    poly = lambda c, y: sum(a * y ** k for k, a in enumerate(c))
    if x < 0.3 or x > 11:
        return 0.0, 0.0
    if x < 1.1:
        return 0.574 * x ** 1.61, -0.527 * x ** 1.61
    if x <= 3.3:
        y = x - 1.82
        if law == 'ccm':
            return (poly([1, 0.17699, -0.50447, -0.02427, 0.72085, 0.01979, -0.77530, 0.32999], y),
                    poly([0, 1.41338, 2.28305, 1.07233, -5.38434, -0.62251, 5.30260, -2.09002], y))
        return (poly([1, 0.104, -0.609, 0.701, 1.137, -1.718, -0.827, 1.647, -0.505], y),
                poly([0, 1.952, 2.908, -3.989, -7.985, 11.102, 5.491, -10.805, 3.347], y))
    if x < 8:
        a = 1.752 - 0.316 * x - 0.104 / ((x - 4.67) ** 2 + 0.341)
        b = -3.09 + 1.825 * x + 1.206 / ((x - 4.62) ** 2 + 0.263)
        if x > 5.9:
            a += -0.04473 * (x - 5.9) ** 2 - 0.009779 * (x - 5.9) ** 3
            b += 0.2130 * (x - 5.9) ** 2 + 0.1207 * (x - 5.9) ** 3
        return a, b
    y = x - 8
    return poly([-1.073, -0.628, 0.137, -0.070], y), poly([13.670, 4.257, -0.420, 0.374], y)


EDGES = [1000 / x for x in (0.3, 1.1, 3.3, 5.9, 8, 11)] + [170, 250, 2000., 80, 4000, 125, 910, 1000 / 5.9 + .5]


@contract('C09', 'dust extinction law', [X + 'setup_ccm_ab', X + 'setup_o_donnell_ab', X + 'setup_cc_mab'], bounded='non-integer powers and assignment to conditions', trials=600)
def dustlaw(S):
    n = S.int('n', 1)
    w = S.arr('w', n, lo=80, hi=4000, gen=lambda r: r.choice(EDGES) if r.random() < .5 else r.uniform(85, 3300))
    w0 = w.copy()
    law = S.choice('law', ['ccm', 'odonnell'])
    s = Sed(wavelen=w, flambda=np.ones(n))
    given = S.bool('given')
    a, b = (s.setup_ccm_ab if law == 'ccm' else s.setup_o_donnell_ab)(*([w] if given else []))
    for k in range(n):
        x = 1000. / w[k]
        if min(abs(x - e) for e in (0.3, 11)) < 1e-9:
            continue
        ca, cb = ccm(S, x, law)
        at_edge = abs(x - 1.1) < 1e-9 or abs(x - 3.3) < 1e-9 or abs(x - 8) < 1e-9
        S.ensure('coefficients of the wavelength itself', abs(a[k] - ca) < (0.02 if at_edge else 1e-9) and abs(b[k] - cb) < (0.2 if at_edge else 1e-9))
    S.unchanged('wavelengths', w, w0)


@contract('C09', 'dust extinction of a spectrum', [X + 'add_dust', X + 'flambda_tofnu'], safety=False)
def dust(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0)
    a, b = S.arr('a', n), S.arr('b', n)
    snap = [S.snapshot(v) for v in (w, f, a, b)]
    av = S.real('av', 0.125, 3)
    rv = S.choice('rv', [3.1, 4.0, 5.5])
    how = S.choice('how', ['av', 'ebv', 'both'])
    ebv = S.div(av, rv)
    kw = dict(av=dict(a_v=av, r_v=rv), ebv=dict(ebv=ebv, r_v=rv), both=dict(a_v=av, ebv=ebv))[how]
    own = S.bool('own')
    if own:
        s = Sed(wavelen=w, flambda=f)
        s.add_dust(a, b, **kw)
        wl, fl = s.get_sed_flambda()
        _, fn = s.get_sed_fnu()
        S.forall('both flux forms', n, lambda k: S.eq(fn[k], fl[k] * w[k] * w[k] * 1e-9 / C * 1e23))
    else:
        wl, fl = Sed().add_dust(a, b, wavelen=w, flambda=f, **kw)
    import rubin_sim.phot_utils.sed as m
    ln = 0.4 * float(np.log(10.0))
    R = S.div(av, ebv) if how == 'both' else rv
    A = lambda k: (a[k] + S.div(b[k], R)) * (R * ebv if how == 'ebv' else av)
    S.forall('each wavelength is dimmed by its own extinction', n, lambda k: S.and_(
        S.eq(wl[k], w[k]), S.eq(fl[k], f[k] * S.fn('exp', -A(k) * ln))))
    for nm, v, v0 in zip(['wavelengths', 'flux', 'a', 'b'], (w, f, a, b), snap):
        S.unchanged(nm, v, v0)


@contract('C09', 'inconsistent dust parameters are refused', [X + 'add_dust'], bounded='exceptions')
def dust_bad(S):
    n = S.int('n', 1)
    w = grid(S, n)
    av, ebv = S.real('av', 0.125, 3), S.real('ebv', 0.125, 3)
    rv = S.choice('rv', [4.0, 5.0])
    s = Sed(wavelen=w, flambda=np.ones(n))
    try:
        s.add_dust(np.ones(n), np.ones(n), a_v=av, ebv=ebv, r_v=rv)
        ok = True
    except ValueError:
        ok = False
    S.ensure('only a_v = r_v E(B-V) is accepted', ok == (av / ebv == rv))


@contract('C09', 'filling and regridding decisions', [X + '_need_resample', X + 'resample_sed', X + 'set_flat_sed'], bounded='grids are made with arange')
def regrid(S):
    n = S.int('n', 2, 8)
    step = S.choice('step', [1.0, 2.5, 10.0])
    w = 300 + step * np.arange(n)
    f = S.arr('f', n, lo=0, hi=10)
    s = Sed(wavelen=w, flambda=f)
    a, b = s.resample_sed(w, f, wavelen_match=w.copy())
    S.ensure('the same grid changes nothing', np.array_equal(a, w) and np.array_equal(b, f))
    s.resample_sed(wavelen_min=w[0], wavelen_max=w[-1], wavelen_step=step)
    S.ensure('nor does the same range', np.array_equal(s.wavelen, w) and np.array_equal(s.flambda, f))
    t = Sed()
    t.set_flat_sed(wavelen_min=300, wavelen_max=320, wavelen_step=step)
    S.ensure('a flat spectrum has 3631 Jansky everywhere', np.allclose(t.fnu, 3631, rtol=1e-12) and t.wavelen[0] == 300 and t.wavelen[-1] >= 320 and
             np.allclose(np.diff(t.wavelen), step) and np.allclose(t.get_sed_fnu()[1], t.flambda * t.wavelen ** 2 * 1e-9 / C * 1e23, rtol=1e-12))


def edges(w):
    e = [w[0] - (w[1] - w[0]) / 2] + [(a + b) / 2 for a, b in zip(w, w[1:])] + [w[-1] + (w[-1] - w[-2]) / 2]
    return e


@contract('C09', 'resampling conserves flux', ['rubin_sim.phot_utils.spectral_resampling:spectres', 'rubin_sim.phot_utils.spectral_resampling:make_bins',
                                               X + 'resample_sed'], bounded='while loops over two grids at once', trials=1500, size=7)
def resample(S):
    n, m = S.int('n', 2), S.int('m', 2)
    w, f = grid(S, n), S.arr('f', n, lo=0, hi=10)
    v = S.arr('v', m, lo=300, hi=1100, order='inc', distinct=True)
    fill = S.choice('fill', [math.nan, 0.0, -1.0])
    w0, f0, v0 = w.copy(), f.copy(), v.copy()
    s = Sed()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g, r = s.resample_sed(w, f, wavelen_match=v, fill=fill)
    if n == m and np.all(abs(v - w) <= 1e-10):
        return
    S.ensure('on the requested grid', np.array_equal(g, v))
    oe, ne = edges(list(w)), edges(list(v))
    for j in range(m):
        if ne[j] < oe[0] or ne[j + 1] > oe[-1]:
            S.ensure('bins that are not covered are filled', S.eq(r[j], fill))
            continue
        # the width of the first and last old bins is that of the code's own convention, so only interior overlaps are exact
        ov = [max(0.0, min(oe[k + 1], ne[j + 1]) - max(oe[k], ne[j])) for k in range(n)]
        S.ensure('mean of the old bins weighted by overlap', S.eq(r[j], sum(a * b for a, b in zip(ov, f)) / sum(ov), rtol=1e-9, atol=1e-12))
    S.unchanged('wavelengths', w, w0)
    S.unchanged('flux', f, f0)
    S.unchanged('grid', v, v0)
    s2 = Sed(wavelen=w, flambda=f)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s2.resample_sed(wavelen_match=v, fill=fill)
    S.ensure('the same for the spectrum itself', np.array_equal(s2.flambda, r, equal_nan=True) and s2.fnu is None and np.array_equal(s2.wavelen, v))


@contract('C09', 'products on different grids', [X + 'multiply_sed', BP + 'multiply_throughputs', BP + 'resample_bandpass'], bounded='resampling')
def mult2(S):
    n, m = S.int('n', 3, 12), S.int('m', 3, 12)
    off = S.int('off', 0, 3)
    a, b = S.real('a', 1, 5), S.real('b', 1, 5)
    w, v = 400. + np.arange(n) * 10, 400. + 10 * off + np.arange(m) * 10
    if v[0] >= w[-1]:
        S.assume(False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = Sed(wavelen=w, flambda=np.full(n, a)).multiply_sed(Sed(wavelen=v, flambda=np.full(m, b)), wavelen_step=5.0)
        d = Sed(wavelen=w, flambda=np.full(n, a)).multiply_sed(Sed(wavelen=v, flambda=np.full(m, b)))
    lo, hi = max(w[0], v[0]), min(w[-1], v[-1])
    ok = (r.wavelen >= lo) & (r.wavelen <= hi)
    S.ensure('product over the common range', ok.any() and np.allclose(r.flambda[ok], a * b) and r.wavelen[0] == lo and np.allclose(np.diff(r.wavelen), 10.0 if n == m and off == 0 else 5.0))
    S.ensure('default step', np.allclose(np.diff(d.wavelen), 10.0 if n == m and off == 0 else 0.1))
    tb = S.arr('t', n, lo=0, hi=1)
    ub = S.arr('u', m, lo=0, hi=1)
    wn, p = Bandpass(wavelen=w, sb=tb).multiply_throughputs(v, ub)
    S.ensure('product of throughputs, zero outside the other', np.array_equal(wn, w) and np.allclose(p, tb * np.interp(w, v, ub, left=0, right=0)))


@contract('C09', 'bandpass regridding', [BP + 'resample_bandpass', BP + 'imsim_bandpass', BP + 'read_throughput_list'], bounded='scipy interpolation')
def bpgrid(S):
    n = S.int('n', 2)
    w, t = grid(S, n), S.arr('t', n, lo=0, hi=1)
    w0, t0 = w.copy(), t.copy()
    step = S.choice('step', [0.5, 5.0, 7.0])
    b = Bandpass(wavelen=w, sb=t)
    b.sb_tophi() if trap(S, t / w, w) > 0 else None
    lo, hi = S.choice('lo', [300., 400.]), S.choice('hi', [1000., 1150.])
    if w[0] > hi or w[-1] < lo:
        S.assume(False)
    ga, gb = b.resample_bandpass(wavelen=w, sb=t, wavelen_min=lo, wavelen_max=hi, wavelen_step=step)
    S.ensure('regular grid over the range', ga[0] == lo and np.allclose(np.diff(ga), step) and hi - step < ga[-1] < hi + step)
    S.ensure('linear between the points, zero outside', np.allclose(gb, np.interp(ga, w, t, left=0, right=0), atol=1e-12))
    b.resample_bandpass(wavelen_min=lo, wavelen_max=hi, wavelen_step=step)
    S.ensure('the same in place, and no stale normalised response', np.array_equal(b.wavelen, ga) and np.array_equal(b.sb, gb) and b.phi is None)
    S.unchanged('wavelengths', w, w0)
    S.unchanged('response', t, t0)
    b.imsim_bandpass(imsimwavelen=500.0, wavelen_min=300, wavelen_max=1150, wavelen_step=step)
    S.ensure('single-wavelength filter', b.sb.sum() in (0, 1) and (b.sb.sum() == 0 or abs(b.wavelen[b.sb > 0][0] - 500) <= step / 2) and b.phi is None)


@contract('C09', 'spectrum and throughput files', [X + 'read_sed_flambda', X + 'read_sed_fnu', X + 'write_sed', BP + 'read_throughput', BP + 'write_throughput', BP + 'read_throughput_list'],
          bounded='files', trials=60)
def files(S):
    n = S.int('n', 2)
    w, f = grid(S, n), S.arr('f', n, lo=0.125, hi=10)
    t = S.arr('t', n, lo=0, hi=1)
    cache = S.bool('cache')
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 'a.sed')
        s = Sed(wavelen=w, flambda=f)
        s.write_sed(p, print_header='x\n' if S.bool('hdr') else None)
        a, b = Sed(), Sed()
        a.read_sed_flambda(p, cache_sed=cache)
        S.ensure('written spectrum is read back', np.allclose(a.wavelen, w, atol=0.005) and np.allclose(a.flambda, f, rtol=1e-6))
        keep = a.flambda.copy(), a.wavelen.copy()
        a.flambda *= 2
        a.wavelen += 1
        a.redshift_sed(0.5)
        b.read_sed_flambda(p, cache_sed=cache)
        S.ensure('reading again gives the file, whatever was done to the first copy', np.array_equal(b.flambda, keep[0]) and np.array_equal(b.wavelen, keep[1]) and b.fnu is None)
        s.write_sed(os.path.join(d, 'b.sed'), print_fnu=True)
        x = np.loadtxt(os.path.join(d, 'b.sed'))
        S.ensure('with both forms of flux', np.allclose(x[:, 1], f) and np.allclose(x[:, 2], s.get_sed_fnu()[1]))
        with open(os.path.join(d, 'c.sed'), 'w') as fh:
            fh.write('# c\n' + ''.join('%r %r\n' % (float(i), float(j)) for i, j in zip(w, f)))
        c = Sed()
        c.read_sed_fnu(os.path.join(d, 'c.sed'))
        S.ensure('per-frequency file', np.allclose(c.fnu, f) and np.allclose(c.flambda, f / w ** 2 * C / 1e-9 / 1e23))
        bp = Bandpass(wavelen=w, sb=t)
        q = os.path.join(d, 'f.dat')
        bp.write_throughput(q)
        r = Bandpass()
        r.read_throughput(q)
        S.ensure('written throughput is read back', np.array_equal(r.wavelen, w) and np.array_equal(r.sb, t) and r.phi is None)
        order = S.r.sample(range(n), n) if S.r else list(range(n))[::-1]
        with open(os.path.join(d, 'g.dat'), 'w') as fh:
            fh.write('# h\n\n' + ''.join('%r %r\n' % (float(w[k]), float(t[k])) for k in order))
        r.read_throughput(os.path.join(d, 'g.dat'))
        S.ensure('in increasing wavelength whatever the order of the file', np.array_equal(r.wavelen, w) and np.array_equal(r.sb, t))
        bp.read_throughput_list(['f.dat', 'g.dat'], root_dir=d, wavelen_min=300, wavelen_max=1150, wavelen_step=5.0)
        S.ensure('product of components', np.allclose(bp.sb, np.interp(bp.wavelen, w, t, left=0, right=0) ** 2, atol=1e-12))
    finally:
        shutil.rmtree(d)
        sed_m._global_misc_sed_cache = None


@contract('C09', 'many bandpasses at once', [X + 'setup_phi_array', X + 'many_flux_calc', X + 'many_mag_calc'], bounded='two-dimensional arrays')
def many(S):
    n, nb = S.int('n', 3, 8), S.int('nb', 1, 3)
    step = S.choice('step', [5.0, 10.0])
    w = 400 + step * np.arange(n)
    bands = []
    for j in range(nb):
        t = S.arr('t%d' % j, n, lo=0.125, hi=1)
        bands.append(Bandpass(wavelen=w, sb=t))
    s = Sed()
    phi_, st = s.setup_phi_array(bands)
    m = phi_.shape[1]
    grid_ = bands[0].wavelen
    f = np.array([S.real('f%d' % k, 0.125, 10) for k in range(m)])
    s.set_sed(wavelen=grid_, fnu=f)
    fl = s.many_flux_calc(phi_, st)
    S.ensure('one row per bandpass', phi_.shape == (nb, len(grid_)) and all(np.array_equal(phi_[j], bands[j].phi) for j in range(nb)) and abs(st - step) < 1e-9)
    S.ensure('flux of each', np.allclose(fl, [np.sum(f * bands[j].phi) * step for j in range(nb)]))
    mags = s.many_mag_calc(phi_, st)
    S.ensure('magnitude of each', np.allclose(mags, s.mag_from_flux(fl)))
    ind = list(range(nb))[::-1][:2]
    S.ensure('subset in the given order', np.allclose(s.many_mag_calc(phi_, st, observed_bandpass_ind=ind), mags[ind]))


@contract('C09', 'monochromatic normalisation', ['rubin_sim.phot_utils.sed_utils:get_imsim_flux_norm'], bounded='the reference wavelength comes from a built filter')
def imsim(S):
    n = S.int('n', 2)
    w, f = grid(S, n), S.arr('f', n, lo=0.125, hi=10)
    m = S.real('m', 10, 25)
    kind = S.choice('kind', ['flambda', 'fnu'])
    s = make(S, n, w, f, kind)
    if not w[0] < 500 < w[-1]:
        S.assume(False)
    c = su_m.get_imsim_flux_norm(s, m)
    s.multiply_flux_norm(c)
    S.ensure('the magnitude at 500 nm is the requested one', abs(s.mag_from_flux(np.interp(su_m.get_imsim_flux_norm.imsim_wavelen, s.wavelen, s.fnu)) - m) < 1e-8
             and abs(su_m.get_imsim_flux_norm.imsim_wavelen - 500) < 1e-6)


@contract('C09', 'clearing and comparing spectra', [X + 'clear_sed', X + '__eq__', X + '__ne__'], bounded='attribute by attribute comparison')
def cleareq(S):
    n = S.int('n', 1)
    w, f = grid(S, n), S.arr('f', n, lo=0.125, hi=10)
    a, b = Sed(wavelen=w, flambda=f), Sed(wavelen=w, flambda=f)
    S.ensure('equal spectra', a == b and not a != b)
    k = S.int('k', 0)
    if k < n:
        g = f.copy()
        g[k] += 1
        S.ensure('a differing flux', not a == Sed(wavelen=w, flambda=g))
        v = w.copy()
        v[k] += 1
        S.ensure('a differing wavelength', a != Sed(wavelen=v, flambda=f))
    a.clear_sed()
    S.ensure('a cleared spectrum is like a new one', a == Sed())


@contract('C09', 'energy in a bandpass', [X + 'calc_ergs', X + 'resample_sed'], also=['rubin_sim.phot_utils.bandpass'], safety=False)
def ergs(S):
    n = S.int('n', 2)
    w = grid(S, n) if S.symbolic else 400. + S.choice('st', [1.0, 5.0]) * np.arange(n)
    t, f = S.arr('t', n, lo=0, hi=1), S.arr('f', n, lo=0, hi=10)
    b = Bandpass(wavelen=w, sb=t)
    r = Sed(wavelen=w, flambda=f).calc_ergs(b)
    y = f * t
    S.ensure('trapezoidal integral with the grid step', S.eq(r, S.sum((y[1:] + y[:-1]) * (w[1] - w[0]) / 2)))


@contract('C09', 'zeropoint of a bandpass', [BP + 'calc_zp_t', X + 'calc_adu', X + 'calc_mag'], bounded='flat spectrum on a 0.1 nm grid is resampled', trials=4)
def zp(S):
    from rubin_sim.phot_utils.photometric_parameters import PhotometricParameters
    e, g = S.choice('e', [15.0, 30.0]), S.real('g', 1, 3)
    w = np.arange(400., 520., 5.0)
    t = np.clip(S.arr('t', len(w), lo=0.125, hi=1), 0, 1)
    b = Bandpass(wavelen=w, sb=t)
    q = PhotometricParameters(exptime=e, gain=g, nexp=1)
    m = b.calc_zp_t(q)
    s = Sed()
    s.set_flat_sed()
    s.multiply_flux_norm(s.calc_flux_norm(m, b))
    S.ensure('a source of that magnitude gives one count', abs(s.calc_adu(b, q) - 1) < 1e-6)
