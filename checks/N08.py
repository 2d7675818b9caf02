"""Apparent magnitudes, colour correction and fluxes of sources."""
import types
import warnings

import numpy as np
import scipy.integrate

from symnp.reg import harness
from .common import *
from .C09 import WAVE, integ, simpson
from corgidrp import fluxcal, l4_to_tda


def setup(S, filt, m=3):
    """symbolic filter curve and spectra of Vega and two stars"""
    tracking(S, False)
    warnings.simplefilter('ignore')
    S.setattr(scipy.integrate, 'simpson', simpson(S))
    x = WAVE[:m]
    T = S.array('T', (m,), .1, 1)
    spec = {k: S.array('spec%s' % k, (m,), .1, 5) for k in ('Vega', 'HD1', 'model.fits')}
    S.setattr(fluxcal, 'get_calspec_file', lambda nm: '/spec/' + nm)
    S.setattr(fluxcal, 'read_filter_curve', lambda p: (x.copy(), T.copy()) if '_%s_' % filt in p else None)
    S.setattr(fluxcal, 'read_cal_spec', lambda p, w: spec[p.replace('/spec/', '')].copy())
    return x, T, spec


def log10(S, x):
    return S.np.log10(x)


@harness('N08', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], stubs=['spectra and filter curves: symbolic values; simpson: its own weights'])
def app_mag(S, n=2):
    """The apparent magnitude is -2.5 log10 of the star's over Vega's irradiance in the filter, scaled as asked; it is put into the
    headers of a copy of every frame."""
    filt = S.choice('filter', ['1F', '3D'])
    x, T, spec = setup(S, filt)
    ds = data.Dataset([image(S, tag='%d' % i, shape=(1, 1), pri=dict(TARGET='HD1'), ext=dict(CFAMNAME=filt)) for i in range(n)])
    s0 = [snap(f) for f in ds.frames]
    star = S.choice('star', ['HD1', 'model.fits'])
    scale = S.choice('scale', [1., .25])
    one = n == 1 and S.choice('one', [True, False])
    out = l4_to_tda.determine_app_mag(ds.frames[0] if one else ds, star, scale_factor=scale)
    irr = lambda s: integ(S, [T[i] * s[i] for i in range(3)], x)
    want = -2.5 * log10(S, irr(spec[star]) * scale / irr(spec['Vega']))
    S.same(len(out), n, 'frames')
    for i, f in enumerate(out.frames):
        S.eq(f.ext_hdr['APP_MAG'], want, 'apparent magnitude', tol=1e-9)
        S.check('magnitude' in history(f.ext_hdr), 'history')
        S.eq(f.data, s0[i]['data'], 'data')
        unchanged(S, ds.frames[i], s0[i])
    attached(S, ds, 'input stays attached')


@harness('N08', quick=[dict()], thorough=[dict(n=3)])
def mixed(S, n=2):
    """Frames of different filters or targets are refused."""
    x, T, spec = setup(S, '1F')
    fl = [S.choice('filter%d' % i, ['1F', '3D']) for i in range(n)]
    tg = [S.choice('target%d' % i, ['HD1', 'Vega']) for i in range(n)]
    S.setattr(fluxcal, 'read_filter_curve', lambda p: (x.copy(), T.copy()))
    ds = data.Dataset([image(S, tag='%d' % i, shape=(1, 1), pri=dict(TARGET=tg[i]), ext=dict(CFAMNAME=fl[i])) for i in range(n)])
    if len(set(fl)) > 1 or len(set(tg)) > 1:
        S.raises(ValueError, lambda: l4_to_tda.determine_app_mag(ds, 'HD1'), 'mixed dataset')
    else:
        l4_to_tda.determine_app_mag(ds, 'HD1')


@harness('N08', quick=[dict(n=1), dict(n=2)], stubs=['spectra and filter curves: symbolic values; simpson: its own weights; pivot wavelength fixed'])
def color(S, n=2):
    """The colour correction compares the source's with the reference spectrum at the pivot wavelength of the filter; both are
    put into the headers of a copy."""
    filt = S.choice('filter', ['1F', '3D'])
    x, T, spec = setup(S, filt)
    lam = 104.
    S.setattr(fluxcal, 'calculate_pivot_lambda', lambda t, w: lam)
    ref, src = S.choice('pair', [('Vega', 'HD1'), ('HD1', 'model.fits'), ('model.fits', 'Vega')])
    ds = data.Dataset([image(S, tag='%d' % i, shape=(1, 1), pri=dict(TARGET='HD1'), ext=dict(CFAMNAME=filt)) for i in range(n)])
    s0 = [snap(f) for f in ds.frames]
    out = l4_to_tda.determine_color_cor(ds, ref, src)
    R, F = spec[ref], spec[src]
    at = lambda s: s[0] + (s[1] - s[0]) * (lam - 100.) / 10.
    for i, f in enumerate(out.frames):
        S.eq(f.ext_hdr['LAM_REF'], lam, 'reference wavelength')
        k = f.ext_hdr['COL_COR']
        S.eq(k * integ(S, [T[j] * R[j] * x[j] for j in range(3)], x) * at(F), integ(S, [T[j] * F[j] * x[j] for j in range(3)], x) * at(R), 'colour correction', tol=1e-6)
        S.eq(f.data, s0[i]['data'], 'data')
        unchanged(S, ds.frames[i], s0[i])


@harness('N08', quick=[dict(n=1), dict(n=2), dict(n=1, gauss=True), dict(n=2, back=True)], thorough=[dict(n=3, back=True, gauss=True)],
         stubs=['aper_phot and phot_by_gauss2d_fit (C09): symbolic counts'])
def flux(S, n=1, gauss=False, back=False):
    """The flux is the mean count of the frames times flux factor over colour correction; the errors of counts and factor add in
    quadrature; magnitude and its error follow from the flux; all is put into the headers of a copy."""
    filt = S.choice('filter', ['1F', '3D'])
    x, T, spec = setup(S, filt)
    cc = S.choice('cc', [None, .5, 2.])
    ds = data.Dataset([image(S, tag='%d' % i, shape=(1, 1), pri=dict(TARGET='HD1', VISITID='v%d' % i), ext=dict(CFAMNAME=filt, **({} if cc is None else dict(COL_COR=cc)))) for i in range(n)])
    s0 = [snap(f) for f in ds.frames]
    c = [S.real('c%d' % i, 1, 50) for i in range(n)]
    e = [S.real('e%d' % i, 0, 5) for i in range(n)]
    b = [S.real('b%d' % i, -2, 2) for i in range(n)]
    fac, ferr = S.real('fac', .01, 10), S.real('ferr', 0, 5)
    cal = types.SimpleNamespace(fluxcal_fac=fac, fluxcal_err=ferr, filename='cal.fits')
    seen = []

    def phot(im, *a, **kw):
        k = int(im.pri_hdr['VISITID'][1:])
        seen.append((k, kw.get('background_sub', False), kw.get('r_in')))
        return (c[k], e[k], b[k]) if kw.get('background_sub') else (c[k], e[k])
    S.setattr(fluxcal, 'phot_by_gauss2d_fit' if gauss else 'aper_phot', phot)
    S.setattr(fluxcal, 'aper_phot' if gauss else 'phot_by_gauss2d_fit', None)
    kw = dict(phot_kwargs=dict(background_sub=True, r_in=7)) if back else {}
    if gauss:
        kw['photo'] = '2dgauss'
    out = l4_to_tda.determine_flux(ds, cal, **kw)
    S.same(sorted(seen), [(k, back, 7 if back else 5) for k in range(n)], 'photometry of every frame')
    C, E = sum(c) / n, sum(e) / n
    F = C * fac / (cc or 1.)
    V = integ(S, [T[i] * spec['Vega'][i] * x[i] for i in range(3)], x) / integ(S, [T[i] * x[i] for i in range(3)], x)
    for i, f in enumerate(out.frames):
        h = f.ext_hdr
        S.eq(h['FLUX'], F, 'flux', tol=1e-6)
        S.eq(h['FLUXERR'] ** 2 * (cc or 1.) ** 2, E * E * fac * fac + C * C * ferr * ferr, 'error of the flux', tol=1e-6)
        S.check(h['FLUXERR'] >= 0, 'error not negative')
        S.eq(h['APP_MAG'], -2.5 * log10(S, F / V), 'magnitude', tol=1e-9)
        S.eq(h['MAGERR'] * h['FLUX'], h['FLUXERR'] * (2.5 / np.log(10)), 'error of the magnitude', tol=1e-6)
        S.eq(h['FLUXFAC'], fac, 'factor recorded')
        S.eq(h['LOCBACK'], sum(b) / n if back else 0, 'background recorded', tol=1e-9)
        S.eq(f.data, s0[i]['data'], 'data')
        unchanged(S, ds.frames[i], s0[i])
    S.raises(ValueError, lambda: l4_to_tda.determine_flux(ds, cal, photo='psf'), 'unknown photometry')


@harness('N08', quick=[dict(), dict(back=True)], stubs=['aper_phot (C09): symbolic counts'])
def zero(S, back=False):
    """The zero point is the apparent magnitude plus 2.5 log10 of the measured counts."""
    x, T, spec = setup(S, '1F')
    im = image(S, shape=(1, 1), pri=dict(TARGET='HD1'), ext=dict(CFAMNAME='1F'))
    s = snap(im)
    c = S.real('c', 1, 50)
    S.setattr(fluxcal, 'aper_phot', lambda i, r, **kw: ((c, 7., 8.) if kw.get('background_sub') else (c, 7.)) if r == 6. else None)
    frac = S.choice('frac', [None, .8])
    kw = dict(phot_kwargs=dict(background_sub=True)) if back else {}
    if frac:
        kw = dict(phot_kwargs=dict(kw.get('phot_kwargs', {}), frac_enc_energy=frac))
    z = l4_to_tda.calculate_zero_point(im, 'HD1', 6., **kw)
    irr = lambda q: integ(S, [T[i] * q[i] for i in range(3)], x)
    S.same(np.ndim(z), 0, 'one number')
    S.eq(z, -2.5 * log10(S, irr(spec['HD1']) / irr(spec['Vega'])) + 2.5 * log10(S, c), 'zero point', tol=1e-9)
    unchanged(S, im, s)
