"""Photon counting."""
import math
import os
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import photon_counting as pc

G, RN = 5000., 100.


@harness('C05', quick=[dict()], thorough=[dict(shape=(2, 2, 2))])
def threshold(S, shape=(2, 2)):
    """A value counts as one photon exactly when it exceeds the threshold; the input stays unchanged."""
    x, t = S.array('x', tuple(shape)), S.real('t', -10, 10)
    x0 = x.copy()
    out = pc.photon_count(x, t)
    for p in np.ndindex(tuple(shape)):
        S.eq(out[p], S.ite(x0[p] > t, 1, 0), 'one above the threshold, else zero')
    S.eq(x, x0, 'input unchanged')
    S.raises(pc.PhotonCountException, lambda: pc.photon_count(t, 1.), 'scalar refused')


@harness('C05', quick=[dict(), dict(tg=(300., 1000.))])
def first_guess(S, tg=(500., 5000.)):
    """The first estimate inverts the thresholding, -log(1 - fraction e^(t/g)), where that is defined, else the fraction."""
    t, g = tg
    nobs, nfr = S.array('nobs', (1, 2), 0, 100), S.array('nfr', (1, 2), 1, 100)
    out = pc.calc_lam_approx(nobs, nfr, t, g)
    for p in np.ndindex(1, 2):
        S.assume(nobs[p] <= nfr[p])
        init = 1 - nobs[p] / nfr[p] * math.exp(t / g)
        S.assume(S.or_(init > 1e-6, init < -1e-6))
        S.eq(out[p], S.ite(init > 0, -S.np.log(S.ite(init > 0, init, 1.)), nobs[p] / nfr[p]), 'first estimate', tol=1e-6)
    k = S.choice('k', [1., 3., 40.])
    S.eq(pc.calc_lam_approx(S.const(np.array([[k]])), S.const(np.array([[k]])), 0., g)[0, 0], 1., 'photons in all frames above threshold zero')


def eps(lam, t, g):
    """probability that a pixel of mean lam passes the threshold (third-order gamma mixture)"""
    u = t / g
    n = lam * (2 * (6 + 3 * lam + lam ** 2) + 2 * lam * (3 + lam) * u + lam ** 2 * u * u)
    d = 2 * (6 + 6 * lam + 3 * lam ** 2 + lam ** 3)
    dn = 2 * (6 + 6 * lam + 3 * lam ** 2) + 2 * (6 * lam + 3 * lam ** 2) * u + 3 * lam ** 2 * u * u
    dd = 2 * (6 + 6 * lam + 3 * lam ** 2)
    return n, d, dn, dd


@harness('C05', quick=[dict(), dict(tg=(300., 1000.), n=(3, 7))], thorough=[dict(tg=(0., 100.), n=(1, 2)), dict(tg=(600., 800.), n=(2, 5))])
def newton(S, tg=(500., 5000.), n=(2, 10)):
    """One refinement is a Newton step for: frames x probability to pass the threshold = frames that passed; pixels without
    photons have mean zero."""
    t, g = tg
    nobs, nfr = n
    lam0 = S.real('lam', 0.125, 2)
    one = S.np.array([[lam0, 1.]])
    try:
        out = pc.lam_newton_fit(np.array([[float(nobs), 0.]]), np.array([[float(nfr), 5.]]), t, g, one.copy(), 1, np.array([[True, True]]))
    except pc.PhotonCountException:
        return
    N, D, dN, dD = eps(lam0, t, g)
    a = math.exp(-t / g)
    # step * f' = f, multiplied out:  f = nfr a N/D - nobs,  f' = nfr a (dN D - N dD) / D^2
    f, df = (nfr * a * N - nobs * D) * D, nfr * a * (dN * D - N * dD)
    S.check(df > 0, 'probability grows with the mean')
    S.eq((lam0 - out[0, 0]) * df, f, 'Newton step', tol=1e-4)
    S.eq(out[0, 1], 0., 'no photons, no mean')


@harness('C05', quick=[dict()])
def negative(S):
    """A fit that ends below zero is refused, but only for the pixels of interest."""
    lam0 = S.real('lam', 1, 3)
    nobs = S.choice('nobs', [1., 30.])
    m = S.choice('m', [True, False])
    x = S.np.array([[lam0, 0.]])
    N, D, dN, dD = eps(lam0, 500., 5000.)
    a = math.exp(-.1)
    new = (lam0 * a * 100 * (dN * D - N * dD) - (100. * a * N - nobs * D) * D)
    S.assume(S.or_(new > 1e-3, new < -1e-3))
    try:
        pc.lam_newton_fit(np.array([[nobs, 0.]]), np.array([[100., 100.]]), 500., 5000., x, 1, np.array([[m, True]]))
        S.check(S.or_(new > 0, not m), 'negative mean refused')
    except pc.PhotonCountException:
        S.check(S.and_(new < 0, m), 'refused only if negative')


def frames(S, n, shape, vis='TDD', gain='EMGAIN_C', unset=-1., **ext):
    e = dict(EXPTIME=1., EMGAIN_C=G if gain == 'EMGAIN_C' else 7000., EMGAIN_A=G if gain == 'EMGAIN_A' else unset, KGAINPAR=7., RN=RN, ISPC=True)
    if gain == 'EMGAIN_M':
        e['EMGAIN_M'] = G
    e.update(ext)
    return dataset(S, n, shape=shape, lo=-1000., hi=1000., pri=dict(VISTYPE=vis), ext=e, filename_i=lambda i: 'CGI_%03d_L2a.fits' % i, data_level='L2a')


def lam(S, run):
    """stand-in for the photometric correction: an unknown function of (frames passed, frames usable) on the symbolic side"""
    if S.symbolic:
        from symnp import core

        def f(nobs, nfr, t, g, mask, niter=2):
            o = S.np.zeros(nobs.shape)
            for p in np.ndindex(nobs.shape):
                o[p] = core.r_uf('lam_%s_%s_%s' % (float(t), float(g), niter), nobs[p], nfr[p])
            return o
        S.setattr(pc, 'corr_photon_count', f)

        def var(g, L, T, N):
            o = S.np.zeros(L.shape)
            for p in np.ndindex(L.shape):
                o[p] = core.r_uf('var_%s_%s' % (float(T), float(g)), L[p], N[p])
            return o
        S.setattr(pc, 'varL23', var)
        return f
    return pc.corr_photon_count


def expected(S, f, s, t, niter):
    """per pixel: corrected mean of the unflagged frames, number of unflagged frames"""
    shape = s[0]['data'].shape
    nobs, nfr = S.np.zeros(shape), S.np.zeros(shape)
    for p in np.ndindex(shape):
        nobs[p] = sum(S.ite(S.and_(x['data'][p] > t, x['dq'][p] == 0), 1., 0.) for x in s)
        nfr[p] = sum(S.ite(x['dq'][p] == 0, 1., 0.) for x in s)
    with np.errstate(all='ignore'):
        return f(nobs, nfr, t, G, np.ones(shape, dtype=bool), niter), nfr


@harness('C05', quick=[dict(n=2), dict(n=3, bin=1, px=1), dict(n=3, bin=2, px=1), dict(n=1, gain='EMGAIN_A'), dict(n=1, gain='EMGAIN_M')],
         thorough=[dict(n=4, bin=2, px=1), dict(n=5, bin=3, px=1), dict(n=3)], stubs=['corr_photon_count, varL23: unknown functions of the counts'])
def illuminated(S, n=2, bin=None, px=2, gain='EMGAIN_C'):
    """Each bin of consecutive frames gives one frame: the corrected mean of its unflagged, thresholded frames, never below
    zero, flagged exactly where no frame was usable; left-over frames are ignored; the input is untouched."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    f = lam(S, None)
    T, niter = S.choice('T', [5., 4.5]), S.choice('niter', [2, 3])
    ds = frames(S, n, (1, px), gain=gain, unset=S.choice('unset', [-1., 0.]) if n < 3 else -1.)
    s0 = [snap(x) for x in ds.frames]
    out = pc.get_pc_mean(ds, T_factor=T, pc_ecount_max=1., niter=niter, bin_size=bin)
    k = bin or n
    S.same(len(out), n // k, 'one frame per bin')
    for b, o in enumerate(out.frames):
        mem = s0[b * k:(b + 1) * k]
        v, nfr = expected(S, f, mem, T * RN, niter)
        for p in np.ndindex(1, px):
            S.eq(S.ite(nfr[p] == 0, 0., o.data[p]), S.ite(nfr[p] == 0, 0., S.ite(v[p] < 0, 0., v[p])), 'corrected mean, not below zero', tol=1e-9)
            S.eq(o.dq[p], S.ite(nfr[p] == 0, 1, 0), 'flagged exactly where no frame is usable')
        S.same((o.ext_hdr['PCTHRESH'], o.ext_hdr['NUM_FR']), (T * RN, k), 'threshold and number of frames recorded')
        S.same(o.filename, 'CGI_%03d_L2b.fits' % (b * k + k - 1), 'file name')
        S.same(sorted(o.ext_hdr['FILE%d' % j] for j in range(o.ext_hdr['DRPNFILE'])), ['CGI_%03d_L2a.fits' % (b * k + j) for j in range(k)], 'parents recorded')
    for x, s in zip(ds.frames, s0):
        unchanged(S, x, s)
    coherent(S, ds, 'input: ')
    coherent(S, out)


def make_dark(S, nb, px, num=9, stat='photon-counted master dark', thr=5 * RN):
    src = data.Dataset([image(S, tag='src', shape=(1, px), dat=S.const(np.zeros((1, px))), err=S.const(np.zeros((1, 1, px))), dq=S.const(np.zeros((1, px), dtype=np.uint16)))])
    e = hdr(EXPTIME=1., EMGAIN_C=G, KGAINPAR=7., NUM_FR=num, DATATYPE='Dark')
    if stat:
        e['PC_STAT'] = stat
    if thr is not None:
        e['PCTHRESH'] = thr
    return data.Dark(S.array('dark', (nb, 1, px), 0, 1), pri_hdr=hdr(), ext_hdr=e, input_dataset=src, err=S.array('darkerr', (1, nb, 1, px), 0, 1), dq=S.bits('darkdq', (nb, 1, px)))


@harness('C05', quick=[dict(), dict(n=3, bin=1, nb=2, px=1)], thorough=[dict(n=4, bin=2, nb=2, px=1)], stubs=['corr_photon_count, varL23: unknown functions of the counts'])
def dark_subtracted(S, n=2, bin=None, nb=1, px=2):
    """With a photon-counted master dark each bin loses the matching dark slice (slices are used in turn), cut at zero; dark
    errors add in quadrature and dark flags are added."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    f = lam(S, None)
    ds = frames(S, n, (1, px))
    dark = make_dark(S, nb, px)
    s0, sd = [snap(x) for x in ds.frames], snap(dark)
    plain = pc.get_pc_mean(ds, T_factor=5., pc_ecount_max=1., bin_size=bin)
    pe = [x.err.copy() for x in plain.frames]
    out = pc.get_pc_mean(ds, pc_master_dark=dark, T_factor=5., pc_ecount_max=1., bin_size=bin)
    k = bin or n
    for b, o in enumerate(out.frames):
        v, nfr = expected(S, f, s0[b * k:(b + 1) * k], 5 * RN, 2)
        j = b % nb
        for p in np.ndindex(1, px):
            w = v[p] - sd['data'][j][p]
            S.eq(S.ite(nfr[p] == 0, 0., o.data[p]), S.ite(nfr[p] == 0, 0., S.ite(w < 0, 0., w)), 'dark subtracted, not below zero', tol=1e-9)
            S.eq(o.dq[p].astype(int), S.ite(nfr[p] == 0, sd['dq'][j][p].astype(int) | 1, sd['dq'][j][p].astype(int)), 'flags of the dark added')
            S.eq(S.ite(nfr[p] == 0, 0., o.err[0][p] ** 2), S.ite(nfr[p] == 0, 0., pe[b][0][p] ** 2 + sd['err'][0][j][p] ** 2), 'dark error adds in quadrature', tol=1e-6)
    for x, s in zip(ds.frames, s0):
        unchanged(S, x, s)
    unchanged(S, dark, sd, 'dark')


@harness('C05', quick=[dict(), dict(n=3, bin=1), dict(n=3, bin=2)], stubs=['corr_photon_count, varL23: unknown functions of the counts'])
def master_dark(S, n=2, bin=None, px=1):
    """Dark frames give a master dark with one slice per bin, labelled with threshold, number of frames and its inputs."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    f = lam(S, None)
    ds = frames(S, n, (1, px), vis='DARK')
    s0 = [snap(x) for x in ds.frames]
    out = pc.get_pc_mean(ds, T_factor=5., pc_ecount_max=1., inputmode='darks', bin_size=bin)
    k = bin or n
    nb = n // k
    S.same((type(out).__name__, tuple(out.data.shape)), ('Dark', (nb, 1, px)), 'one slice per bin')
    for b in range(nb):
        v, nfr = expected(S, f, s0[b * k:(b + 1) * k], 5 * RN, 2)
        for p in np.ndindex(1, px):
            S.eq(S.ite(nfr[p] == 0, 0., out.data[b][p]), S.ite(nfr[p] == 0, 0., S.ite(v[p] < 0, 0., v[p])), 'corrected mean, not below zero', tol=1e-9)
            S.eq(out.dq[b][p], S.ite(nfr[p] == 0, 1, 0), 'flagged exactly where no frame is usable')
    e = out.ext_hdr
    S.same((e['PC_STAT'], e['PCTHRESH'], e['NUM_FR'], e['DATATYPE']), ('photon-counted master dark', 5 * RN, k, 'Dark'), 'label')
    S.same((e['NAXIS1'], e['NAXIS2']), (px, 1), 'size recorded')
    S.same(sorted(e['FILE%d' % j] for j in range(e['DRPNFILE'])), ['CGI_%03d_L2a.fits' % j for j in range(nb * k)], 'inputs recorded: the frames used')
    for x, s in zip(ds.frames, s0):
        unchanged(S, x, s)
    coherent(S, ds, 'input: ')


@harness('C05', quick=[dict()], stubs=['corr_photon_count, varL23: unknown functions of the counts'])
def refused(S):
    """Mixed or analog frames, wrong modes, useless thresholds, too much light, unsuitable darks and bad bin sizes are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    lam(S, None)
    k = S.choice('k', ['exptime', 'gain', 'kgain', 'rn', 'vis', 'analog', 'mode1', 'mode2', 'thresh', 'light', 'dark_dark', 'stat', 'nostat', 'pcthresh', 'few', 'notdark', 'bin', 'bin0', 'niter', 'negative'])
    kw = dict(T_factor=5., pc_ecount_max=1.)
    if k not in ('thresh', 'light'):
        kw['safemode'] = S.choice('safe', [True, False])
    e, vis = {}, 'DARK' if k in ('mode1', 'dark_dark') else 'TDD'
    key = dict(exptime='EXPTIME', gain='EMGAIN_C', kgain='KGAINPAR', rn='RN').get(k)
    if k == 'analog':
        e['ISPC'] = False
    ds = frames(S, 2, (1, 1), vis=vis, **e)
    if key:
        v = S.real('v', 1, 10000)
        S.assume(v != ds[0].ext_hdr[key])
        ds[1].ext_hdr[key] = v
    elif k == 'vis':
        ds[1].pri_hdr['VISTYPE'] = 'PUPILIMG'
    elif k == 'mode2':
        kw['inputmode'] = 'darks'
    elif k == 'thresh':
        kw['T_factor'] = S.real('T', 50, 100)
    elif k == 'negative':
        kw['T_factor'] = S.real('T', -10, -1)
    elif k == 'light':
        kw['pc_ecount_max'] = S.real('mx', -1, 1)
        S.assume((ds[0].data[0, 0] + ds[1].data[0, 0]) / 2 / G > kw['pc_ecount_max'] + 1e-6)
    elif k == 'dark_dark':
        kw.update(inputmode='darks', pc_master_dark=make_dark(S, 1, 1))
    elif k in ('stat', 'nostat'):
        kw['pc_master_dark'] = make_dark(S, 1, 1, stat='analog' if k == 'stat' else None)
    elif k == 'pcthresh':
        t = S.real('t', 0, 1000)
        S.assume(t != 500)
        kw['pc_master_dark'] = make_dark(S, 1, 1, thr=t)
    elif k == 'few':
        kw['pc_master_dark'] = make_dark(S, 1, 1, num=S.int('num', 0, 1))
    elif k == 'notdark':
        kw['pc_master_dark'] = image(S, tag='no', shape=(1, 1, 1), ext=dict(PC_STAT='photon-counted master dark', PCTHRESH=500., NUM_FR=9))
    elif k == 'bin':
        kw['bin_size'] = S.int('bin', 3, 9)
    elif k == 'bin0':
        kw['bin_size'] = S.choice('b', [0, -1, 1.5])
    elif k == 'niter':
        kw['niter'] = S.choice('ni', [0, -1, 1.5])
    S.raises(Exception, lambda: pc.get_pc_mean(ds, **kw), 'unsuitable input refused (%s)' % k)


@harness('C05', quick=[dict(), dict(tg=(300., 1000.), niter=2)], thorough=[dict(niter=3)])
def composed(S, tg=(500., 5000.), niter=1):
    """The photometric correction is the first estimate followed by the requested number of refinements, each of which
    starts from the one before."""
    t, g = tg
    nobs, nfr, m = S.array('nobs', (1, 2), 1, 10), np.array([[90., 100.]]), np.array([[True, False]])
    nobs[0, 0] = 7.
    if niter > 1:
        nobs[0, 1] = S.choice('k', [1., 4., 9.])
    n0 = nobs.copy()
    try:
        l = pc.calc_lam_approx(nobs, nfr, t, g)
        for _ in range(niter):
            l = pc.lam_newton_fit(nobs, nfr, t, g, l, 1, m)
        out = pc.corr_photon_count(nobs, nfr, t, g, m, niter)
    except pc.PhotonCountException:
        return
    for p in np.ndindex(1, 2):
        S.eq(out[p], l[p], 'estimate and refinements', tol=1e-6)
    S.eq(nobs, n0, 'counts unchanged')


@harness('C05', quick=[dict(), dict(dark=True)], stubs=['corr_photon_count, varL23: unknown functions of the counts'])
def error(S, dark=False):
    """The error is the larger distance of the mean from the means of the frames shifted up and down by their errors, each
    widened by the photon-counting variance; a master dark's error adds in quadrature."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    f = lam(S, None)
    ds = frames(S, 2, (1, 1))
    for x in ds.frames:
        S.assume(x.dq[0, 0] == 0)
    s0 = [snap(x) for x in ds.frames]
    T = 5 * RN
    one = np.ones((1, 1), dtype=bool)

    def mean(sign):
        c = S.np.zeros((1, 1))
        c[0, 0] = sum(S.ite(x['data'][0, 0] + sign * x['err'][0, 0, 0] > T, 1., 0.) for x in s0)
        return f(c, S.np.array([[2.]]) if not S.symbolic else S.const(np.array([[2.]])), T, G, one, 2)
    m, u, l = mean(0), mean(1), mean(-1)
    v = pc.varL23(G, m, T, S.const(np.array([[2.]])) if S.symbolic else np.array([[2.]]))[0, 0]
    d = make_dark(S, 1, 1) if dark else None
    out = pc.get_pc_mean(ds, pc_master_dark=d, T_factor=5., pc_ecount_max=1.)
    up, low = u[0, 0] + v - m[0, 0], m[0, 0] - l[0, 0] + v
    w = S.ite(up > low, up, low)
    got = out[0].err[0][0, 0]
    S.eq(got ** 2, w ** 2 + (d.err[0][0][0, 0] ** 2 if dark else 0.), 'error', tol=1e-6)


@harness('C05', quick=[dict()], stubs=['corr_photon_count, varL23: unknown functions of the counts'])
def region(S):
    """The amount of light is judged on the pixels of interest only; outside safe mode too much light and a useless
    threshold only warn."""
    from astropy.io import fits
    tracking(S, False)
    lam(S, None)
    name = os.path.join(S.scratch(), 'mask.fits')
    m = S.choice('m', [[0, 1], [1, 0], [0, 0]])
    fits.PrimaryHDU(np.array([m])).writeto(name)
    ds = frames(S, 2, (1, 2))
    mx, safe = .05, S.choice('safe', [True, False])
    use = [i for i in range(2) if m[i] == 0]
    light = sum(x.data[0, i] for x in ds.frames for i in use) / G / 2 / len(use)
    S.assume(S.or_(light > mx + 1e-6, light < mx - 1e-6))
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            pc.get_pc_mean(ds, T_factor=5., pc_ecount_max=mx, mask_filepath=name, safemode=safe)
        warned = any('pc_ecount_max' in str(w.message) for w in ws)
        S.check(S.or_(light < mx, S.and_(not safe, warned)), 'too much light refused, or warned about outside safe mode')
        S.check(S.or_(light > mx, not warned), 'no false warning')
    except Exception as x:
        if 'pc_ecount_max' not in str(x):
            raise
        S.check(S.and_(light > mx, safe), 'refused only for too much light')
    if not safe:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            pc.get_pc_mean(ds, T_factor=60., pc_ecount_max=100., safemode=False)
        S.check(any('em_gain' in str(w.message) for w in ws), 'useless threshold warned about')


@harness('C05', quick=[dict(), dict(T=300., g=1000., N=3.)], thorough=[dict(T=0., g=100., N=1.), dict(T=600., g=800., N=5.)])
def variance(S, T=500., g=5000., N=10.):
    """The variance of the corrected mean is the binomial variance of the number of passing frames times the squared slope of
    the inverse of the passing probability, expanded to third order."""
    L = S.real('L', 0.125, 1)
    a, u = math.exp(-T / g), T / g
    n, d, _, _ = eps(L, T, g)
    got = pc.varL23(g, S.np.array([[L]]), T, S.const(np.array([[N]])) if S.symbolic else np.array([[N]]))[0, 0]
    p = a * n / d
    # inverse of  p/a = L - (1-u)/2 L^2 + (1/6 - u/3 + u^2/12) L^3 + ...
    y = p / a
    slope = (1 + (1 - u) * y + (1 - 2 * u + 1.25 * u * u) * y * y) / a / N
    S.eq(got, N * p * (1 - p) * slope ** 2, 'variance', tol=1e-6)
