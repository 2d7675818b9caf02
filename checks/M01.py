"""Dark subtraction (traditional and synthesised darks)."""
import os
import re

import numpy as np

from symnp.reg import harness
from .common import *
from .geom import small
from corgidrp.l2a_to_l2b import dark_subtraction

KEYS = ('EXPTIME', 'EMGAIN_C', 'KGAINPAR')


def make_dark(S, shape, t, g, k, stat=None, layers=1):
    e = hdr(DATALVL='CAL', DATATYPE='Dark', EXPTIME=t, EMGAIN_C=g, KGAINPAR=k)
    if stat is not None:
        e['PC_STAT'] = stat
    p = hdr(TELESCOP='ROMAN')
    src = image(S, tag='darksrc', shape=shape, dat=S.const(np.zeros(shape)), err=S.const(np.zeros((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)))
    d = data.Dark(S.array('dark', shape), p, e, data.Dataset([src]), S.array('darkerr', shape, 0), S.bits('darkdq', shape), hdr(BUNIT='e'))
    return d


@harness('M01', quick=[dict(n=1), dict(n=2), dict(n=2, layers=2, shape=(1, 1))], thorough=[dict(n=3), dict(n=2, layers=2), dict(n=2, shape=(3, 2))])
def subtraction(S, n=2, layers=1, shape=(2, 2)):
    """A matching master dark is subtracted pixel by pixel; its error adds in quadrature, its flags are added; a dark of
    other exposure time, gain or k gain is refused."""
    shape = tuple(shape)
    track = S.choice('track', [False, True])
    tracking(S, track)
    t, g, k = S.real('t', 0, 100), S.real('g', 1, 1000), S.real('k', 1, 20)
    mis = S.choice('mis', [None, 0, 1, 2])
    dk = [t, g, k]
    if mis is not None:
        dk[mis] = S.real('other', 0, 1000)
        S.assume(dk[mis] != [t, g, k][mis])
    ds = dataset(S, n, shape=shape, layers=layers if track else 1, ext=dict(EXPTIME=t, EMGAIN_C=g, KGAINPAR=k), nan=True)
    dark = make_dark(S, shape, *dk)
    s0, sd = [snap(f) for f in ds.frames], snap(dark)
    if mis is not None:
        S.raises(Exception, lambda: dark_subtraction(ds, dark), 'dark taken under other conditions refused')
        for i in range(n):
            unchanged(S, ds.frames[i], s0[i])
        return
    out = dark_subtraction(ds, dark)
    for i in range(n):
        S.eq(out.all_data[i], s0[i]['data'] - sd['data'], 'data minus dark')
        S.eq(out.all_err[i, 0] ** 2, s0[i]['err'][0] ** 2 + sd['err'][0] ** 2, 'dark error adds in quadrature')
        S.eq(out.all_dq[i], s0[i]['dq'] | sd['dq'], 'flags of the dark added')
        for l in range(1, layers if track else 1):
            S.eq(out.all_err[i, l], s0[i]['err'][l], 'individual error layers kept')
        S.same(out.frames[i].ext_hdr['BUNIT'].lower(), 'photoelectrons', 'unit recorded')
        S.check(str(sd['filename']) in history(out.frames[i].ext_hdr), 'dark recorded in history')
        unchanged(S, ds.frames[i], s0[i])
    unchanged(S, dark, sd, 'dark')
    coherent(S, ds, 'input: ')
    coherent(S, out)


@harness('M01', quick=[dict()])
def refusals(S):
    """Datasets mixing exposure times or gains, photon-counted darks and objects that are not darks are refused."""
    tracking(S, False)
    kind = S.choice('kind', ['mixed', 'pc', 'type', 'analog'])
    v = [S.real('v%d' % i, 1, 100) for i in range(2)]
    if kind == 'mixed':
        key = S.choice('key', KEYS)
        S.assume(v[0] != v[1])
        ds = dataset(S, 2, ext_i=lambda i: {**dict(EXPTIME=1., EMGAIN_C=1., KGAINPAR=1.), key: v[i]})
        S.raises(Exception, lambda: dark_subtraction(ds, make_dark(S, (2, 2), 1., 1., 1.)), 'mixed dataset refused')
        return
    ds = dataset(S, 1, ext=dict(EXPTIME=v[0], EMGAIN_C=1., KGAINPAR=1.))
    if kind == 'pc':
        S.raises(Exception, lambda: dark_subtraction(ds, make_dark(S, (2, 2), v[0], 1., 1., 'photon-counted master dark')), 'photon-counted dark refused')
    elif kind == 'type':
        S.raises(Exception, lambda: dark_subtraction(ds, ds.frames[0]), 'not a dark refused')
    else:
        dk = make_dark(S, (2, 2), v[0], 1., 1., 'analog master dark')
        d0 = ds.all_data.copy()
        S.eq(dark_subtraction(ds, dk).all_data[0], d0[0] - dk.data, 'analog dark accepted')


def noise_maps(S, R, C):
    d = S.array('map', (3, R, C), 0, 100)
    src = image(S, tag='nmsrc', shape=(2, 2), dat=S.const(np.zeros((2, 2))), err=S.const(np.zeros((1, 2, 2))), dq=S.const(np.zeros((2, 2), dtype=np.uint16)))
    e = std_ext((3, R, C), DATALVL='CAL', DATATYPE='DetectorNoiseMaps', B_O=0., B_O_ERR=0., BUNIT='detected EM electrons')
    return data.DetectorNoiseMaps(d, hdr(TELESCOP='ROMAN'), e, data.Dataset([src]), S.array('maperr', (3, R, C), 0, 100), S.bits('mapdq', (3, R, C)), hdr(BUNIT='x'))


@harness('M01', quick=[dict(full=False), dict(full=True), dict(full=False, n=2)], thorough=[dict(full=True, n=3)])
def synthesised(S, full=False, n=1):
    """A synthesised dark is FPN/g + t*D + CIC with its error in quadrature and the flags of all three maps, cut to the
    section of the frames; g is the gain that applies to the frames."""
    tracking(S, False)
    geo = small(rows=3, cols=4, im=(1, 2), im0=(1, 2), pre_cols=2, st=0, end=2)
    shape = (3, 4) if full else (1, 2)
    kind = S.choice('gain', ['M', 'A', 'C'])
    t, g = S.choice('t', [0.5, 100.]), S.choice('g', [1., 8.])
    ext = dict(EXPTIME=t, KGAINPAR=1., EMGAIN_C=S.real('gc', 1, 100), EMGAIN_A=S.real('ga', 1, 100))
    if kind == 'C':
        ext.update(EMGAIN_C=g, EMGAIN_A=-1.)
    elif kind == 'A':
        ext.update(EMGAIN_A=g)
    else:
        ext.update(EMGAIN_M=g)
    ds = dataset(S, n, shape=shape, ext=ext)
    nm = noise_maps(S, 3, 4)
    s0, sn = [snap(f) for f in ds.frames], snap(nm)
    where = S.choice('where', [None, 'kept'])
    S.scratch()
    os.mkdir('kept')
    out = dark_subtraction(ds, nm, detector_regions=geo, outputdir=where)
    sl = (slice(0, 3), slice(0, 4)) if full else (slice(1, 2), slice(2, 4))
    m, me, mq = (sn['data'][(slice(None),) + sl], sn['err'][0][(slice(None),) + sl], sn['dq'][(slice(None),) + sl])
    for i in range(n):
        S.eq(out.all_data[i], s0[i]['data'] - (m[0] / g + t * m[2] + m[1]), 'data minus synthesised dark')
        S.eq(out.all_err[i, 0] ** 2, s0[i]['err'][0] ** 2 + me[0] ** 2 / g ** 2 + (t * me[2]) ** 2 + me[1] ** 2, 'errors of the noise maps in quadrature', tol=1e-9)
        S.eq(out.all_dq[i], s0[i]['dq'] | mq[0] | mq[1] | mq[2], 'flags of the noise maps added')
        unchanged(S, ds.frames[i], s0[i])
    unchanged(S, nm, sn, 'noise maps')
    name = re.findall(r'[\w-]+\.fits', ''.join(str(h) for h in out.frames[0].ext_hdr['HISTORY']))[-1]
    kept = data.Dark(os.path.join(where or '.', name))
    S.eq(kept.data, m[0] / g + t * m[2] + m[1], 'the dark used is kept on disk')
    S.eq(kept.dq, mq[0] | mq[1] | mq[2], 'flags of the dark kept')
