"""Cosmic ray and saturation flagging."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from .geom import small
from . import stubs
from corgidrp.l1_to_l2a import detect_cosmic_rays


OTHER = np.uint16(0xffff ^ (32 | 128))


def params(S, pp, em, k):
    return SimpleNamespace(params=dict(KGAINPAR=k, FWC_PP_E=pp, FWC_EM_E=em), filename='params.fits', get_hash=lambda: '0')


def gainhdr(S, i, kind):
    """headers with commanded / applied / measured gain present"""
    c = S.real('gc%d' % i, 1, 1000)
    a = S.real('ga%d' % i, -1, 1000)
    h = dict(EMGAIN_C=c, EMGAIN_A=a)
    g = S.ite(a > 0, a, c)
    if kind == 'M':
        g = h['EMGAIN_M'] = S.real('gm%d' % i, 1, 1000)
    return h, g


@harness('L02', quick=[dict(n=1), dict(n=2, cols=1)], thorough=[dict(n=2), dict(n=3, cols=1)])
def saturation(S, n=1, cols=2):
    """The saturation flag is set exactly where the data reach the threshold fraction of the smaller of the two full
    wells; nothing else is lost or set when no cosmic plateau can exist."""
    stubs.standard(S)
    tracking(S, False)
    hs, gs = zip(*[gainhdr(S, i, S.choice('kind%d' % i, ['A', 'M'])) for i in range(n)])
    pp, em, k0 = S.choice('pp', [90000., 512.] if n == 1 else [512.]), S.choice('em', [65536., 1024.]), 8.
    sat = S.choice('sat', [0.5, 0.25] if n == 1 else [0.5])
    ds = dataset(S, n, shape=(1, cols), ext_i=lambda i: dict(hs[i], ARRTYPE='SCI'))
    s0 = [snap(f) for f in ds.frames]
    usek = S.choice('usek', [True, False]) if n == 1 else True
    kv = 4.
    k = kv if usek else k0
    out = detect_cosmic_rays(ds, params(S, pp, em, k0), SimpleNamespace(value=kv) if usek else None, sat_thresh=sat, plat_thresh=sat,
                             cosm_box=0, cosm_tail=0)
    for i in range(n):
        gp = gs[i] * pp
        lim = sat * S.ite(gp < em, gp, em) / k
        for c in range(cols):
            x = s0[i]['data'][0, c]
            q0, q1 = s0[i]['dq'][0, c], out.all_dq[i, 0, c]
            S.eq((q1 & 32) != 0, S.or_((q0 & 32) != 0, x >= lim), 'saturation flag exactly where saturated')
            S.eq(q1 & OTHER, q0 & OTHER, 'other flags untouched')
            S.check(S.implies(q0 & 128 != 0, q1 & 128 != 0), 'existing cosmic flag kept')
            S.check(S.implies(S.and_(q0 & 128 == 0, *[s0[i]['data'][0, b] < sat * em / k for b in range(cols)]), q1 & 128 == 0),
                    'no cosmic flag in a row below saturation')
        S.eq(out.frames[i].ext_hdr['SAT_DN'], lim, 'threshold recorded')
        S.eq(out.all_data[i], s0[i]['data'], 'data untouched')
        S.eq(out.all_err[i], s0[i]['err'], 'err untouched')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)


@harness('L02', quick=[dict(shape=(1, 4), filt=1, box=1, tail=1), dict(shape=(2, 2), filt=1, box=1, tail=0), dict(shape=(1, 4), filt=2, box=1, tail=1)],
         thorough=[dict(shape=(3, 2), filt=1, box=1, tail=0), dict(shape=(1, 5), filt=2, box=1, tail=1), dict(shape=(1, 5), filt=1, box=1, tail=2), dict(shape=(2, 3), filt=1, box=1, tail=1), dict(shape=(1, 6), filt=2, box=2, tail=0),
                   dict(shape=(1, 5), filt=3, box=0, tail=2), dict(shape=(3, 3), filt=2, box=1, tail=1)])
def plateaus(S, shape=(1, 4), filt=1, box=1, tail=1):
    """Every plateau of at least the minimum length is flagged from its start through its tail, with the box around its
    head; flags never appear away from saturated rows or left of the plateau box."""
    stubs.standard(S)
    tracking(S, False)
    s = 70.
    p = S.choice('p', [70., 50.])
    R, C = shape = tuple(shape)
    d = S.array('d', shape, 0, 100)
    q = S.bits('q', shape, np.uint16) if R * C <= 4 else S.const(np.zeros(shape, dtype=int))
    im = image(S, shape=shape, dat=d, dq=q, err=S.const(np.zeros((1,) + shape)), ext=dict(ARRTYPE='SCI', EMGAIN_C=1., EMGAIN_A=1.))
    d0, q0 = im.data.copy(), im.dq.copy()
    out = detect_cosmic_rays(data.Dataset([im]), params(S, 1000., 100., 1.), sat_thresh=0.7, plat_thresh=p / 100, cosm_filter=filt,
                             cosm_box=box, cosm_tail=tail)
    m = [[(out.all_dq[0, r, c] & 128) != 0 for c in range(C)] for r in range(R)]
    was = [[(q0[r, c] & 128) != 0 for c in range(C)] for r in range(R)]
    for r in range(R):
        for b in range(C - filt + 1):
            # a plateau whose head is b: run of >= filt saturated pixels reached from b without dropping below p
            for e in range(b, C - filt + 1):
                run = [d0[r, c] >= s for c in range(e, e + filt)]
                head = [d0[r, c] >= p for c in range(b, e)] + ([d0[r, b - 1] < p] if b > 0 else [])
                pl = S.and_(*(run + head))
                for c in range(b, min(C, b + filt + tail + 1)):
                    S.check(S.implies(pl, m[r][c]), 'plateau and tail flagged')
                for rr in range(max(0, r - box), min(R, r + box + 1)):
                    for c in range(max(0, b - box), min(C, b + box + 1)):
                        S.check(S.implies(pl, m[rr][c]), 'box around the head flagged')
        for c in range(C):
            rows = range(max(0, r - box), min(R, r + box + 1))
            quiet = S.and_(*[d0[rr, cc] < s for rr in rows for cc in range(C)])
            S.check(S.implies(S.and_(quiet, S.not_(was[r][c])), S.not_(m[r][c])), 'no flag away from saturated rows')
            left = S.and_(*[d0[rr, cc] < p for rr in rows for cc in range(0, min(C, c + box + 1))])
            S.check(S.implies(S.and_(left, S.not_(was[r][c])), S.not_(m[r][c])), 'no flag left of the plateau box')
            S.check(S.implies(was[r][c], m[r][c]), 'existing flag kept')


@harness('L02', quick=[dict()])
def full_mode(S):
    """In full-frame mode a plateau starting outside the image area is not flagged as a cosmic, one inside is."""
    stubs.standard(S)
    tracking(S, False)
    g = small(rows=3, cols=5, im=(1, 2), im0=(1, 2), pre_cols=2, st=0, end=2)
    d = S.const(np.zeros((3, 5)))
    r, c = S.choice('pos', [(0, 2), (1, 0), (1, 2), (1, 3), (0, 0)])
    v = S.real('v', 0, 100)
    d[r, c] = v
    im = image(S, shape=(3, 5), dat=d, dq=S.const(np.zeros((3, 5), dtype=int)), err=S.const(np.zeros((1, 3, 5))), ext=dict(ARRTYPE='SCI', EMGAIN_C=1., EMGAIN_A=1.))
    out = detect_cosmic_rays(data.Dataset([im]), params(S, 1000., 100., 1.), sat_thresh=0.7, plat_thresh=0.7, cosm_filter=1,
                             cosm_box=0, cosm_tail=0, mode='full', detector_regions=g)
    hit = (out.all_dq[0] & 128) != 0
    if r == 1 and c >= 2:
        S.eq(hit[r, c], v >= 70., 'cosmic inside the image area flagged')
    elif c < 2 and r == 1:
        S.check(S.not_(hit[r, c]), 'hit in the prescan not flagged as cosmic')
    else:
        for rr, cc in np.ndindex(3, 5):
            S.check(S.not_(hit[rr, cc]), 'hit in a row outside the image not flagged as cosmic')
    S.eq((out.all_dq[0, r, c] & 32) != 0, v >= 70., 'saturation flagged everywhere')
