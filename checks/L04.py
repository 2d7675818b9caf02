"""Data-level promotion: L1 -> L2a -> L2b -> L3 -> L4 -> TDA."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l1_to_l2a import update_to_l2a
from corgidrp.l2a_to_l2b import update_to_l2b
from corgidrp.l2b_to_l3 import update_to_l3
from corgidrp.l3_to_l4 import update_to_l4
from corgidrp.l4_to_tda import update_to_tda

LEVELS = ['L1', 'L2a', 'L2b', 'L3', 'L4', 'TDA']
MARK = {'L1': '_L1_', 'L2a': '_L2a', 'L2b': '_L2b', 'L3': '_L3_', 'L4': '_L4_', 'TDA': '_TDA_'}
ct, fl = SimpleNamespace(filename='ct_cal.fits'), SimpleNamespace(filename='some/dir/fluxcal.fits')
STEPS = [update_to_l2a, update_to_l2b, update_to_l3, lambda d: update_to_l4(d, ct, fl), update_to_tda]


@harness('L04', quick=[dict(k=0), dict(k=1), dict(k=2), dict(k=3), dict(k=4)], thorough=[dict(k=k, n=3) for k in range(5)])
def promote(S, k=0, n=2):
    """Only frames that are all at the previous level are promoted; level, file name and history change in every frame and
    nothing else does; any other frame in the dataset makes the step refuse without touching anything."""
    tracking(S, False)
    src, dst = LEVELS[k], LEVELS[k + 1]
    lev = [S.choice('lev%d' % i, [src] + ([l for l in LEVELS + ['CAL', ''] if l != src] if i == n - 1 else [])) for i in range(n)]
    name = lambda i: 'CGI_0200001%d%sx.fits' % (i, MARK[src]) if src in ('L2a', 'L2b') else 'CGI_0200001%d%sx.fits' % (i, MARK[src])
    ds = dataset(S, n, shape=(1, 2), nan=True, ext_i=lambda i: dict(DATALVL=lev[i], FSMX=S.real('h%d' % i)), filename_i=name)
    s0 = [snap(f) for f in ds.frames]
    bad = S.truth(S.or_(*[l != src for l in lev]))
    try:
        out = STEPS[k](ds)
    except ValueError:
        S.check(bad, 'promotion refused only for other levels')
        for i in range(n):
            unchanged(S, ds.frames[i], s0[i])
        return
    S.check(not bad, 'other levels refused')
    if bad:
        return
    S.same(len(out.frames), n, 'all frames promoted')
    for i, f in enumerate(out.frames):
        S.same(f.ext_hdr['DATALVL'], dst, 'data level recorded')
        S.same(f.filename, s0[i]['filename'].replace(MARK[src], MARK[dst], 1), 'file name carries the new level')
        S.eq(f.data, s0[i]['data'], 'data kept')
        S.eq(f.err, s0[i]['err'], 'errors kept')
        S.eq(f.dq, s0[i]['dq'], 'flags kept')
        S.eq(out.all_data[i], s0[i]['data'], 'cube kept')
        ig = ('DATALVL', 'HISTORY', 'CTCALFN', 'FLXCALFN', 'DRPCTIME')
        hsame(S, hdict(f.ext_hdr), s0[i]['ext'], 'extension header kept', ignore=ig)
        hsame(S, hdict(f.pri_hdr), s0[i]['pri'], 'primary header kept')
        S.check(('Updated Data Level to ' + dst) in history(f.ext_hdr), 'history')
        if dst == 'L4':
            S.same((f.ext_hdr['CTCALFN'], f.ext_hdr['FLXCALFN']), ('ct_cal.fits', 'fluxcal.fits'), 'calibrations recorded')
        S.same(len(out.frames), n, 'frames')
        unchanged(S, ds.frames[i], s0[i])


@harness('L04', quick=[dict()])
def chain(S):
    """The whole chain L1 to TDA keeps pixels, errors and flags, names every level in the history and ends at TDA."""
    tracking(S, False)
    ds = dataset(S, 2, shape=(1, 2), nan=True, filename_i=lambda i: 'CGI_%d_L1_L1_.fits' % i)
    s0 = [snap(f) for f in ds.frames]
    d = ds
    for st in STEPS:
        d = st(d)
    for i, f in enumerate(d.frames):
        S.same((f.ext_hdr['DATALVL'], f.pri_hdr.get('TELESCOP')), ('TDA', 'ROMAN'), 'final level')
        h = history(f.ext_hdr)
        S.check(all('Updated Data Level to ' + l in h for l in LEVELS[1:]), 'each level recorded once')
        S.same([h.count('Updated Data Level to ' + l) for l in LEVELS[1:]], [1] * 5, 'each level recorded exactly once')
        S.eq(f.data, s0[i]['data'], 'data kept')
        S.eq(f.err, s0[i]['err'], 'errors kept')
        S.eq(f.dq, s0[i]['dq'], 'flags kept')
        unchanged(S, ds.frames[i], s0[i])
