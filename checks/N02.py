"""Cropping."""
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l3_to_l4 import crop


@harness('N02', quick=[dict(), dict(n=1, cube=True, ysym=True), dict(n=1, given=True, ysym=True, hdrs=False, layers=2)],
         thorough=[dict(n=2, rows=4, cols=5), dict(n=1, ysym=True, rows=4, cols=5), dict(n=3, hdrs=False), dict(n=2, given=True, rows=5, hdrs=False), dict(n=1, size=(4, 2), rows=5, cols=6, given=True, ysym=True)])
def window(S, n=2, rows=3, cols=4, size=2, cube=False, given=False, layers=1, ysym=False, hdrs=True):
    """Each frame is cut to the requested window around the requested centre, or its own star location, to the nearest pixel
    corner; data, errors and flags are the pixels of that window; star location, reference pixel and detector offset move
    with it; windows that leave the frame are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    size = tuple(size) if isinstance(size, (list, tuple)) else size
    sx, sy = (size, size) if isinstance(size, int) else size
    shape = ((2,) if cube else ()) + (rows, cols)
    det = S.choice('det', [None, 3]) if hdrs else 3
    wcs = S.choice('wcs', [None, 'pri', 'ext']) if hdrs and n == 1 else 'ext'
    y = lambda k, i: S.real('%s%d' % (k, i), -1, rows) if ysym else [1.25, 0.5, 1.5][i]
    star = [(S.real('sx%d' % i, -1, cols), y('sy', i)) for i in range(n)]
    def ext(i):
        e = dict(STARLOCX=star[i][0], STARLOCY=star[i][1])
        if det is not None:
            e.update(DETPIX0X=det, DETPIX0Y=det + 1)
        if wcs == 'ext':
            e.update(CRPIX1=10.5, CRPIX2=7.25)
        return e
    ds = dataset(S, n, shape=shape, nan=True, ext_i=ext, pri=dict(CRPIX1=10.5, CRPIX2=7.25) if wcs == 'pri' else {}, filename_i=lambda i: 'f%d.fits' % i)
    s0 = [snap(f) for f in ds.frames]
    if given:
        c = (S.real('cx', -1, cols), y('cy', 0))
        centre = [c] * n
        kw = dict(centerxy=list(c))
    else:
        centre, kw = star, {}
    try:
        out = crop(ds, sizexy=size if isinstance(size, int) else list(size), **kw)
    except ValueError:
        # refused: some window, to the nearest corner, leaves its frame
        S.check(S.or_(*[S.or_(cx < sx / 2 - 0.5, cx > cols - sx / 2 - 0.5, cy < sy / 2 - 0.5, cy > rows - sy / 2 - 0.5) for cx, cy in centre]), 'refused only for windows leaving the frame')
        for i in range(n):
            unchanged(S, ds.frames[i], s0[i])
        return
    S.same(len(out.frames), n, 'all frames kept')
    for i, f in enumerate(out.frames):
        cx, cy = centre[i]
        S.same(tuple(f.data.shape), shape[:-2] + (sy, sx), 'window size')
        e = f.ext_hdr
        x1, y1 = e['DETPIX0X'] - (det or 0), e['DETPIX0Y'] - (det + 1 if det else 0)
        # the window whose corner is the recorded offset is centred within half a pixel of the request
        S.check(S.and_(x1 + sx / 2 - 0.5 - cx <= 0.5, cx - (x1 + sx / 2 - 0.5) <= 0.5), 'centred on the requested column')
        S.check(S.and_(y1 + sy / 2 - 0.5 - cy <= 0.5, cy - (y1 + sy / 2 - 0.5) <= 0.5), 'centred on the requested row')
        xi = [k for k in range(cols) if S.truth(x1 == k)]
        yi = [k for k in range(rows) if S.truth(y1 == k)]
        S.check(len(xi) == 1 and len(yi) == 1 and xi[0] + sx <= cols and yi[0] + sy <= rows, 'window inside the frame')
        if not xi or not yi:
            continue
        w = (Ellipsis, slice(yi[0], yi[0] + sy), slice(xi[0], xi[0] + sx))
        S.eq(f.data, s0[i]['data'][w], 'data of the window')
        S.eq(f.err, s0[i]['err'][w], 'errors of the window')
        S.eq(f.dq, s0[i]['dq'][w], 'flags of the window')
        S.eq(e['STARLOCX'], star[i][0] - xi[0], 'star location moves with the window', tol=1e-9)
        S.eq(e['STARLOCY'], star[i][1] - yi[0], 'star location moves with the window', tol=1e-9)
        S.same((e['NAXIS1'], e['NAXIS2']), (sx, sy), 'header size')
        if wcs:
            h = f.pri_hdr if wcs == 'pri' else e
            S.same((h['CRPIX1'], h['CRPIX2']), (10.5 - xi[0], 7.25 - yi[0]), 'reference pixel moves with the window')
        S.same(f.filename, 'f%d.fits' % i, 'file name kept')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)


@harness('N02', quick=[dict()])
def defaults(S):
    """Without a size the field of view decides (only NFOV is known, 60 pixels); odd sizes and missing star locations are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    ds = dataset(S, 1, shape=(2, 2), ext=dict(LSAMNAME=S.choice('lsam', ['NFOV', 'WFOV', 'SPEC'])))
    k = S.choice('kind', ['odd', 'nostar', 'nosize'])
    if k == 'odd':
        S.raises(UserWarning, lambda: crop(ds, sizexy=S.choice('sz', [1, 3, [2, 3]]), centerxy=[0.5, 0.5]), 'odd size refused')
    elif k == 'nostar':
        S.raises(ValueError, lambda: crop(ds, sizexy=2), 'missing star location refused')
    else:
        S.raises(ValueError if ds.frames[0].ext_hdr['LSAMNAME'] == 'NFOV' else UserWarning, lambda: crop(ds, centerxy=[0.5, 0.5]), 'default size only for NFOV')
