"""Detector geometry: readout tables, slicing and embedding."""
import numpy as np

from symnp.reg import harness
from .common import *
from .geom import small
from corgidrp.detector import detector_areas, slice_section, embed, unpack_geom, imaging_area_geom, imaging_slice


def inside(S, g, r, c):
    r0, c0 = g['r0c0']
    return S.and_(r >= r0, r < r0 + g['rows'], c >= c0, c < c0 + g['cols'])


@harness('L05', quick=[dict(arr=a) for a in ('SCI', 'ENG', 'ENG_EM', 'ENG_CONV')])
def tables(S, arr='SCI'):
    """For every readout type and every detector pixel (r, c): the image, prescan and overscan regions never overlap, the
    reliable prescan lies in the prescan and is what its column limits say, the imaging area contains the image and excludes
    every non-imaging region, and together the regions and the imaging area cover the detector exactly once."""
    g = detector_areas[arr]
    R, C = g['frame_rows'], g['frame_cols']
    r, c = S.int('r', 0, R - 1), S.int('c', 0, C - 1)
    im, pre, rel = inside(S, g['image'], r, c), inside(S, g['prescan'], r, c), inside(S, g['prescan_reliable'], r, c)
    par, ser = inside(S, g['parallel_overscan'], r, c), inside(S, g['serial_overscan'], r, c)
    for k in g:
        if isinstance(g[k], dict):
            d = g[k]
            S.check(d['r0c0'][0] >= 0 and d['r0c0'][1] >= 0 and d['rows'] > 0 and d['cols'] > 0 and
                    d['r0c0'][0] + d['rows'] <= R and d['r0c0'][1] + d['cols'] <= C, k + ' inside the detector')
            rows, cols, r0c0 = unpack_geom(arr, k)
            S.same((rows, cols, list(r0c0)), (d['rows'], d['cols'], list(d['r0c0'])), 'unpacked geometry')
    named = [('image', im), ('prescan', pre), ('parallel overscan', par), ('serial overscan', ser)]
    for i in range(4):
        for j in range(i):
            S.check(S.not_(S.and_(named[i][1], named[j][1])), '%s and %s disjoint' % (named[j][0], named[i][0]))
    S.check(S.implies(rel, pre), 'reliable prescan inside the prescan')
    S.check(rel == S.and_(c >= g['prescan']['col_start'], c < g['prescan']['col_end'], r >= 0), 'reliable prescan is the named columns')
    rows, cols, r0c0 = imaging_area_geom(arr)
    ia = inside(S, dict(rows=rows, cols=cols, r0c0=r0c0), r, c)
    S.check(S.implies(im, ia), 'imaging area contains the image')
    for k, x in named[1:]:
        S.check(S.not_(S.and_(ia, x)), 'imaging area excludes ' + k)
    if arr in ('ENG_EM', 'ENG_CONV'):
        lo, up = inside(S, g['lower_image'], r, c), inside(S, g['upper_image'], r, c)
        S.check(S.or_(lo, up) == im, 'lower and upper image make the image')
        S.check(S.not_(S.and_(lo, up)), 'lower and upper image disjoint')


@harness('L05', quick=[dict(), dict(im0=(0, 3), im=(3, 3))], thorough=[dict(im0=(2, 4), im=(1, 1), rows=5), dict(rows=6, cols=9, im=(3, 3))])
def slicing(S, im0=(1, 4), im=(2, 2), rows=4, cols=7):
    """A section is exactly the named pixels of the frame, embedding puts the pixels back at the same place with the pad value
    everywhere else, and the geometry table itself is never changed."""
    g = small(rows=rows, cols=cols, im=tuple(im), im0=tuple(im0), pre_cols=im0[1])
    import copy
    g0 = copy.deepcopy(g)
    f = S.array('f', (rows, cols), nan=True)
    pad = S.real('pad', -10, 10)
    f0 = f.copy()
    for k in [k for k in g['SCI'] if isinstance(g['SCI'][k], dict)]:
        d = g['SCI'][k]
        (a, b), n, m = d['r0c0'], d['rows'], d['cols']
        if n * m == 0:
            S.raises(Exception, lambda: slice_section(f, 'SCI', k, g), 'empty section refused')
            continue
        s = slice_section(f, 'SCI', k, g)
        S.eq(s, f0[a:a + n, b:b + m], 'section is the named pixels')
        e = embed(s, 'SCI', k, pad, g)
        S.same(tuple(e.shape), (rows, cols), 'embedded into a full frame')
        for p in np.ndindex((rows, cols)):
            ins = a <= p[0] < a + n and b <= p[1] < b + m
            S.eq(e[p], f0[p] if ins else pad, 'pixel back in place' if ins else 'pad value elsewhere')
        S.eq(slice_section(e, 'SCI', k, g), s, 'slice of embedded section')
    R, C, r0 = imaging_area_geom('SCI', g)
    S.eq(imaging_slice('SCI', f, g), f0[r0[0]:r0[0] + R, r0[1]:r0[1] + C], 'imaging slice')
    S.same((R, C), (rows - g0['SCI']['parallel_overscan']['rows'], cols - g0['SCI']['prescan']['cols'] - g0['SCI']['serial_overscan']['cols']), 'imaging area size')
    S.same(g, g0, 'geometry unchanged')
    S.eq(f, f0, 'frame unchanged')


@harness('L05', quick=[dict()])
def wrong(S):
    """Data that do not fit a section, sections outside the frame and unknown sections are refused."""
    g = small()
    n, m = S.choice('n', [1, 2, 3]), S.choice('m', [2, 3, 4])
    x = S.array('x', (n, m))
    fits_ = (n, m) == (2, 2) or (n, m) == (1, 2)   # a single row broadcasts
    if not fits_:
        S.raises(Exception, lambda: embed(x, 'SCI', 'image', 0, g), 'wrong size refused')
    S.raises(Exception, lambda: slice_section(S.array('f', (1, 3)), 'SCI', 'image', g), 'section outside the frame refused')
    S.raises(Exception, lambda: slice_section(x, 'SCI', 'nothing', g), 'unknown section refused')
    S.raises(Exception, lambda: slice_section(x, 'NO', 'image', g), 'unknown readout type refused')
