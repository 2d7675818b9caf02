"""Prescan bias subtraction."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from .geom import small
from corgidrp.l1_to_l2a import prescan_biassub


def med(S, xs):
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = S.ite(b < a, b, a), S.ite(b < a, a, b)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


@harness('L01', quick=[dict(n=2, full=False), dict(n=1, full=True), dict(n=1, full=False, imaging=True), dict(n=1, npre=3, layers=2), dict(n=1, pre_r0=1)],
         thorough=[dict(n=2, npre=4), dict(n=3, full=False, rows=5), dict(n=1, npre=5), dict(n=2, full=True, npre=3), dict(n=2, imaging=True, npre=3),
                   dict(n=1, pre_c0=2)])
def bias(S, n=1, full=False, imaging=False, npre=2, rows=4, pre_c0=0, layers=1, pre_r0=0):
    """Every output pixel is the input pixel of the science area minus (median of the reliable prescan of its own
    detector row minus the bias offset); the standard error of that median and the offset error enter the error map."""
    tracking(S, layers > 1)
    arr = 'SCI'
    g = small(rows=rows, cols=npre + 5 + pre_c0, pre_cols=npre + 2, st=1, end=1 + npre, im0=(1, npre + 2 + pre_c0), pre_c0=pre_c0, pre_r0=pre_r0)
    R, C = g[arr]['frame_rows'], g[arr]['frame_cols']
    ds = dataset(S, n, shape=(R, C), layers=layers, ext=dict(ARRTYPE=arr, NAXIS1=C, NAXIS2=R), filename='f.fits')
    s0 = [snap(f) for f in ds.frames]
    withmap = S.choice('noisemap', [True, False])
    off = S.real('off') if withmap else 0.
    offe = S.real('offe', 0) if withmap else 0.
    nm = SimpleNamespace(bias_offset=off, bias_offset_err=offe) if withmap else None
    out = prescan_biassub(ds, noise_maps=nm, return_full_frame=full, detector_regions=g, use_imaging_area=imaging)
    ia = g[arr]['image']
    if full:
        r0, c0, nr, nc = 0, 0, R, C
    elif imaging:
        nr = R - g[arr]['parallel_overscan']['rows']
        nc = C - g[arr]['prescan']['cols'] - g[arr]['serial_overscan']['cols']
        r0, c0 = ia['r0c0'][0] - (nr - ia['rows']), ia['r0c0'][1]
    else:
        r0, c0, nr, nc = ia['r0c0'][0], ia['r0c0'][1], ia['rows'], ia['cols']
    st, en = g[arr]['prescan']['col_start'], g[arr]['prescan']['col_end']
    S.same(tuple(out.all_data.shape), (n, nr, nc), 'output shape')
    for i in range(n):
        for r in range(nr):
            pre = [s0[i]['data'][r0 + r, c] for c in range(st, en)]
            b = med(S, pre) - off
            mu = sum(pre) / len(pre)
            var = sum((p - mu) ** 2 for p in pre) / len(pre) / len(pre) + offe ** 2
            S.eq(out.all_data[i, r], s0[i]['data'][r0 + r, c0:c0 + nc] - b, 'data minus bias of its own row')
            S.eq(out.all_err[i, 0, r] ** 2, s0[i]['err'][0, r0 + r, c0:c0 + nc] ** 2 + var, 'error includes the bias error', tol=1e-5)
            for l in range(1, layers):
                S.eq(out.all_err[i, l, r], s0[i]['err'][l, r0 + r, c0:c0 + nc], 'individual error layers follow their pixel')
            S.eq(out.all_dq[i, r], s0[i]['dq'][r0 + r, c0:c0 + nc], 'dq follows its pixel')
            hd = [h for h in out.frames[i].hdu_list if h.name == 'BIAS']
            S.same(len(hd), 1, 'one bias extension')
            S.eq(hd[0].data[r], b, 'bias recorded', tol=1e-4)
        S.same((out.frames[i].ext_hdr['NAXIS1'], out.frames[i].ext_hdr['NAXIS2']), (nc, nr), 'header dimensions')
        S.check('ias subtracted' in history(out.frames[i].ext_hdr), 'history')
        unchanged(S, ds.frames[i], s0[i], 'input')
    coherent(S, out)


@harness('L01', quick=[dict(arr='ENG'), dict(arr='ENG_EM'), dict(arr='ENG_CONV')])
def geometry(S, arr='ENG'):
    """For every detector readout type the reliable prescan of the real geometry is non-empty, lies inside the prescan,
    outside the image, and the bias comes from exactly those columns (shrunk readout, same column layout)."""
    tracking(S, False)
    from corgidrp.detector import detector_areas
    full = {'SCI': 'SCI'}
    g0 = detector_areas[arr]
    p = g0['prescan']
    S.check(p['r0c0'][1] <= p['col_start'] < p['col_end'] <= p['r0c0'][1] + p['cols'], 'reliable columns inside the prescan')
    S.check(p['col_end'] <= g0['image']['r0c0'][1] or p['col_start'] >= g0['image']['r0c0'][1] + g0['image']['cols'], 'reliable columns outside the image')
    # two rows of the real readout are enough: rows are treated alike
    k = lambda d, **kw: dict(d, **kw)
    g = {arr: dict(frame_rows=2, frame_cols=g0['frame_cols'], image=k(g0['image'], rows=1, r0c0=[1, g0['image']['r0c0'][1]]),
                   prescan=k(p, rows=2), serial_overscan=k(g0['serial_overscan'], rows=2))}
    C = g0['frame_cols']
    base = np.zeros((2, C))
    a, b = S.real('a', -1000, 1000), S.real('b', -1000, 1000)
    d = S.const(base)
    d[:, p['col_start']:p['col_end']] = a
    d[:, g0['image']['r0c0'][1]:g0['image']['r0c0'][1] + 3] = b
    im = data.Image(d, pri_hdr=hdr(), ext_hdr=hdr(ARRTYPE=arr, DATALVL='L1'), err=S.const(np.zeros((1, 2, C))), dq=S.const(np.zeros((2, C), dtype=int)))
    out = prescan_biassub(data.Dataset([im]), detector_regions=g)
    S.eq(out.all_data[0, 0, 0], b - a, 'image pixel minus the reliable prescan level')
    S.eq(out.all_data[0, 0, 2], b - a, 'image pixel minus the reliable prescan level')


@harness('L01', quick=[dict()])
def refused(S):
    """Unknown readout types and frames of the wrong size are refused."""
    tracking(S, False)
    g = small()
    ds = dataset(S, 1, shape=(4, 7), ext=dict(ARRTYPE=S.choice('arr', ['SCIX', 'sci', ''])))
    S.raises(Exception, lambda: prescan_biassub(ds, detector_regions=g), 'unknown readout type refused')
    sh = S.choice('sh', [(4, 6), (5, 7)])
    ds = dataset(S, 1, tag='b', shape=sh, ext=dict(ARRTYPE='SCI'))
    S.raises(Exception, lambda: prescan_biassub(ds, detector_regions=g), 'wrong frame size refused')


@harness('L01', quick=[dict(arr='ENG_EM'), dict(arr='ENG_CONV'), dict(arr='SCI'), dict(arr='ENG')])
def imaging_area(S, arr='SCI'):
    """The imaging area of every readout type lies inside the detector, contains the image area and excludes
    prescan and overscans."""
    from corgidrp.detector import detector_areas, imaging_area_geom
    g = detector_areas[arr]
    rows, cols, r0c0 = imaging_area_geom(arr)
    S.check(r0c0[0] >= 0 and r0c0[1] >= 0 and r0c0[0] + rows <= g['frame_rows'] and r0c0[1] + cols <= g['frame_cols'], 'inside the detector')
    im = g['image']
    S.check(r0c0[0] <= im['r0c0'][0] and r0c0[0] + rows >= im['r0c0'][0] + im['rows'] and
            r0c0[1] <= im['r0c0'][1] and r0c0[1] + cols >= im['r0c0'][1] + im['cols'], 'contains the image')
    for k in ('prescan', 'serial_overscan'):
        o = g[k]
        S.check(r0c0[1] + cols <= o['r0c0'][1] or r0c0[1] >= o['r0c0'][1] + o['cols'], 'no overlap with ' + k)
