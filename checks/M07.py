"""Frame selection."""
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import frame_select


@harness('M07', quick=[dict(n=2, crit='bpix'), dict(n=2, crit='over'), dict(n=2, crit='rms'), dict(n=2, crit='bias'), dict(n=2, crit='none', layers=2)],
         thorough=[dict(n=3, crit='bpix'), dict(n=3, crit='rms'), dict(n=2, crit='all'), dict(n=3, crit='over')])
def selection(S, n=2, crit='bpix', shape=(1, 3), layers=1):
    """Exactly the frames that fail a requested criterion are dropped (or marked); the others keep order and content; when
    none is left the step refuses."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    kw, ext = {}, [dict() for _ in range(n)]
    badf = [False] * n
    if crit in ('bpix', 'all'):
        kw.update(bpix_frac=S.choice('frac', [0., 0.34, 0.5]), allowed_bpix=S.choice('allowed', [0, 6, 1]))
    if crit in ('over', 'all'):
        kw['overexp'] = S.choice('useover', [True, False])
        for i in range(n):
            ext[i]['OVEREXP'] = S.bool('over%d' % i)
    if crit in ('rms', 'all'):
        kw['tt_rms_thres'] = S.real('rmsth', 0, 100)
        for i in range(n):
            ext[i].update(Z2VAR=S.real('z2v%d' % i, 0, 100), Z3VAR=S.real('z3v%d' % i, 0, 100))
    if crit in ('bias', 'all'):
        kw['tt_bias_thres'] = S.real('biasth', 0, 100)
        for i in range(n):
            ext[i].update(Z2RES=S.real('z2r%d' % i, 0, 100), Z3RES=S.real('z3r%d' % i, 0, 100))
    ds = dataset(S, n, shape=shape, layers=layers, ext_i=lambda i: ext[i], filename_i=lambda i: 'frame%d_L2a.fits' % i,
                 dq_i=lambda i: S.bits('dq%d' % i, shape, np.uint16) if crit in ('bpix', 'all') else S.const(np.zeros(shape, dtype=np.uint16)))
    discard = S.choice('discard', [True, False])
    s0 = [snap(f) for f in ds.frames]
    for i in range(n):
        b = []
        if 'bpix_frac' in kw:
            mask = np.uint16(0xffff ^ kw['allowed_bpix'])
            cnt = sum(S.ite((s0[i]['dq'][p] & mask) != 0, 1, 0) for p in np.ndindex(shape))
            b.append(cnt > kw['bpix_frac'] * 3)
        if kw.get('overexp'):
            b.append(ext[i]['OVEREXP'])
        for th, ks in (('tt_rms_thres', ('Z2VAR', 'Z3VAR')), ('tt_bias_thres', ('Z2RES', 'Z3RES'))):
            if th in kw:
                b += [ext[i][k] > kw[th] for k in ks]
        badf[i] = S.or_(*b) if b else False
    try:
        out = frame_select(ds, discard_bad=discard, **kw)
    except ValueError:
        S.check(S.and_(*badf), 'refused only when every frame is bad')
        return
    good = [i for i in range(n) if not S.truth(badf[i])]
    S.check(len(good) > 0, 'refused when every frame is bad')
    keep = good if discard else list(range(n))
    S.same([f.filename for f in out.frames], ['frame%d_L2a.fits' % i for i in keep], 'exactly the good frames kept, in order')
    if len(out.frames) == len(keep):
        for j, i in enumerate(keep):
            S.eq(out.all_data[j], s0[i]['data'], 'data of kept frames')
            S.eq(out.all_err[j], s0[i]['err'], 'errors of kept frames')
            S.eq(out.all_dq[j], s0[i]['dq'], 'flags of kept frames')
            S.same(bool(out.frames[j].ext_hdr['IS_BAD']), i not in good, 'marked bad exactly when rejected')
            e = out.frames[j].ext_hdr
            for k, kk, dflt in (('FRMSEL01', 'bpix_frac', 1.), ('FRMSEL02', 'overexp', False), ('FRMSEL03', 'tt_rms_thres', None),
                                ('FRMSEL04', 'tt_rms_thres', None), ('FRMSEL05', 'tt_bias_thres', None), ('FRMSEL06', 'tt_bias_thres', None)):
                if kk in kw or dflt is not None:
                    S.same(e[k], kw.get(kk, dflt), 'selection criteria recorded')
            for b in range(n):
                if b not in good:
                    S.check('frame%d_L2a.fits' % b in history(out.frames[j].ext_hdr).replace('\n', ''), 'rejected frames named in history')
    for i in range(n):
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, ds, 'input: ')
    coherent(S, out)
