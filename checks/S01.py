"""Sorting of pupil-imaging frames."""
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.sorting import sort_pupilimg_frames, extract_frame_id


def frame(S, ident, t, g, role):
    z = lambda *s: S.const(np.zeros(s))
    f = image(S, tag='f%d' % ident, shape=(1, 1), dat=S.const(np.full((1, 1), float(ident))), err=z(1, 1, 1), dq=S.const(np.zeros((1, 1), dtype=np.uint16)),
              pri=dict(VISTYPE='PUPILIMG', OBSNAME='none'), ext=dict(EXPTIME=t, EMGAIN_C=g), filename='CGI_L1_%010d.fits' % ident)
    return f, role


def plan(S, nmean, sets, per, gains, few, start, gap):
    """an observing plan: mean frames, a k-gain series (equal sets of growing exposure time, one time repeated at the end), then
    per gain a non-linearity series (growing exposure times, one repeated at the end), then a few frames of another gain"""
    ts = [S.real('t%d' % i, 1, 100) for i in range(sets)]
    tm = S.real('tm', 1, 100)
    for a, b in zip(ts, ts[1:]):
        S.assume(b > a + 1e-2)
    for a in ts:
        S.assume(S.or_(a > tm + 1e-2, a < tm - 1e-2))
    rep = S.choice('rep', list(range(sets - 1)))
    out, i = [], start
    for _ in range(nmean):
        out.append(frame(S, i, tm, 1., 'MNFRAME'))
        i += 1
    i += gap
    for t in ts + [ts[rep]]:
        for _ in range(per):
            out.append(frame(S, i, t, 1., 'KGAIN'))
            i += 1
    gs = [S.real('g%d' % k, 1.5, 100) for k in range(gains + (1 if few else 0))]
    for k in range(len(gs)):
        for j in range(k):
            S.assume(gs[k] > gs[j] + 1e-2)
    for k in range(gains):
        us = [S.real('u%d%d' % (k, j), 1, 100) for j in range(3)]
        S.assume(us[1] > us[0] + 1e-2)
        S.assume(us[2] > us[1] + 1e-2)
        for t in us + [us[S.choice('nrep%d' % k, [0, 1])]]:
            out.append(frame(S, i, t, gs[k], 'NONLIN'))
            i += 1
    for _ in range(few):
        out.append(frame(S, i, 7., gs[-1], 'other'))
        i += 1
    return out


def shuffled(S, xs, k):
    n = len(xs)
    return {'time': xs, 'back': xs[::-1], 'turn': xs[n // 2:] + xs[:n // 2], 'comb': xs[1::2] + xs[::2]}[k]


@harness('S01', quick=[dict(cal='kgain'), dict(cal='k-gain', nmean=7, sets=2, per=3, few=2, gains=1, start=8), dict(cal='nonlin', gains=1), dict(cal='Non-Linearity', gains=2, few=2, sets=2, gap=3)],
         thorough=[dict(cal='KGAIN', sets=4, nmean=7), dict(cal='nonlinearity', gains=2, sets=3, start=96)])
def sort(S, cal='kgain', nmean=5, sets=3, per=2, gains=0, few=0, start=1, gap=0):
    """In whatever order the files are listed, exactly the mean frames and the frames of the calibration series are returned,
    labelled with their use and otherwise unchanged; frames of other gains or extra frames are left out."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    all_ = plan(S, nmean, sets, per, gains, few, start, gap)
    ds = data.Dataset([f for f, _ in shuffled(S, all_, S.choice('order', ['time', 'back', 'turn', 'comb']))])
    s0 = [snap(f) for f in ds.frames]
    role = {f.filename: r for f, r in all_}
    lin = cal.lower().startswith('non')
    want = {n: r for n, r in role.items() if r == 'MNFRAME' or r == 'KGAIN' or (r == 'NONLIN' and lin)}
    out = sort_pupilimg_frames(ds, cal)
    S.same(sorted(f.filename for f in out.frames), sorted(want), 'exactly the frames of the mean and the series')
    for f in out.frames:
        S.same(f.pri_hdr['OBSNAME'], want.get(f.filename), 'labelled with its use')
        S.eq(f.data[0, 0], float(int(f.filename[7:17])), 'content kept')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)


@harness('S01', quick=[dict()])
def idents(S):
    """The frame number is the number at the end of the file name."""
    n = S.choice('n', [0, 7, 12, 345, 99999, 1234567890])
    w = S.choice('w', [1, 5, 10])
    pre = S.choice('pre', ['CGI_EXCAM_L1_', 'a_', 'x.y_12_'])
    S.same(extract_frame_id(pre + str(n).zfill(w) + '.fits'), n, 'frame number')


@harness('S01', quick=[dict()])
def refused(S):
    """Other calibration types are refused."""
    tracking(S, False)
    ds = data.Dataset([f for f, _ in plan(S, 4, 2, 2, 0, 0, 1, 0)])
    S.raises(Exception, lambda: sort_pupilimg_frames(ds, S.choice('c', ['', 'gain', 'dark', 'no'])), 'unknown calibration type refused')


@harness('S01', quick=[dict(kind='before'), dict(kind='stray'), dict(kind='two'), dict(kind='two', flip=True, n=3, orders=['comb'])], thorough=[dict(kind='before', cal='nonlin', n=4), dict(kind='two', n=4)])
def candidates(S, kind='before', flip=False, cal='kgain', n=3, orders=('time', 'comb')):
    """Unity-gain frames of other programmes before the series do not belong to it; of several series the longest is taken; frames
    of the exposure time of the mean set that were not taken with it (their numbers do not follow) do not belong to the mean set."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    out, i = [], 1
    tm = S.real('tm', 200, 300)
    gap, first = S.choice('straygap', [1, 2, 7]) if kind == 'stray' else 0, kind == 'stray' and S.choice('first', [True, False])
    if first:
        out.append(frame(S, i, tm, 1., 'other'))
        i += 1 + gap
    for _ in range(6):
        out.append(frame(S, i, tm, 1., 'MNFRAME'))
        i += 1
    if kind == 'stray' and not first:
        for _ in range(2):
            i += gap
            out.append(frame(S, i, tm, 1., 'other'))
            i += 1

    def series(name, k, per, role):
        nonlocal i
        ts = [S.real('%s%d' % (name, j), 1, 100) for j in range(k)]
        for a, b in zip(ts, ts[1:]):
            S.assume(b > a + 1e-2)
        for t in ts + [ts[S.choice(name + 'rep', list(range(k - 1)))]]:
            for _ in range(per):
                out.append(frame(S, i, t, 1., role))
                i += 1
        return ts
    if kind == 'stray':
        series('t', n, 2, 'KGAIN')
    elif kind == 'before':
        t0 = S.real('before', 110, 150)
        for _ in range(S.choice('nbefore', [1, 2, 3])):
            out.append(frame(S, i, t0, 1., 'other'))
            i += 1
        i += S.choice('gap', [0, 5])
        series('t', n, 2, 'KGAIN')
    else:
        a, b = ('other', 'KGAIN') if not flip else ('KGAIN', 'other')
        ka, kb = (2, n) if not flip else (n, 2)
        ta = series('a', ka, 2, a)
        i += 3
        tb = series('b', kb, 2, b)
        for x in ta:
            for y in tb:
                S.assume(S.or_(x < y - 1e-2, x > y + 1e-2))
    ds = data.Dataset([f for f, _ in shuffled(S, out, S.choice('order', list(orders)))])
    role = {f.filename: r for f, r in out}
    res = sort_pupilimg_frames(ds, cal)
    S.same(sorted(f.filename for f in res.frames), sorted(k for k, r in role.items() if r != 'other'), 'mean frames and one whole series')
    for f in res.frames:
        S.same(f.pri_hdr['OBSNAME'], role[f.filename], 'labelled with its use (candidates)')
