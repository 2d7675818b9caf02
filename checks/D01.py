"""Dataset/frame coherence: the cubes and the frames are two views of the same numbers."""
import numpy as np

from symnp.reg import harness
from .common import *


@harness('D01', quick=[dict(n=1), dict(n=3)], thorough=[dict(n=2, shape=(3, 2)), dict(n=2, cube=True), dict(n=4, layers=2)])
def construct(S, n=3, shape=(2, 2), cube=False, layers=1):
    """Building a dataset keeps every frame's content and ties it to the cubes."""
    tracking(S, layers > 1)
    shape = ((2,) if cube else ()) + tuple(shape)
    frames = [image(S, str(i), shape=shape, layers=layers, nan=True, dqdtype=[np.uint16, np.int64, np.uint8][i % 3] if n < 2 else np.uint16)
              for i in range(n)]
    s = [(f.data.copy(), f.err.copy(), f.dq.copy()) for f in frames]
    ds = data.Dataset(frames)
    for i in range(n):
        S.eq(ds.all_data[i], s[i][0], 'data content kept')
        S.eq(ds.all_err[i], s[i][1], 'error content kept')
        S.eq(ds.all_dq[i], s[i][2], 'dq content kept')
        S.check(ds[i] is frames[i], 'indexing returns the frame')
    S.same(len(ds), n, 'length')
    S.check(all(a is b for a, b in zip(ds, frames)), 'iteration order')
    coherent(S, ds)


@harness('D01', quick=[dict(n=2), dict(n=2, newlayers=2)], thorough=[dict(n=3, newlayers=3), dict(n=2, cube=True)])
def update(S, n=2, newlayers=1, cube=False):
    """A processing-step update writes exactly the arrays it is given, records history and header entries in every
    frame, and keeps frames and cubes tied."""
    tracking(S, True)
    shape = ((2,) if cube else ()) + (2, 2)
    ds = dataset(S, n, shape=shape)
    d0, e0, q0 = ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy()
    ud, ue, uq = S.choice('ud', [True, False]), S.choice('ue', [True, False]), S.choice('uq', [True, False])
    nd = S.array('nd', (n,) + shape, nan=True) if ud else None
    ne = S.array('ne', (n, newlayers) + shape, 0) if ue else None
    nq = S.bits('nq', (n,) + shape) if uq else None
    ents = {'KEYA': S.real('ka'), 'KEYB': 'text'} if S.choice('hdr', [True, False]) else None
    ds.update_after_processing_step('the step history', new_all_data=nd, new_all_err=ne, new_all_dq=nq, header_entries=ents)
    S.eq(ds.all_data, nd if ud else d0, 'data is the given or the previous one')
    S.eq(ds.all_err, ne if ue else e0, 'error is the given or the previous one')
    S.eq(ds.all_dq, nq if uq else q0, 'dq is the given or the previous one')
    for f in ds.frames:
        S.check('the step history' in history(f.ext_hdr), 'history recorded in every frame')
        if ents:
            for k, v in ents.items():
                S.same(f.ext_hdr[k], v, 'header entry in the extension header')
                S.same(f.err_hdr[k], v, 'header entry in the error header')
    coherent(S, ds)


@harness('D01', quick=[dict()])
def update_refused(S):
    """Arrays of a wrong shape are refused and nothing changes."""
    tracking(S, False)
    ds = dataset(S, 2)
    d0, e0, q0 = ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy()
    kind = S.choice('kind', ['data', 'dq', 'err'])
    shape = S.choice('shape', [(1, 2, 2), (2, 2, 3), (2, 1, 2), (2, 2), (3, 2, 2)])
    if kind == 'err':
        shape = {(2, 2): (2, 1, 3, 2)}.get(shape, (shape[0], 1) + tuple(shape[1:]))
    x = S.array('x', shape)
    S.raises(ValueError, lambda: ds.update_after_processing_step('h', **{'new_all_' + kind: x}), 'wrong shape refused')
    S.eq(ds.all_data, d0, 'data kept')
    S.eq(ds.all_err, e0, 'err kept')
    S.eq(ds.all_dq, q0, 'dq kept')
    coherent(S, ds)


@harness('D01', quick=[dict(n=2)], thorough=[dict(n=3, steps=3)])
def sequence(S, n=2, steps=2):
    """Any sequence of updates, error terms, rescalings, copies and frame edits leaves frames and cubes tied and the
    content equal to what a plain per-frame model predicts."""
    track = S.choice('track', [False, True])
    tracking(S, track)
    ds = dataset(S, n)
    md = [ds.all_data[i].copy() for i in range(n)]
    mv = [ds.all_err[i][0] ** 2 for i in range(n)]
    mq = [ds.all_dq[i].copy() for i in range(n)]
    for k in range(steps):
        op = S.choice('op%d' % k, ['data', 'dq', 'err', 'rescale', 'copy', 'edit'])
        if op == 'data':
            x = S.array('x%d' % k, (n, 2, 2))
            ds.update_after_processing_step('s', new_all_data=x)
            md = [x[i] for i in range(n)]
        elif op == 'dq':
            x = S.bits('x%d' % k, (n, 2, 2))
            ds.update_after_processing_step('s', new_all_dq=x)
            mq = [x[i] for i in range(n)]
        elif op == 'err':
            x = S.array('x%d' % k, (n, 2, 2))
            ds.add_error_term(x, 'e')
            mv = [mv[i] + x[i] ** 2 for i in range(n)]
        elif op == 'rescale':
            x = S.array('x%d' % k, (2, 2))
            ds.rescale_error(x, 'e')
            mv = [mv[i] * x ** 2 for i in range(n)]
        elif op == 'copy':
            ds = ds.copy()
        else:
            v = S.real('x%d' % k)
            ds.frames[n - 1].data[1, 0] = v
            md[n - 1] = md[n - 1].copy()
            md[n - 1][1, 0] = v
    for i in range(n):
        S.eq(ds.all_data[i], md[i], 'data as predicted')
        S.eq(ds.all_err[i][0] ** 2, mv[i], 'variance as predicted')
        S.eq(ds.all_dq[i], mq[i], 'dq as predicted')
    coherent(S, ds)


@harness('D01', quick=[dict()])
def empty(S):
    S.raises(ValueError, lambda: data.Dataset([]), 'an empty dataset is refused')


@harness('D01', quick=[dict(n=3)])
def subset(S, n=3):
    """A selected subset holds the selected frames in order and is itself coherent."""
    tracking(S, False)
    ds = dataset(S, n)
    d0, e0, q0 = ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy()
    sel = S.choice('sel', [[0], [2, 0], [1, 2], slice(0, 2), slice(1, None)])
    sub = ds[sel]
    idx = list(range(n))[sel] if isinstance(sel, slice) else sel
    S.same(len(sub), len(idx), 'size')
    for j, i in enumerate(idx):
        S.eq(sub.all_data[j], d0[i], 'data of the selected frame')
        S.eq(sub.all_err[j], e0[i], 'err of the selected frame')
        S.eq(sub.all_dq[j], q0[i], 'dq of the selected frame')
    coherent(S, sub)


@harness('D01', quick=[dict()])
def subset_parent(S):
    """Selecting a subset leaves the parent dataset coherent."""
    tracking(S, False)
    ds = dataset(S, 2)
    ds[[0]]
    attached(S, ds, 'frames of the parent of a subset stay attached to its cubes')
