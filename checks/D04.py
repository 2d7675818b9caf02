"""Error propagation: added terms combine in quadrature, rescaling scales every layer."""
import numpy as np

from symnp.reg import harness
from .common import *


@harness('D04', quick=[dict(n=1, track=False), dict(n=2, track=False), dict(n=2, track=True, terms=2), dict(n=2, track=True, terms=2, layers=2), dict(n=1, track=True, cube=True), dict(n=1, track=False, cube=True)],
         thorough=[dict(n=3, track=True, terms=3, layers=3), dict(n=3, track=False, terms=3, shape=(3, 3)), dict(n=2, track=True, cube=True), dict(n=2, track=False, cube=True, terms=3)])
def add_terms(S, n=2, track=False, terms=2, layers=1, shape=(2, 2), cube=False):
    """A sequence of added terms (one array per dataset or one per frame): combined variance is the sum of variances;
    individual layers are kept exactly when tracking is on; frames and cube agree."""
    tracking(S, track)
    if cube:
        shape = (2,) + tuple(shape)
    if layers > 1 and not track:
        layers = 1
    ds = dataset(S, n, shape=shape, layers=layers)
    e0 = ds.all_err.copy()
    d0, q0 = ds.all_data.copy(), ds.all_dq.copy()
    var = [e0[i, 0] ** 2 for i in range(n)]
    added = []
    for t in range(terms):
        perframe = S.choice('perframe%d' % t, [True, False])
        x = S.array('x%d' % t, ((n,) if perframe else ()) + tuple(shape))
        x0 = x.copy()
        ds.add_error_term(x, 'term%d' % t)
        S.eq(x, x0, 'added term not modified')
        xs = [x[i] if perframe else x for i in range(n)]
        added.append(xs)
        for i in range(n):
            var[i] = var[i] + xs[i] ** 2
            S.eq(ds.all_err[i, 0] ** 2, var[i], 'combined variance is the sum of variances')
            S.check(ds.all_err[i, 0] >= 0, 'combined error non-negative')
            S.eq(ds.frames[i].err, ds.all_err[i], 'frame error equals cube error')
            S.same(ds.frames[i].err_hdr['Layer_1'], 'combined_error', 'first layer name')
            S.check('term%d' % t in history(ds.frames[i].err_hdr), 'added term recorded in history')
    nl = layers + (terms if track else 0)
    S.same(tuple(ds.all_err.shape), (n, nl) + tuple(shape), 'number of layers')
    if track:
        for i in range(n):
            for k in range(1, layers):
                S.eq(ds.all_err[i, k], e0[i, k], 'earlier layers kept')
            for t in range(terms):
                S.eq(ds.all_err[i, layers + t], added[t][i], 'individual layer is the added term')
                S.same(ds.frames[i].err_hdr['Layer_%d' % (layers + t + 1)], 'term%d' % t, 'layer name')
    S.eq(ds.all_data, d0, 'data untouched by error term')
    S.eq(ds.all_dq, q0, 'dq untouched by error term')
    # the cube and the frames still share storage
    ds.frames[0].err[0, 0, 0] = 7.0
    S.eq(ds.all_err[0, 0, 0, 0], 7.0 if not cube else ds.frames[0].err[0, 0, 0], 'editing a frame error edits the cube')


@harness('D04', quick=[dict(n=2, layers=2, track=True), dict(n=2, layers=1, track=False)], thorough=[dict(n=3, layers=3, track=True)])
def rescale(S, n=2, layers=1, track=True):
    """Rescaling multiplies every layer of every frame by the given map."""
    tracking(S, track)
    ds = dataset(S, n, layers=layers)
    e0 = ds.all_err.copy()
    perframe = S.choice('perframe', [True, False])
    x = S.array('x', ((n,) if perframe else ()) + (2, 2))
    ds.rescale_error(x, 'gain')
    for i in range(n):
        xi = x[i] if perframe else x
        for k in range(layers):
            S.eq(ds.all_err[i, k], e0[i, k] * xi, 'layer rescaled')
        S.eq(ds.frames[i].err, ds.all_err[i], 'frame error equals cube error')
        S.check('gain' in history(ds.frames[i].err_hdr), 'rescaling recorded in history')
    S.same(tuple(ds.all_err.shape), tuple(e0.shape), 'number of layers kept')
    ds.frames[n - 1].err[0, 1, 1] = 3.0
    S.eq(ds.all_err[n - 1, 0, 1, 1], 3.0, 'editing a frame error edits the cube')


@harness('D04', quick=[dict()])
def bad_shapes(S):
    """Terms of the wrong shape are refused and nothing is changed."""
    tracking(S, False)
    ds = dataset(S, 2)
    e0 = ds.all_err.copy()
    shape = S.choice('shape', [(3, 2), (2,), (2, 3, 2), (1, 2, 2, 2, 2), (1, 2), (2, 2, 1)])
    x = S.array('x', shape)
    S.raises((ValueError, IndexError), lambda: ds.add_error_term(x, 'bad'), 'wrong shape refused')
    S.raises((ValueError, IndexError), lambda: ds.rescale_error(x, 'bad'), 'wrong shape refused (rescale)')
    S.raises((ValueError, IndexError), lambda: ds.frames[0].add_error_term(x, 'bad'), 'wrong shape refused by a frame')
    S.raises((ValueError, IndexError), lambda: ds.frames[0].rescale_error(x, 'bad'), 'wrong shape refused by a frame (rescale)')
    S.eq(ds.all_err, e0, 'error untouched after refusal')


@harness('D04', quick=[dict(layers=3), dict(layers=1)])
def untracked_load(S, layers=3):
    """With tracking off an image built from several layers keeps the combined layer only."""
    track = S.choice('track', [False, True])
    tracking(S, track)
    eh = hdr(Layer_1='combined_error')
    for i in range(2, layers + 1):
        eh['Layer_%d' % i] = 'term%d' % i
    err = S.array('err', (layers, 2, 2), 0)
    im = data.Image(S.array('d', (2, 2)), pri_hdr=hdr(), ext_hdr=hdr(), err=err, dq=S.bits('q', (2, 2)), err_hdr=eh)
    S.same(im.err_hdr['TRK_ERRS'], track, 'tracking state recorded')
    if track:
        S.eq(im.err, err, 'all layers kept')
    else:
        S.eq(im.err, err[:1], 'combined layer kept')
        S.same([k for k in im.err_hdr.keys() if k.upper().startswith('LAYER_') and k.upper() != 'LAYER_1'], [], 'dropped layers not named')
