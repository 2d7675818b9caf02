"""Splitting a dataset on header keywords is a partition by equal values."""
import numpy as np

from symnp.reg import harness
from .common import *


def verify(S, ds, subs, vals, keyrows, s0):
    """subs/vals: what split_dataset returned; keyrows[i]: the tuple of key values of frame i"""
    n = len(keyrows)
    S.same(len(subs), len(vals), 'one set of values per group')
    fn = {'f%d.fits' % i: i for i in range(n)}
    seen = []
    for sub, val in zip(subs, vals):
        v = val if isinstance(val, (tuple, list)) else (val,)
        idx = [fn[f.filename] for f in sub.frames]
        S.check(len(idx) > 0, 'no empty group')
        S.same(idx, sorted(idx), 'frames keep their order inside a group')
        seen += idx
        for j, i in enumerate(idx):
            for a, b in zip(v, keyrows[i]):
                S.same(a, b, 'group values are the header values of its frames')
            S.eq(sub.all_data[j], s0[i][0], 'frame data kept')
            S.eq(sub.all_err[j], s0[i][1], 'frame err kept')
            S.eq(sub.all_dq[j], s0[i][2], 'frame dq kept')
            S.eq(sub.frames[j].data, s0[i][0], 'frame data kept in the frame')
    S.same(sorted(seen), list(range(n)), 'every frame is in exactly one group')
    for a in range(len(subs)):
        for b in range(a):
            va, vb = [x if isinstance(x, (tuple, list)) else (x,) for x in (vals[a], vals[b])]
            S.check(S.not_(S.and_(*[x == y for x, y in zip(va, vb)])), 'groups have distinct values')


def frames(S, rows_pri, rows_ext, n):
    fs = [image(S, str(i), shape=(1, 2), pri=rows_pri[i], ext=rows_ext[i], filename='f%d.fits' % i) for i in range(n)]
    ds = data.Dataset(fs)
    return ds, [(f.data.copy(), f.err.copy(), f.dq.copy()) for f in fs]


@harness('D03', quick=[dict(n=3, pri=0, ext=1), dict(n=2, pri=1, ext=1), dict(n=2, pri=0, ext=3)],
         thorough=[dict(n=4, pri=0, ext=1), dict(n=3, pri=1, ext=1), dict(n=3, pri=1, ext=2)])
def numeric(S, n=3, pri=0, ext=1):
    """Any numeric header values."""
    rp = [{'PK%d' % k: S.real('p%d_%d' % (i, k)) for k in range(pri)} for i in range(n)]
    re_ = [{'EK%d' % k: S.real('e%d_%d' % (i, k)) for k in range(ext)} for i in range(n)]
    ds, s0 = frames(S, rp, re_, n)
    kp = ['PK%d' % k for k in range(pri)] or None
    ke = ['EK%d' % k for k in range(ext)] or None
    subs, vals = ds.split_dataset(prihdr_keywords=kp, exthdr_keywords=ke)
    keyrows = [tuple(rp[i].values()) + tuple(re_[i].values()) for i in range(n)]
    verify(S, ds, subs, vals, keyrows, s0)


@harness('D03', quick=[dict(n=3)], thorough=[dict(n=4)])
def text(S, n=3):
    """Text header values."""
    dom = ['A', 'B', 'A ', 'AB', '']
    v = [S.choice('v%d' % i, dom[:3] if n > 3 else ['A', 'AB', 'B']) for i in range(n)]
    ds, s0 = frames(S, [dict(TARGET=x) for x in v], [{}] * n, n)
    subs, vals = ds.split_dataset(prihdr_keywords=['TARGET'])
    verify(S, ds, subs, vals, [(x,) for x in v], s0)


@harness('D03', quick=[dict(n=2)], thorough=[dict(n=3)])
def mixed(S, n=2):
    """A text keyword together with a numeric one."""
    v = [S.choice('v%d' % i, ['A', 'B']) for i in range(n)]
    w = [S.choice('w%d' % i, [1.0, 2.5, 10.0]) for i in range(n)]
    ds, s0 = frames(S, [dict(TARGET=x) for x in v], [dict(EXPTIME=x) for x in w], n)
    subs, vals = ds.split_dataset(prihdr_keywords=['TARGET'], exthdr_keywords=['EXPTIME'])
    verify(S, ds, subs, vals, list(zip(v, w)), s0)


@harness('D03', quick=[dict(n=2)], thorough=[dict(n=3)])
def same_name(S, n=2):
    """A keyword that both headers hold is taken from the header asked for; asking for both uses both."""
    p = [S.real('p%d' % i, 0, 10) for i in range(n)]
    e = [S.real('e%d' % i, 0, 10) for i in range(n)]
    ds, s0 = frames(S, [dict(K=x, L=0.) for x in p], [dict(K=x) for x in e], n)
    k = S.choice('k', ['pri', 'ext', 'mixed'])
    kw = dict(pri=dict(prihdr_keywords=['K']), ext=dict(exthdr_keywords=['K']), mixed=dict(prihdr_keywords=['L'], exthdr_keywords=['K']))[k]
    subs, vals = ds.split_dataset(**kw)
    verify(S, ds, subs, vals, dict(pri=[(x,) for x in p], ext=[(x,) for x in e], mixed=[(0., x) for x in e])[k], s0)


@harness('D03', quick=[dict()])
def refused(S):
    """Splitting on nothing is refused; a keyword missing from a frame is refused."""
    ds, _ = frames(S, [{}, dict(A=1)], [{}, {}], 2)
    S.raises(ValueError, lambda: ds.split_dataset(), 'no keywords refused')
    S.raises(KeyError, lambda: ds.split_dataset(prihdr_keywords=['A']), 'missing keyword refused')


@harness('D03', quick=[dict(n=2)])
def parent_intact(S, n=2):
    """The dataset that was split stays coherent and unchanged."""
    ds, s0 = frames(S, [dict(A=S.real('a%d' % i)) for i in range(n)], [{}] * n, n)
    ds.split_dataset(prihdr_keywords=['A'])
    for i in range(n):
        S.eq(ds.frames[i].data, s0[i][0], 'data kept')
        S.eq(ds.all_dq[i], s0[i][2], 'dq kept')
    attached(S, ds, 'frames of a split dataset stay attached to its cubes')
