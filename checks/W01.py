"""Choice of the processing recipe."""
import json
import os
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import walker

VIS = ['DARK', 'FFIELD', 'BORESITE', 'PUPILIMG', 'ENGPUPIL', 'ENGIMGAGE', 'TDD', 'CGIVST_TDD', 'ABSFLXFT', 'ABSFLXBT', 'CORETPUT']


def frames(S, n, level, vis, ispc, fsm):
    e = dict(ISPC=ispc, FSMLOS=fsm)
    p = {} if vis is None else dict(VISTYPE=vis)
    ks = ('EXPTIME', 'EMGAIN_C', 'KGAINPAR')
    vs = [{k: S.real('%s%d' % (k, i), 1, 100) for k in ks} for i in range(n)]
    for k in ks:
        for i in range(n):
            for j in range(i):
                S.assume(S.or_(vs[i][k] == vs[j][k], abs(vs[i][k] - vs[j][k]) > 1e-3))
    z = lambda *s: S.const(np.zeros(s))
    ds = data.Dataset([image(S, tag=str(i), shape=(1, 1), dat=z(1, 1), err=z(1, 1, 1), dq=S.const(np.zeros((1, 1), dtype=np.uint16)), pri=p, ext=dict(e, **vs[i]), data_level=level) for i in range(n)])
    alike = S.and_(*[vs[i][k] == vs[0][k] for k in ks for i in range(1, n)])
    return ds, alike


def want(level, vis, ispc, fsm, alike):
    """the documented choice"""
    if level == 'L1':
        if vis is None:
            return 'l1_to_l2b.json'
        if vis.startswith('ENG'):
            return 'l1_to_l2a_eng.json'
        if vis == 'DARK':
            return 'l1_to_l2b_pc_dark.json' if ispc else 'build_trad_dark_image.json' if alike else 'l1_to_l2a_noisemap.json'
        return {'BORESITE': 'l1_to_boresight.json', 'FFIELD': 'l1_flat_and_bp.json', 'PUPILIMG': ['l1_to_l2a_nonlin.json', 'l1_to_kgain.json']}.get(vis, 'l1_to_l2a_basic.json')
    if level == 'L2a':
        if vis == 'DARK':
            return 'l2a_to_l2b_pc_dark.json' if ispc else 'l2a_build_trad_dark_image.json' if alike else 'l2a_to_l2a_noisemap.json'
        return 'l2a_to_l2b_pc.json' if ispc else 'l2a_to_l2b.json'
    if level == 'L2b':
        return {'ABSFLXFT': 'l2b_to_fluxcal_factor.json', 'ABSFLXBT': 'l2b_to_fluxcal_factor.json', 'CORETPUT': 'l2b_to_corethroughput.json'}.get(vis, 'l2b_to_l3.json')
    if level == 'L3':
        return 'l3_to_l4.json' if fsm else 'l3_to_l4_nopsfsub.json'


@harness('W01', quick=[dict(level=l, n=2) for l in ('L1', 'L2a', 'L2b', 'L3')] + [dict(level='L1', n=1)], thorough=[dict(level='L1', n=3), dict(level='L2a', n=3)])
def choice(S, level='L1', n=2):
    """The recipe depends on level, kind of visit, photon counting, tracking and, for darks, on whether all frames were taken
    alike; the chosen template exists; the frames are unchanged."""
    tracking(S, False)
    dark = S.choice('dark', [False, True]) if n > 1 and level in ('L1', 'L2a') else False
    vis = 'DARK' if dark else S.choice('vis', [v for v in VIS if v != 'DARK'] + ([None] if level == 'L1' else []))
    ispc, fsm = S.choice('ispc', [False, True]), S.choice('fsm', [0, 1])
    ds, alike = frames(S, n, level, vis, ispc, fsm)
    s = [snap(f) for f in ds.frames]
    got = walker.guess_template(ds)
    alike = S.truth(alike) if dark and not ispc else True
    S.same(got, want(level, vis, ispc, fsm, alike), 'recipe')
    for g in got if isinstance(got, list) else [got]:
        S.check(os.path.exists(os.path.join(walker.recipe_dir, g)), 'template exists')
    for f, x in zip(ds.frames, s):
        unchanged(S, f, x)


@harness('W01', quick=[dict()])
def refused(S):
    """Data of other levels have no default recipe."""
    tracking(S, False)
    ds, _ = frames(S, 1, S.choice('level', ['L4', 'CAL', 'TDA', 'l1', '']), S.choice('vis', ['TDD', 'DARK']), False, 0)
    S.raises(NotImplementedError, lambda: walker.guess_template(ds), 'no recipe')


def templates():
    return sorted(f for f in os.listdir(walker.recipe_dir) if f.endswith('.json'))


@harness('W01', quick=[dict()])
def templates_sound(S):
    """Every template names only known steps and calibration types, starts empty, and stores what it makes."""
    name = S.choice('name', templates())
    with open(os.path.join(walker.recipe_dir, name)) as f:
        t = json.load(f)
    S.check(bool(t['template']) and t['inputs'] == [] and isinstance(t['drpconfig'], dict) and 'outputdir' in t, 'template head')
    steps = t['steps']
    for s in steps:
        S.check(s['name'] == 'save' or s['name'] in walker.all_steps, 'known step %s' % s['name'])
        for c in s.get('calibs', {}):
            S.check(c in data.datatypes, 'known calibration %s' % c)
    S.check(any(s['name'] == 'save' for s in steps), 'result saved')
