"""Recipes: generation and execution."""
import copy
import json
import os
import warnings

import numpy as np

import corgidrp
from symnp.reg import harness
from .common import *
from . import minidb
from .W02 import product, day
from corgidrp import walker, caldb

STUBS = ['pandas tables (in memory)', 'astropy.time', 'step functions (recording)']


def setup(S, skip=False, jit=False):
    warnings.simplefilter('ignore')
    tracking(S, False)
    S.setattr(corgidrp, 'skip_missing_cal_steps', skip)
    S.setattr(corgidrp, 'jit_calib_id', jit)
    minidb.stand_in(S)
    d = S.scratch()
    os.mkdir('out')
    S.setattr(corgidrp, 'caldb_filepath', os.path.join(d, 'db.csv'))


def inputs(S, n=1):
    names = []
    for i in range(n):
        f = image(S, tag='in%d' % i, shape=(1, 1), pri=dict(OBSNUM=1), ext=dict(EXPTIME=1., OPMODE='x', EMGAIN_C=1., EXCAMT=0.), filename='in%d_L1_.fits' % i)
        f.ext_hdr['SCTSRT'] = minidb.stamp(S, 60010. + 70 * i)
        f.save(filedir='.')
        names.append('in%d_L1_.fits' % i)
    return names, [data.Image(x).data.copy() for x in names]


def change(ds, f):
    out = ds.copy()
    for fr in out.frames:
        fr.data[:] = f(fr.data)
    return out


def steps(S, log):
    """recording steps: non-commuting changes of the data"""
    def make(name, f):
        def step(ds, *calibs, **kw):
            fr = ds.frames if isinstance(ds, data.Dataset) else [ds]
            log.append((name, [(type(c).__name__, c.filename) if c is not None else None for c in calibs], dict(kw), [x.data.copy() for x in fr]))
            return change(ds, lambda x: f(x, **kw))
        return step
    d = {'double': make('double', lambda x, **k: 2 * x), 'inc': make('inc', lambda x, by=1: x + by), 'tri': make('tri', lambda x, **k: 3 * x - 1)}
    S.setattr(walker, 'all_steps', d)


@harness('W04', quick=[dict(), dict(n=2, k=2)], thorough=[dict(k=4)], stubs=STUBS)
def order(S, n=1, k=3):
    """The steps run once each, in the order of the recipe, every one on the result of the one before and with its own
    keywords; steps marked to be skipped do not run; the data are stored as they are where the recipe says so."""
    setup(S)
    log = []
    steps(S, log)
    names, cur = inputs(S, n)
    first = [x.copy() for x in cur]
    rs, want, saved = [], [], None
    for i in range(k):
        o = S.choice('s%d' % i, ['double', 'inc', 'save', 'skipped', 'by'])
        if o == 'save':
            rs.append(dict(name='save'))
            saved = [x.copy() for x in cur]
            continue
        nm = dict(skipped='tri', by='inc').get(o, o)
        r = dict(name=nm)
        kw = {}
        if o == 'by':
            r['keywords'] = kw = dict(by=5 + i)
        if o == 'skipped':
            r['skip'] = True
            rs.append(r)
            continue
        if o == 'double':
            r['skip'] = False
        rs.append(r)
        want.append((nm, [], kw, [x.copy() for x in cur]))
        cur = [2 * x if nm == 'double' else x + kw.get('by', 1) for x in cur]
    recipe = dict(name='test', template=False, drpconfig=dict(track_individual_errors=False), inputs=names, outputdir='out', steps=rs)
    r0 = copy.deepcopy(recipe)
    walker.run_recipe(recipe, save_recipe_file=S.choice('file', [True, False]))
    S.same([x[:3] for x in log], [x[:3] for x in want], 'steps, calibrations and keywords, in order')
    for a, b in zip(log, want):
        for x, y in zip(a[3], b[3]):
            S.eq(x, y, 'each step gets the result of the one before')
    if saved is not None:
        for nm, x in zip(names, saved):
            f = data.Image(os.path.join('out', nm))
            S.eq(f.data, x, 'stored as it was at that point')
            S.same(json.loads(f.ext_hdr['RECIPE']), r0, 'recipe recorded in the product')
    S.same(sorted(x for x in os.listdir('out') if x.endswith('.json'))[1:], [], 'one recipe file at most')
    for nm, i in zip(names, range(n)):
        S.eq(data.Image(nm).data, first[i], 'input files unchanged')
    S.same(recipe, r0, 'recipe unchanged')


def resolve(S, jit, skip, second):
    """one step with two calibrations that are given, automatic or optional, present or missing, followed by another step"""
    setup(S, skip, jit if jit in (True, False) else S.choice('jit', [True, False]))
    log = []
    steps(S, log)
    names, cur = inputs(S, 2) # the first one decides about the calibrations
    have = S.choice('have', [True, False])
    t = [day(S, 't%d' % i) for i in range(2)]
    db = caldb.CalDB()
    if have:
        for i in range(2):
            db.create_entry(product(S, 'KGain', 'k%d.fits' % i, t[i]))
    ff = product(S, 'FlatField', 'f.fits', 60000.)
    if second == 'AUTOMATIC':
        db.create_entry(ff)
    product(S, 'KGain', 'own.fits', 60000.)
    spec = S.choice('spec', ['AUTOMATIC', 'AUTOMATIC,OPTIONAL', 'own.fits', 'automatic', None])
    cfg = {}
    if jit not in (True, False):
        cfg['jit_calib_id'] = jit == 'recipe on'
    template = dict(name='test', template=True, drpconfig=cfg, inputs=[], outputdir='',
                    steps=[dict(name='tri'), dict(name='inc', calibs=dict(FlatField=second, KGain=spec), keywords=dict(by=7)), dict(name='double'), dict(name='save')])
    t0 = copy.deepcopy(template)
    auto = spec is not None and spec.lower().startswith('automatic')
    ran, kgain, fails = True, None, False
    if auto and have:
        near = S.truth(abs(t[0] - 60010) <= abs(t[1] - 60010))
        S.assume(S.or_(abs(t[0] - 60010) != abs(t[1] - 60010)))
        kgain = 'k0.fits' if near else 'k1.fits'
    elif auto and 'OPTIONAL' not in spec:
        ran, fails = False, not skip
    elif spec == 'own.fits':
        kgain = 'own.fits'
    fail = False
    try:
        recipe = walker.autogen_recipe(names, 'out', template=template)
        walker.run_recipe(recipe, save_recipe_file=False)
    except ValueError:
        fail = True
    S.same(fail, fails, 'refused exactly if a needed calibration is missing')
    S.same(template, t0, 'template unchanged')
    if fails:
        return
    cal = [('FlatField', 'f.fits'), ('KGain', kgain) if kgain else None]
    S.same([x[:3] for x in log], [('tri', [], {})] + ([('inc', cal, dict(by=7))] if ran else []) + [('double', [], {})], 'steps and calibrations')
    for nm, x in zip(names, cur):
        v = 3 * x - 1
        out = data.Image('out/' + nm)
        S.eq(out.data, 2 * (v + 7 if ran else v), 'result')
    if ran:
        c = json.loads(out.ext_hdr['RECIPE'])['steps'][1]['calibs']
        S.same([os.path.basename(c['FlatField']), os.path.basename(c['KGain'] or '')], ['f.fits', kgain or ''], 'calibrations used are recorded in the product')


@harness('W04', quick=[dict(jit=False), dict(jit=True), dict(jit='recipe on'), dict(jit='recipe off'), dict(jit=True, skip=True), dict(jit=False, skip=True), dict(jit='recipe on', skip=True)],
         thorough=[dict(jit=j, skip=s, second='f.fits') for j in (False, True) for s in (False, True)] + [dict(jit='recipe off', skip=True)], stubs=STUBS)
def calibrations(S, jit=False, skip=False, second='AUTOMATIC'):
    """Given calibrations are used as given, automatic ones are the best match from the database, found when the recipe is
    made or just before the step; if none exists an optional one is left out, and otherwise the recipe is refused or, if so
    configured, just this step is skipped."""
    resolve(S, jit, skip, second)


@harness('W04', quick=[dict()], stubs=STUBS)
def generation(S):
    """A recipe is the template with the input files in order and the output folder filled in; templates are not changed and
    recipes made from the same template share nothing."""
    setup(S, jit=True)
    names, _ = inputs(S, 2)
    k = S.choice('k', ['AUTOMATIC', 'automatic', 'there'])
    template = dict(name='test', template=True, drpconfig={}, inputs=[], outputdir='', steps=[dict(name='dark_subtraction', calibs=dict(Dark='AUTOMATIC'), keywords=dict(outputdir=k)), dict(name='save')])
    t0 = copy.deepcopy(template)
    a = walker.autogen_recipe(names, 'out', template=template)
    a0 = copy.deepcopy(a)
    b = walker.autogen_recipe(names[::-1][:1], 'other', template=template)
    S.same(template, t0, 'template unchanged')
    S.same(a, a0, 'first recipe unchanged by the second')
    for r, i, o in ((a, names, 'out'), (b, names[1:], 'other')):
        S.same((list(r['inputs']), r['outputdir'], r['template'], r['name'], r['drpconfig']), (i, o, False, 'test', {}), 'recipe')
        S.same(r['steps'][0], dict(name='dark_subtraction', calibs=dict(Dark='AUTOMATIC'), keywords=dict(outputdir='there' if k == 'there' else o)), 'dark folder')
        S.same(r['steps'][1:], [dict(name='save')], 'other steps')


@harness('W04', quick=[dict()], stubs=STUBS + ['run_recipe (recording)'])
def whole(S):
    """The walker makes the recipe (or recipes) for the files and runs each of them once, from a template given as object,
    as file or by name."""
    setup(S, jit=True)
    names, _ = inputs(S, 1)
    got = []
    S.setattr(walker, 'run_recipe', lambda r, *a, **k: got.append(copy.deepcopy(r)))
    template = dict(name='mine', template=True, drpconfig={}, inputs=[], outputdir='', steps=[dict(name='save')])
    how = S.choice('how', ['object', 'file', 'name', 'guess', 'two'])
    with open('mine.json', 'w') as f:
        json.dump(template, f)
    if how in ('guess', 'two'):
        S.setattr(walker, 'guess_template', lambda ds: ['l1_to_l2a_nonlin.json', 'l1_to_kgain.json'] if how == 'two' else 'l1_to_l2a_eng.json')
    t = dict(object=template, file=os.path.join(os.getcwd(), 'mine.json'), name='l1_to_l2a_basic.json').get(how)
    out = walker.walk_corgidrp(names, '', 'out', template=t)
    S.same([r['name'] for r in got], dict(object=['mine'], file=['mine'], name=['l1_to_l2a_basic'], guess=['l1_to_l2a_eng'], two=['l1_to_l2a_nonlin', 'l1_to_kgain']).get(how), 'recipes run')
    S.same(out, got if how == 'two' else got[0], 'recipes returned')
    for r in got:
        S.same((r['inputs'], r['outputdir'], r['template']), (names, 'out', False), 'inputs and output folder')
