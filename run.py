#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]      decide one property on /repo's current tree
   run.py --replay FILE                  replay one recorded counterexample on the unmodified code

exit 0: the property held on everything explored; exit 1: 'VIOLATION property=<id> replay=<path>'."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def env(scratch):
    e = dict(os.environ)
    e.update(HOME=scratch, MPLBACKEND='Agg', MPLCONFIGDIR=scratch, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
             XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch, PYTHONPATH=REPO if REPO != '/repo' else e.get('PYTHONPATH', ''),
             TMPDIR=scratch, ASTROPY_SKIP_CONFIG_UPDATE='1')
    return e


def call(args, scratch, timeout, log):
    with open(log, 'ab') as f:
        p = subprocess.Popen([PY, os.path.join(HERE, 'symnp', 'worker.py')] + args, cwd=scratch, env=env(scratch),
                             stdout=f if not os.environ.get('VERIF_VERBOSE') else None,
                             stderr=f if not os.environ.get('VERIF_VERBOSE') else None, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return -9


def bad(res, listed=()):
    """does a concrete run violate the property (apart from the listed findings)?"""
    if res.get('skipped'):
        return None
    f = [x for x in res.get('failures') or () if not any(k['failure'] in x for k in listed)]
    if f:
        return '; '.join(f[:3])
    if res.get('failures') and not res.get('exception'):
        return None
    if res.get('exception') and res.get('exc_in_code'):
        return 'unexpected exception ' + res['exception']
    if res.get('exception'):
        return 'unexpected exception (harness side) ' + res['exception']
    return None


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='vrf_', dir='/tmp')
    try:
        jf, of = os.path.join(scratch, 'j.json'), os.path.join(scratch, 'o.json')
        json.dump([dict(harness=d['harness'], cfg=d['cfg'], values=d['values'], seed=d.get('seed'))], open(jf, 'w'))
        call(['conc', d['property'], jf, of], scratch, 300, os.path.join(scratch, 'log'))
        if not os.path.exists(of):
            print(open(os.path.join(scratch, 'log')).read()[-2000:])
            return 2
        r = json.load(open(of))[0]['result']
        b = bad(r)
        print(json.dumps(dict(inputs=r.get('used'), failures=r.get('failures'), exception=r.get('exception'),
                              trace=r.get('trace')), indent=1))
        print('REPRODUCED: ' + b if b else 'not reproduced')
        return 1 if b else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return [k for k in out if k.get('status') == 'open']


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vrf_', dir='/tmp')
    try:
        return decide(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, t0, scratch):
    outdir = os.path.join(scratch, 'out')
    os.makedirs(outdir)
    log = os.path.join(scratch, 'log')
    nproc = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    budget = 720 if tier == 'quick' else 3400
    rc = call(['sym', prop, tier, outdir, str(nproc)], scratch, budget, log)
    results, jobs = [], []
    jf = os.path.join(outdir, 'jobs.json')
    if os.path.exists(jf):
        jobs = json.load(open(jf))
    for f in sorted(os.listdir(outdir)):
        if f.startswith('job') and f.endswith('.json') and f != 'jobs.json':
            results.append(json.load(open(os.path.join(outdir, f))))
    symlog = open(log, errors='replace').read()[-3000:] if os.path.exists(log) else ''
    done = {(r['harness'], json.dumps(r['config'], sort_keys=True, default=str)) for r in results}

    # concrete side: replay counterexamples, solver-chosen samples of undecided paths, and a few drawn inputs
    cj = []
    for r in results:
        for c in r.get('cex', []):
            cj.append(dict(kind='cex', harness=r['harness'], cfg=r['config'], values=c['values'], label=c['label'],
                           msg=c.get('msg', ''), tb=c.get('tb', '')))
        for v in r.get('samples', []):
            cj.append(dict(kind='sample', harness=r['harness'], cfg=r['config'], values=v))
    nval = 3 if tier == 'quick' else 12
    for j in jobs:
        decided = (j['harness'], json.dumps(j['cfg'], sort_keys=True, default=str)) in done
        for k in range(nval if decided else 20):
            cj.append(dict(kind='validation', harness=j['harness'], cfg=j['cfg'], values=None, seed=seed * 1000 + k))
    if rc != 0 and not jobs:
        # the symbolic side could not even start: is the package importable?
        print('the symbolic worker failed to start (rc %s):\n%s' % (rc, symlog))
    cfiles = []
    chunk = max(1, (len(cj) + nproc - 1) // nproc)
    procs = []
    for k in range(0, len(cj), chunk):
        a, b = os.path.join(scratch, 'cj%d.json' % k), os.path.join(scratch, 'co%d.json' % k)
        json.dump(cj[k:k + chunk], open(a, 'w'), default=str)
        d = os.path.join(scratch, 'home%d' % k)
        os.makedirs(d)
        lf = open(os.path.join(scratch, 'clog%d' % k), 'wb')
        procs.append((subprocess.Popen([PY, os.path.join(HERE, 'symnp', 'worker.py'), 'conc', prop, a, b], cwd=d, env=env(d),
                                       stdout=lf, stderr=lf, start_new_session=True), b, k))
    conc = []
    tlim = time.time() + (150 if tier == 'quick' else 900)
    for p, b, k in procs:
        try:
            p.wait(max(1, tlim - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        if os.path.exists(b):
            conc += json.load(open(b))
        else:
            symlog += open(os.path.join(scratch, 'clog%d' % k), errors='replace').read()[-1500:]

    kn = [k for k in known() if k['property'] == prop]
    violations, kfound, spurious, validated = [], {}, [], 0
    seen = set()
    for c in conc:
        mine = [k for k in kn if k['harness'] == c['harness']]
        for k in mine:
            if not c['result'].get('skipped') and any(k['failure'] in x for x in c['result'].get('failures') or ()):
                kfound[k['id']] = k
        b = bad(c['result'], mine)
        if not b and any(k['id'] in kfound for k in mine) and bad(c['result']):
            continue
        if c['kind'] == 'validation' and not b and not c['result'].get('skipped') and not c['result'].get('error'):
            validated += 1
        if not b:
            if c['kind'] == 'cex' and not c['result'].get('skipped'):
                spurious.append(dict(harness=c['harness'], label=c['label'], cfg=c['cfg'], msg=c.get('msg', '')[:300]))
                if os.environ.get('VERIF_TIMES'):
                    print(c.get('tb', '')[-1200:])
            continue
        if b.startswith('unexpected exception (harness side)') and c['kind'] != 'cex':
            spurious.append(dict(harness=c['harness'], label=b, cfg=c['cfg']))
            continue
        k = next((k for k in mine if k['failure'] in b and not c['result'].get('failures')), None)
        if k is not None:
            kfound[k['id']] = k
            continue
        key = (c['harness'], b.split(':')[0])
        if key in seen:
            continue
        seen.add(key)
        violations.append(dict(harness=c['harness'], cfg=c['cfg'], values=c['result'].get('used') or c['values'],
                               seed=c.get('seed'), what=b, source=c['kind'],
                               trace=c['result'].get('trace')))
    # cex that reproduce under another model of the same failure are not spurious
    repro = {v['harness'] for v in violations} | {k['harness'] for k in kfound.values()}
    spurious = [s for s in spurious if s['harness'] not in repro]

    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    vout = []
    for n, v in enumerate(violations):
        p = os.path.join(rdir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, **v), open(p, 'w'), indent=1, default=str)
        vout.append((v, p))

    # ---- evidence
    tot = dict(paths=0, decisions=0, queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0)
    funcs, ext, checks = set(), set(), {}
    incomplete, vac = [], []
    for r in results:
        if 'error' in r:
            incomplete.append(dict(harness=r['harness'], cfg=r['config'], why=r['error']))
            continue
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        funcs |= set(r['functions'])
        ext |= set(r['external'])
        for k, v in r['checks'].items():
            a = checks.setdefault(r['harness'] + '/' + k, [0, 0, 0, 0])
            for q in range(4):
                a[q] += v[q]
        if not r['complete'] or r['unknown']:
            incomplete.append(dict(harness=r['harness'], cfg=r['config'], why=r['why'] or '; '.join(
                sorted({l['msg'] for l in r['limits']}))[:300] or ('undecided: ' + ', '.join(sorted(set(r['unknown'])))[:200])))
        if not r['finished_paths'] and not r['cex']:
            vac.append(r['harness'])
    missing = [dict(harness=j['harness'], cfg=j['cfg'], why='no answer within its time') for j in jobs
               if (j['harness'], json.dumps(j['cfg'], sort_keys=True, default=str)) not in done]
    incomplete += missing
    try:
        meta = json.load(open(os.path.join(HERE, 'checks', 'meta.json'))).get(prop, {})
    except Exception:
        meta = {}
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  explanation='Bounded symbolic execution of the real functions; each assertion is a solver query over all '
                              'values within the stated bounds. states: symbolic paths; transitions: solver-decided branches. checks: [folded to true, proved unsat, failed, undecided].',
                  functions_encoded=sorted(funcs), harnesses=[dict(name=j['harness'], bounds=j['cfg'], what=j['doc'],
                                                                  stubs=j['stubs']) for j in jobs],
                  bounds=meta.get('bounds', ''), states=tot['paths'], transitions=tot['decisions'],
                  traces_validated_against_impl=validated + sum(1 for c in conc if c['kind'] != 'validation'),
                  samples=[dict(harness=c['harness'], cfg=c['cfg'], inputs=c['result'].get('used')) for c in conc
                           if c['kind'] == 'validation' and c['result'].get('checks')][:2],
                  queries=tot['queries'],
                  queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'],
                  solver_s=round(tot['solver_s'], 3), checks=checks, incomplete=incomplete,
                  external_stubs_met=sorted(ext), concrete_validation_runs=validated,
                  unreproduced_candidates=spurious, vacuous=vac, known_findings=sorted(kfound)),
              assumptions=meta.get('assumptions', []) + [
                  'floats are modelled as extended reals (no rounding); counterexamples are replayed in IEEE arithmetic',
                  'the numpy operations are modelled elementwise by symnp (validated against numpy by symnp/selftest.py)'],
              violations=len(vout), violation_list=[dict(what=v['what'], harness=v['harness'], replay=p) for v, p in vout])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)

    print('%s %s: %d harness runs, %d paths, %d queries, %.1fs solver, %.1fs wall; %d functions; %d validation runs'
          % (prop, tier, len(results), tot['paths'], tot['queries'], tot['solver_s'], time.time() - t0, len(funcs), validated))
    if os.environ.get('VERIF_TIMES'):
        for r in results:
            print('  %6.1fs %s %s paths=%s queries=%s solver=%.1f' % (r['wall_s'], r['harness'], r['config'], r.get('stats', {}).get('paths'),
                  r.get('stats', {}).get('queries'), r.get('stats', {}).get('solver_s', 0)))
    for i in incomplete:
        print('  incomplete: %s' % json.dumps(i, default=str)[:400])
    for s in spurious:
        print('  unreproduced candidate: %s' % json.dumps(s, default=str)[:300])
    for v in vac:
        print('  vacuous harness: %s' % v)
    if not jobs:
        print('  symbolic side failed: ' + symlog[-1500:])
    for k in kfound.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for v, p in vout:
        print('  %s%s: %s' % (v['harness'], v['cfg'] or '', v['what'][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1 if vout else 0


if __name__ == '__main__':
    sys.exit(main())
