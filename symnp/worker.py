"""symbolic:  worker.py sym  PROP TIER OUTDIR NPROC
   concrete:  worker.py conc PROP JOBS.json OUT.json"""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import random

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')


def load(prop):
    mod = importlib.import_module('checks.' + prop)
    from symnp.reg import HARNESSES
    return mod, {k[1]: v for k, v in HARNESSES.items() if k[0] == prop}


def monitor(seen):
    mon = sys.monitoring
    mon.use_tool_id(4, 'symnp')
    root = os.path.join(REPO, 'corgidrp') + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            seen.add(os.path.basename(code.co_filename) + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def child(h, cfg, tier, out, time_s):
    from symnp.harness import SymRun
    seen = set()
    monitor(seen)
    opts = dict(h['opts'])
    opts['time_s'] = opts.get('time_s', time_s)
    t0 = time.time()
    try:
        sys.setrecursionlimit(20000)
        r = SymRun(h['name'], h['fn'], cfg, opts).go().result()
    except BaseException as e:
        r = dict(name=h['name'], error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:])
    r['harness'], r['config'] = h['name'], cfg
    r['wall_s'] = time.time() - t0
    r['functions'] = sorted(seen)
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(out + '.tmp', out)


def sym(prop, tier, outdir, nproc):
    from symnp import patch
    patch.install(REPO)
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        mod, hs = load(prop)
    jobs = []
    for h in hs.values():
        for k, cfg in enumerate(h[tier]):
            jobs.append((h, cfg))
    budget = float(os.environ.get('VERIF_BUDGET', 600 if tier == 'quick' else 3000))
    job_s = 240 if tier == 'quick' else 900
    t_end = time.time() + budget
    running = {}
    todo = list(enumerate(jobs))
    only = os.environ.get('VERIF_ONLY')
    if only:
        todo = [(i, j) for i, j in todo if j[0]['name'] in only.split(',')]
    while todo or running:
        while todo and len(running) < nproc and time.time() < t_end:
            i, (h, cfg) = todo.pop(0)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setsid()
                out = os.path.join(outdir, 'job%03d.json' % i)
                if not os.environ.get('VERIF_VERBOSE'):
                    fd = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                os.chdir(outdir)
                child(h, cfg, tier, out, min(h['opts'].get('time_s', job_s), max(5, t_end - time.time())))
                os._exit(0)
            limit = h['opts'].get('time_s', job_s) * 1.5 + 30
            running[pid] = (i, time.time() + limit)
        if todo and time.time() >= t_end:
            todo = []
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid:
            running.pop(pid, None)
            continue
        for pid, (i, lim) in list(running.items()):
            if time.time() > lim or time.time() > t_end + 60:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        time.sleep(0.02)
    with open(os.path.join(outdir, 'jobs.json'), 'w') as f:
        json.dump([dict(i=i, harness=h['name'], cfg=cfg, doc=h['doc'], stubs=h['stubs']) for i, (h, cfg) in enumerate(jobs)
                   if not only or h['name'] in only.split(',')], f, default=str)


def conc(prop, jobsf, out):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        mod, hs = load(prop)
    from symnp.harness import run_concrete
    assert 'symnp.patch' not in sys.modules
    jobs = json.load(open(jobsf))
    scratch = os.path.dirname(os.path.abspath(out))
    # each run in its own forked child: no state carries over
    for n, j in enumerate(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                d = os.path.join(scratch, 'c%d' % n)
                os.makedirs(d, exist_ok=True)
                os.chdir(d)
                fd = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get('VERIF_VERBOSE'):
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                signal.alarm(90)
                rng = random.Random(j['seed']) if j.get('seed') is not None else None
                res = run_concrete(hs[j['harness']]['fn'], j.get('values'), j['cfg'], rng)
                data = json.dumps(res, default=str).encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException as e:
                try:
                    os.write(w, json.dumps(dict(failures=[], exception=None, checks=0, error=repr(e))).encode())
                except Exception:
                    pass
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            j['result'] = json.loads(data)
        except ValueError:
            j['result'] = dict(failures=[], exception=None, checks=0, error='timeout or crash')
    json.dump(jobs, open(out, 'w'), default=str)


if __name__ == '__main__':
    if sys.argv[1] == 'sym':
        sym(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]))
    else:
        conc(sys.argv[2], sys.argv[3], sys.argv[4])
