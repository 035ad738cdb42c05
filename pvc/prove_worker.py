"""Proof worker: loads the instrumented code once, then proves each harness in a forked child.

usage: prove_worker.py PROP TIER OUT.json NPROC
"""
import importlib
import json
import os
import sys
import time
import traceback
import resource

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(1, HERE)
sys.setrecursionlimit(20000)


def load(prop):
    from pvc import loader, api
    loader.install(os.path.join(HERE, 'contracts'))
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(prop.lower() + '_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
    return [h for h in api.HARNESSES if h.prop == prop]


def job(h, tier, path):
    from pvc import engine
    heavy = h.opts.get('heavy', 1)
    dl = (60.0 if tier == 'quick' else 400.0) * heavy
    mode = h.opts.get('mode', 'proof')
    rep = None
    if mode == 'test':
        rep = dict(name=h.name, mode='test', status='test-only', funcs=h.opts['funcs'], obligations={}, fails=[],
                   paths=0, wall=0.0, reason=h.opts.get('why', ''))
    else:
        rep = engine.run_harness(h, mode, dl, timeout=6.0 if tier == 'quick' else 20.0)
        if rep['status'] == 'undecided' and mode == 'proof' and not rep['reason'].startswith('stale'):
            rb = engine.run_harness(h, 'bounded', dl, timeout=4.0 if tier == 'quick' else 15.0)
            rep['bounded'] = rb
    with open(path + '.tmp', 'w') as f:
        json.dump(rep, f, default=str)
    os.rename(path + '.tmp', path)


def main():
    prop, tier, out, nproc = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    only = sys.argv[5] if len(sys.argv) > 5 else None
    so = sys.stdout
    if not only:
        sys.stdout = open(os.devnull, 'w')
    res = dict(harnesses=[], error=None, load=0.0)
    t0 = time.time()
    try:
        hs = load(prop)
        res['load'] = time.time() - t0
    except BaseException as e:
        from pvc import engine
        res['error'] = f'load: {type(e).__name__}: {e}'
        res['trace'] = traceback.format_exc()[-3000:]
        hs = []
    if only:
        hs = [h for h in hs if h.name in only.split(',')]
    running = {}
    todo = sorted(hs, key=lambda h: -h.opts.get('heavy', 1))
    order = {h.name: i for i, h in enumerate(hs)}
    hard = 330.0 if tier == 'quick' else 800.0
    while todo or running:
        while todo and len(running) < nproc:
            h = todo.pop(0)
            p = f'{out}.{order[h.name]}'
            if os.path.exists(p):
                os.remove(p)
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    job(h, tier, p)
                except BaseException as e:
                    with open(p, 'w') as f:
                        json.dump(dict(name=h.name, mode='proof', status='undecided', funcs=h.opts['funcs'],
                                       reason=f'engine crash: {type(e).__name__}: {e}', obligations={}, fails=[],
                                       trace=traceback.format_exc()[-3000:], paths=0, wall=0.0), f)
                os._exit(0)
            running[pid] = (h, p, time.time())
        for pid in list(running):
            h, p, ts = running[pid]
            d, _ = os.waitpid(pid, os.WNOHANG)
            if d:
                del running[pid]
            elif time.time() - ts > hard:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                del running[pid]
        time.sleep(0.02)
    for h in hs:
        p = f'{out}.{order[h.name]}'
        try:
            with open(p) as f:
                res['harnesses'].append(json.load(f))
            os.remove(p)
        except (OSError, ValueError):
            res['harnesses'].append(dict(name=h.name, mode='proof', status='undecided', reason='killed (time/memory)',
                                         funcs=h.opts['funcs'], obligations={}, fails=[], paths=0, wall=hard))
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


if __name__ == '__main__':
    main()
