"""Concrete worker: evaluates the contracts of one property on the real, unmodified code.

usage: conc.py PROP SEED BUDGET_SECONDS OUT.json [--only NAME]    random trials
       conc.py --replay FILE OUT.json                             one recorded input
"""
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PVC_REPO', '/repo')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
warnings.filterwarnings('ignore')


def load(prop):
    import specula
    specula.init(-1, precision=0)
    from pvc import api
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(prop.lower() + '_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
    return [h for h in api.HARNESSES if h.prop == prop]


def innermost(tb):
    where = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(REPO, 'specula')):
            where = ('repo', f'{os.path.relpath(f.filename, REPO)}:{f.lineno} {f.name}')
        elif f.filename.startswith(os.path.join(HERE, 'contracts')):
            where = ('contract', f'{os.path.basename(f.filename)}:{f.lineno} {f.name}')
    return where or ('engine', '?')


def classify(e, poked=False):
    from pvc.api import StaleHarness
    kind, where = innermost(e.__traceback__)
    msg = f'{type(e).__name__}: {e} at {where}'
    if isinstance(e, (StaleHarness, ImportError, SyntaxError)):
        return 'stale', msg
    if poked and isinstance(e, AttributeError) and 'NoneType' not in str(e):
        return 'stale', msg      # the harness prepared internal state the code no longer uses
    if kind == 'repo':
        return 'violation', msg
    if kind == 'contract':
        s = str(e)
        if isinstance(e, AttributeError) and 'NoneType' not in s:
            return 'stale', msg
        if isinstance(e, TypeError) and ('argument' in s or 'required' in s):
            return 'stale', msg
        return 'violation', msg
    return 'stale', msg


def one(h, seed, inputs, tmp, size=4):
    from pvc.cenv import ConcEnv, Skip, Violated
    env = ConcEnv(seed, inputs, tmp, size)
    from pvc import api
    api.ENV[0] = env
    try:
        h.fn(env)
        return 'ok', '', '', env
    except Skip:
        return 'skip', '', '', env
    except Violated as v:
        return 'violated', v.label, v.detail, env
    except Exception as e:
        k, msg = classify(e, env.poked)
        if k == 'stale':
            return 'stale', 'stale', msg, env
        return 'violated', 'no unexpected exception', msg + '\n' + traceback.format_exc()[-1500:], env
    finally:
        env.restore()


def main():
    devnull = open(os.devnull, 'w')
    real_out = sys.stdout
    sys.stdout = devnull
    tmp = tempfile.mkdtemp(prefix='pvc_conc_')
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        if sys.argv[1] == '--replay':
            rec = json.load(open(os.path.join(cwd, sys.argv[2])))
            out = sys.argv[3]
            hs = {h.name: h for h in load(rec['property'])}
            h = hs[rec['harness']]
            st, label, detail, env = one(h, rec.get('seed', 0), rec.get('inputs'), tmp)
            json.dump(dict(status=st, label=label, detail=detail, inputs=env.used), open(out, 'w'), default=str)
            return
        prop, seed, budget, out = sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4]
        only = sys.argv[6] if len(sys.argv) > 6 and sys.argv[5] == '--only' else None
        hs = load(prop)
        if only:
            hs = [h for h in hs if h.name == only]
        t0 = time.time()
        rep = []
        share = budget / max(1, len(hs))
        for h in hs:
            r = dict(name=h.name, trials=0, skipped=0, status='ok', reached={}, wall=0.0, distinct=0)
            keys = set()
            t1 = time.time()
            want = (30 if seed.endswith('T') else 3) * h.opts.get('trials', 60)
            k = 0
            while k < want * 12 and r['trials'] < want:
                if k > 0 and time.time() - t1 > share:
                    break
                s = f'{seed}/{h.name}/{k}'
                k += 1
                st, label, detail, env = one(h, s, None, tmp, size=[4, 2, 6, 3][k % 4])
                if st == 'skip':
                    r['skipped'] += 1
                    continue
                if st == 'stale':
                    r['status'] = 'stale'
                    r['detail'] = detail
                    break
                r['trials'] += 1
                if env.reached:
                    keys.add(hashlib.sha1(json.dumps(env.used, default=str, sort_keys=True).encode()).digest())
                for l, n in env.reached.items():
                    r['reached'][l] = r['reached'].get(l, 0) + n
                if st == 'violated':
                    r['status'] = 'violated'
                    r['label'], r['detail'], r['seed'], r['inputs'] = label, detail, s, env.used
                    break
            r['distinct'] = len(keys)
            r['wall'] = time.time() - t1
            rep.append(r)
        json.dump(rep, open(out, 'w'), default=str)
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
