"""Makes and confirms planted bugs.

  plant.py make [ID...]      writes seeded/<id>/ from tools/seeds.py
  plant.py verify [ID...]    in scratch copies: demo clean/patched, stable tests, the property's check
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.filterwarnings('ignore')
import numpy as np
import specula
specula.init(-1, precision=0)
'''


def make(s):
    d = f'{V}/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='plant_')
    try:
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', t + '/r'], check=True)
        for f, old, new in s['edits']:
            p = f'{t}/r/{f}'
            x = open(p).read()
            assert x.count(old) == 1, (s['id'], f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=t + '/r', capture_output=True, text=True, check=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(t)
    open(d + '/demo.py', 'w').write(HEAD + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py" >/dev/null\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def tests(repo, work):
    env = open('/opt/vp/run_shard.sh').read().replace('/repo/specula', repo + '/specula')
    sh = work + '/run_shard.sh'
    open(sh, 'w').write(env)
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/work', work + '/w').replace('cd /repo', 'cd ' + repo) \
        .replace('safe.directory=/repo', 'safe.directory=' + repo).replace('/opt/vp/run_shard.sh', sh)
    open(work + '/test.sh', 'w').write(t)
    subprocess.run(['bash', work + '/test.sh', work + '/out.json'], capture_output=True)
    r = json.load(open(work + '/out.json'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - set(r['passed']))


def verify(sid, run_tests=True, check=True):
    d = f'{V}/seeded/{sid}'
    t = tempfile.mkdtemp(prefix='plant_')
    out = dict(id=sid)
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/r'], check=True)
        r = t + '/r'
        demo = t + '/demo'
        shutil.copytree(d, demo)
        a = subprocess.run(['bash', demo + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
        out['demo_clean'] = a.returncode
        if a.returncode:
            out['err'] = a.stderr[-600:]
        p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if p.returncode:
            out['apply'] = p.stderr
            return out
        b = subprocess.run(['bash', demo + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
        out['demo_patched'] = b.returncode
        out['why'] = b.stderr.strip().split('\n')[-1][:150]
        if run_tests:
            out['broken_tests'] = tests(r, t)
        if check:
            prop = json.load(open(d + '/meta.json'))['property']
            c = subprocess.run(['python3', V + '/check.py', prop], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, PVC_REPO=r))
            out['check'] = c.returncode
            out['check_out'] = [l for l in c.stdout.split('\n') if 'VIOLATION' in l or l.startswith('  ')][:4]
    finally:
        shutil.rmtree(t)
    return out


if __name__ == '__main__':
    import seeds
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    ss = [s for s in seeds.SEEDS if not ids or s['id'] in ids]
    for s in ss:
        if sys.argv[1] == 'make':
            make(s)
        else:
            o = verify(s['id'], '--no-tests' not in sys.argv)
            ok = o.get('demo_clean') == 0 and o.get('demo_patched') and not o.get('broken_tests')
            print('GOOD' if ok else 'BAD ', 'CAUGHT' if o.get('check') == 1 else 'MISSED', json.dumps(o), flush=True)
