#!/usr/bin/env python3
"""Decides one property:  check.py PROP [--tier quick|thorough]   or   check.py --replay FILE

1. proof worker: verification conditions generated from the current source of /repo, discharged by the provers
2. concrete worker: the same contracts evaluated on the real, unmodified code (cross-check of the verifier)
3. counter-models of undischarged obligations are replayed on the real code
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('PVC_PY', '/opt/venv/bin/python')
REPO = os.environ.get('PVC_REPO', '/repo')
TRUSTED = [
    'the verification-condition generator in /verif/pvc (AST instrumentation, symbolic numpy semantics); cross-checked '
    'on every run by evaluating the same contracts on the unmodified code',
    'z3, cvc5 and the polynomial normaliser of /verif/pvc/canon.py',
    'CPython semantics of the instrumented constructs',
]
ASSUME = [
    'floating-point arithmetic is read as exact real arithmetic (rounding, overflow and NaN propagation not modelled)',
    'division by zero is not modelled',
    'CPU code path only (xp = numpy); GPU, MPI and display code are not verified',
    'machine integers are mathematical integers',
]


def run(cmd, timeout):
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=HERE, text=True)


def finish(p, timeout):
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        err = 'timeout\n' + (err or '')
    return err


def load(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return default


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            l = l.strip()
            if l.startswith('finding: ') and f'property={prop} ' in l:
                out.append(dict(x.split('=', 1) for x in l.split(' what=')[0].split()[1:] if '=' in x) |
                           {'what': l.split(' what=', 1)[1]})
    except OSError:
        pass
    return out


def replay_once(rec, tag):
    evd = os.path.join(HERE, 'evidence')
    f = os.path.join(evd, f'.rp_{rec["property"]}_{tag}.json')
    o = f + '.out'
    with open(f, 'w') as fh:
        json.dump(rec, fh)
    p = run([PY, os.path.join(HERE, 'pvc', 'conc.py'), '--replay', f, o], 60)
    finish(p, 60)
    r = load(o, dict(status='error', label='', detail=''))
    for x in (f, o):
        if os.path.exists(x):
            os.remove(x)
    return r


def replay_file(path):
    rec = load(path, None)
    if rec is None:
        print('cannot read', path)
        return 2
    if rec.get('kind') == 'input':
        r = replay_once(rec, 'cli')
        print(json.dumps(r, indent=1)[:4000])
        return 1 if r['status'] == 'violated' else 0
    print(json.dumps(rec, indent=1)[:6000])
    return 1


def main():
    if sys.argv[1] == '--replay':
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    for x in os.listdir(evd):
        if x.startswith(f'replay_{prop}_'):
            os.remove(os.path.join(evd, x))
    po, co = os.path.join(evd, f'.proof_{prop}.json'), os.path.join(evd, f'.conc_{prop}.json')
    for x in (po, co):
        if os.path.exists(x):
            os.remove(x)
    cb = 40 if tier == 'quick' else 300
    pc = run([PY, os.path.join(HERE, 'pvc', 'conc.py'), prop, str(seed if tier == 'quick' else f'{seed}T'), str(cb), co], 0)
    pp = run([PY, os.path.join(HERE, 'pvc', 'prove_worker.py'), prop, tier, po, '8'], 0)
    cerr = finish(pc, cb * 3 + 60)
    perr = finish(pp, 520 if tier == 'quick' else 3000)
    conc = load(co, None)
    proof = load(po, None)
    viol = []          # (record)
    notes = []
    baseline = load(os.path.join(HERE, 'baseline', f'{prop}.json'), {})
    if conc is None:
        notes.append('concrete worker gave no result: ' + (cerr or '')[-600:])
        conc = []
    if proof is None:
        notes.append('proof worker gave no result: ' + (perr or '')[-600:])
        proof = dict(harnesses=[], error='no result')
    if proof.get('error'):
        notes.append('proof mode unavailable: ' + str(proof['error']))
    known = known_findings(prop)
    seen_known = set()

    def listed(hname, label):
        for k in known:
            if k.get('harness') == hname and (k.get('label') in (None, '*') or label.startswith(k['label'].replace('_', ' '))):
                return k
        return None
    for c in conc:
        if c['status'] == 'violated':
            k = listed(c['name'], c['label'])
            if k:
                seen_known.add(k['what'])
                continue
            viol.append(dict(kind='input', property=prop, harness=c['name'], seed=c['seed'], inputs=c['inputs'],
                             label=c['label'], detail=c['detail']))
        elif c['status'] == 'stale':
            notes.append(f'{c["name"]}: concrete evaluation stale: {c["detail"]}')
    tot = dis = 0
    bnd_tot = bnd_dis = 0
    per = []
    assumed = set()
    for h in proof['harnesses']:
        obl = h.get('obligations', {})
        n = sum(o['n'] for o in obl.values())
        d = sum(o['proved'] for o in obl.values())
        b = h.get('bounded')
        if h['status'] == 'proved' and h['mode'] == 'proof':
            tot += n
            dis += d
        elif h['mode'] == 'bounded' and h['status'] == 'proved':
            bnd_tot += n
            bnd_dis += d
        elif b is not None and b['status'] == 'proved':
            bo = b.get('obligations', {})
            bnd_tot += sum(o['n'] for o in bo.values())
            bnd_dis += sum(o['proved'] for o in bo.values())
        elif h['status'] == 'failed' and h['mode'] == 'proof':
            tot += n
            dis += d
        assumed.update(h.get('assumed', []))
        hows = {}
        for o in obl.values():
            for k, v in o['how'].items():
                hows[k] = hows.get(k, 0) + v
        per.append(dict(harness=h['name'], functions=h.get('funcs', []), mode=h['mode'], status=h['status'],
                        reason=h.get('reason', '')[:300], paths=h.get('paths', 0), obligations=n, discharged=d,
                        by=hows, wall_s=round(h.get('wall', 0), 2),
                        solver_s=round(h.get('solver', {}).get('time', 0), 2),
                        bounded=(None if b is None else dict(status=b['status'], reason=b.get('reason', '')[:200],
                                 obligations=sum(o['n'] for o in b.get('obligations', {}).values())))))
        done = False
        for src, rep in (('proof', h), ('bounded', b)):
            if rep is None or done:
                continue
            for i, f in enumerate(rep.get('fails', [])):
                k = listed(h['name'], f['label'])
                if k:
                    seen_known.add(k['what'])
                    continue
                if any(v['harness'] == h['name'] and v['kind'] == 'input' for v in viol):
                    done = True
                    break
                rec = dict(kind='input', property=prop, harness=h['name'], inputs=f.get('inputs'), seed=f'cm/{i}',
                           label=f['label'], obligation=f['label'], goal=f['goal'], source=f'counter-model ({src})')
                if f.get('inputs') is not None:
                    r = replay_once(rec, f'{h["name"]}_{i}')
                    if r['status'] == 'violated':
                        k = listed(h['name'], r['label'])
                        if k:
                            seen_known.add(k['what'])
                            continue
                        rec.update(label=r['label'], detail=r['detail'], inputs=r.get('inputs') or rec['inputs'])
                        viol.append(rec)
                        done = True
                        break
                was = baseline.get(h['name'])
                if f['status'] == 'refuted' and (was in ('proved', 'bounded') if f['abstract'] else was is not None):
                    viol.append(dict(kind='obligation', property=prop, harness=h['name'], obligation=f['label'],
                                     goal=f['goal'], reason=f.get('reason', ''), path=f.get('path'),
                                     verifier_output='the negated obligation is satisfiable', inputs=f.get('inputs')))
                    done = True
                    break
                notes.append(f'{h["name"]}: obligation "{f["label"]}" not discharged ({f["status"]}'
                             f'{", abstract" if f["abstract"] else ""}): {f.get("reason", "")[:160]}')
        if h['status'] == 'undecided':
            notes.append(f'{h["name"]}: undecided for all sizes ({h.get("reason", "")[:200]})' +
                         ('' if b is None else f'; bounded stand-in: {b["status"]} {b.get("reason", "")[:120]}'))
    trials = sum(c['trials'] for c in conc)
    nreach = sum(sum(c['reached'].values()) for c in conc)
    cfg = {}
    man = load(os.path.join(HERE, 'MANIFEST.json'), {})
    for c in man.get('checks', []):
        if c['property'] == prop:
            cfg = c
    level = cfg.get('level', 'proof')
    # one violation per harness, concrete inputs first
    viol.sort(key=lambda v: v['kind'] != 'input')
    out, seenh = [], set()
    for v in viol:
        if v['harness'] in seenh:
            continue
        seenh.add(v['harness'])
        out.append(v)
    cov = dict(obligations=tot, discharged=dis,
               checker_cmd=f'python3 /verif/check.py {prop} --tier {tier}', trusted_base=TRUSTED,
               functions_under_contract=sorted({f for p in per for f in p['functions']}),
               harnesses=per, bounded_obligations=bnd_tot, bounded_discharged=bnd_dis,
               bounded_note='bounded: array sizes fixed to the 3 smallest values of each dimension, contents symbolic; '
                            'never counted under obligations/discharged',
               evaluations=trials, distinct_nontrivial=sum(c.get('distinct', 0) for c in conc),
               rule='concrete cross-check: random harness inputs meeting every assumption, evaluated on the unmodified '
                    'code; a trial is distinct and non-trivial when its tuple of inputs is new for that harness and it reaches at '
                    'least one postcondition',
               concrete=[dict(harness=c['name'], trials=c['trials'], skipped=c['skipped'], status=c['status'],
                              checks=sum(c['reached'].values())) for c in conc],
               concrete_checks=nreach,
               explanation='contract harnesses on the real functions; obligations generated from the current source',
               undecided=notes)
    samples = []
    for h in proof['harnesses'][:6]:
        for l in list(h.get('obligations', {}))[:3]:
            samples.append(f'{h["name"]}: {l}')
    cov['samples'] = samples or ['none']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=ASSUME + sorted(assumed), violations=len(out))
    with open(os.path.join(evd, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in (po, co):
        if '--keep' not in sys.argv and os.path.exists(x):
            os.remove(x)
    for w in sorted(seen_known):
        print(f'KNOWN-FINDING: property={prop} {w}')
    for n in notes:
        print('note:', n[:700])
    print(f'{prop}: {dis}/{tot} obligations discharged, {bnd_dis}/{bnd_tot} bounded, {trials} concrete trials, '
          f'{time.time() - t0:.1f} s')
    if '--write-baseline' in sys.argv:
        os.makedirs(os.path.join(HERE, 'baseline'), exist_ok=True)
        bl = {}
        for h in proof['harnesses']:
            b = h.get('bounded')
            if h['mode'] == 'test':
                continue
            bl[h['name']] = 'proved' if h['status'] == 'proved' and h['mode'] == 'proof' else \
                'bounded' if (h['status'] == 'proved' or (b and b['status'] == 'proved')) else 'undecided'
        with open(os.path.join(HERE, 'baseline', f'{prop}.json'), 'w') as f:
            json.dump(bl, f, indent=1, sort_keys=True)
    if out:
        for i, v in enumerate(out):
            p = os.path.join(evd, f'replay_{prop}_{i}.json')
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            tail = '' if v['kind'] == 'input' else ' no-failing-input-found'
            print(f'  {v["harness"]}: {v.get("label") or v.get("obligation")}: {str(v.get("detail", ""))[:500]}')
            print(f'VIOLATION property={prop} replay={p}{tail}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
