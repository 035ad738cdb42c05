import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = p['state'] if isinstance(p['state'], list) else [p['state']]
        if p['observe']:
            a['observe_at'] = p['observe'] if isinstance(p['observe'], list) else [p['observe']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
TECH = {'proof': 'contracts on the real functions; verification conditions generated from the current source, discharged by z3/cvc5 and a polynomial normaliser',
        'exploration': 'contracts on the real functions, obligations discharged for bounded sizes by the same verifier (bounded stand-in)'}
NOTE = ('Obligations hold for all inputs and sizes within the stated contracts; floating point read as real arithmetic; '
        'the verification-condition generator is trusted and cross-checked on the unmodified code in every run. ')
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=NA,
         notes='see DESIGN.md; no hooks in /repo')
for p in sorted(P, key=lambda p: p['id']):
    m['checks'].append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}',
                            thorough_cmd=f'python3 check.py {p["id"]} --tier thorough',
                            technique=TECH[p['level']], level=p['level'], level_note=(NOTE if p['level'] == 'proof' else
                            'Bounded: complete for the stated sizes, random beyond; see the evidence. ') + p['note']))
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
import subprocess
code = '''
import json, jsonschema
V=%r
s=json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(json.load(open(V+'/MANIFEST.json')), s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l), s)
print('ok')
''' % V
subprocess.run(['python3-vt', '-c', code], check=True)
