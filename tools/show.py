import json,sys
d=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/o.json'))
print(d.get('error'), (d.get('trace') or '')[-800:])
for h in d['harnesses']:
    print(h['name'],h['mode'],h['status'],'paths',h['paths'],'wall',round(h['wall'],1),h.get('reason','')[:300], {k:v for k,v in (h.get('solver') or {}).items()})
    for l,o in (h.get('obligations') or {}).items(): print('    ',l,o if not isinstance(o,dict) else {k:v for k,v in o.items() if v})
    for f in h.get('fails',[])[:4]: print('   FAIL',str(f)[:1200])
    if h['status']!='proved' and h.get('trace'): print(h['trace'][-900:])
    if h.get('bounded'):
        b=h['bounded'];print('  bounded:',b['status'],b.get('reason','')[:300])
