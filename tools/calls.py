import json,sys
d=json.load(open(sys.argv[1])); print(d['errors'],len(d['functions']))
from collections import Counter
c=Counter()
def walk(x):
    if isinstance(x,dict):
        if x.get('e')=='call' and 'fn' in x and not x['fn'].get('repo'): c[x['fn']['q']]+=1
        if x.get('e')=='ctor' and not x['fn'].get('repo'): c['CTOR '+x['t'][:60]+'/'+x['fn']['kind']+str(len(x['a']))]+=1
        if x.get('e')=='unsupported' or x.get('s')=='unsupported': c['UNSUP '+str(x.get('cls'))]+=1
        for v in x.values(): walk(v)
    elif isinstance(x,list):
        for v in x: walk(v)
for f in d['functions'].values(): walk(f.get('body')); walk(f.get('inits'))
for k,v in sorted(c.items()): print(v,k)
print(Counter(f['q'] for f in d['functions'].values()))
