import json,sys
d=json.load(open(sys.argv[1]))
def pe(e):
    if e is None: return 'null'
    k=e['e']
    if k=='int': return e['v']+('' if 'int' in e['t'] else ':'+e['t'])
    if k=='var': return e['name']
    if k=='load': return 'L('+pe(e['x'])+')'
    if k=='cast': return '<%s:%s>(%s)'%(e['ck'],e['t'],pe(e['x']))
    if k=='mem': return pe(e['x'])+('->' if e['arrow'] else '.')+e['name']
    if k in('call',):
        s=e['fn']['q'] if 'fn' in e else '('+pe(e['callee'])+')'
        if 'fn' in e and 'targs' in e['fn']: s+='{'+','.join(str(x.get('t',x)) for x in e['fn']['targs'])+'}'
        a=', '.join(pe(x) for x in e['a'])
        if 'obj' in e: s='['+pe(e['obj'])+('->' if e.get('arrow') else '.')+s+']'
        return s+'('+a+')'
    if k=='ctor': return 'NEW '+e['fn']['q']+'/'+e['fn']['kind']+'{'+e['t']+'}('+', '.join(pe(x) for x in e['a'])+')'
    if k=='mat': return 'MAT('+pe(e['x'])+')'
    if k=='bin' : return '('+pe(e['a'][0])+e['op']+pe(e['a'][1])+')'
    if k=='cassign': return '('+pe(e['a'][0])+e['op']+'= '+pe(e['a'][1])+')'
    if k=='un': return '('+(e['op']+pe(e['x']) if not e['post'] else pe(e['x'])+e['op'])+')'
    if k=='cond': return '('+pe(e['a'][0])+'?'+pe(e['a'][1])+':'+pe(e['a'][2])+')'
    if k=='str': return json.dumps(e['v'])
    if k=='lambda': return 'LAMBDA'+json.dumps(e['caps'])+str([o['id'] for o in e['ops']])
    if k=='throw': return 'THROW '+(pe(e['x']) if 'x' in e else '')
    if k in('this','nullptr','zero'): return k
    if k=='ilist': return '{'+', '.join(pe(x) for x in e['a'])+'}'
    return '<<'+json.dumps(e)[:300]+'>>'
def pd(v): return v['t']+' '+v['name']+(' = '+pe(v['init']) if 'init' in v else '')
def ps(s,ind=1):
    I='  '*ind
    if s is None: return
    k=s['s']
    if k=='block':
        print(I+'{')
        for x in s['b']: ps(x,ind+1)
        print(I+'}')
    elif k=='expr': print(I+pe(s['x']))
    elif k=='decl':
        for v in s['d']: print(I+pd(v))
    elif k=='if':
        print(I+'if',pe(s['c'])); ps(s['then'],ind+1)
        if s['else']: print(I+'else'); ps(s['else'],ind+1)
    elif k=='rfor':
        print(I+'rfor'); ps(s['range'],ind+1);ps(s['begin'],ind+1);ps(s['end'],ind+1); print(I+'  cond',pe(s['c'])); print(I+'  inc',pe(s['inc'])); ps(s['var'],ind+1); ps(s['body'],ind+1)
    elif k=='for':
        print(I+'for'); ps(s['init'],ind+1); print(I+'  cond',pe(s['c'])); print(I+'  inc',pe(s['inc'])); ps(s['body'],ind+1)
    elif k=='return': print(I+'return',pe(s.get('x')))
    else: print(I+json.dumps(s)[:400])
for f in d['functions'].values():
    if len(sys.argv)>2 and sys.argv[2] in f['diag']:
        print(f['id'],f['diag'],[p['t'] for p in f['params']])
        for i in f.get('inits',[]): print('   init',i.get('mem',i.get('base')),pe(i['x']))
        ps(f.get('body'))
