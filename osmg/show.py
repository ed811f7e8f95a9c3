import json,sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+e[1]
        elif e[0]=='v': s+='#'+e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return ('' if o['k']=='copy' else 'mv ')+pl(o['p'])
    if o['k']=='const':
        if 'fn' in o: return 'fn '+o['fn'].get('rpath',o['fn']['path'])
        d={k:v for k,v in o.items() if k not in('k','ty')}
        return 'const %s:%s'%(d,o['ty'])
    return str(o)
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&%s%s'%('mut ' if r['mut'] else '',pl(r['p']))
    if k=='bin': return '%s %s %s'%(op(r['a']),r['op'],op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['o']))
    if k=='discr': return 'discr(%s: %s)'%(pl(r['p']),r['ty'])
    if k=='cast': return '%s as %s (%s)'%(op(r['o']),r['to'],r['ck'])
    if k=='agg':
        n=r['a'] if r['a']!='adt' else r['adt']+'::'+r['variant']
        if r['a']=='closure': n=r['fn']
        return '%s{%s}'%(n,', '.join(op(o) for o in r['ops']))
    return str(r)
def show(f,full=True):
    print('fn',f['path'],'|',f['key'],f['sp'])
    for n,p in f['names']: print('   debug',n,'=',pl(p))
    for i,t in enumerate(f['locals']):
        print('   let _%d: %s'%(i,t))
    for i,b in enumerate(f['blocks']):
        if b['cleanup']: continue
        print(' bb%d:'%i)
        for s in b['st']:
            if s['s']=='=': print('    %s = %s   @%d'%(pl(s['p']),rv(s['r']),s['sp'][1]))
        t=b['t']
        if t['t']=='call': print('    %s = %s(%s) -> %s  @%d'%(pl(t['dest']),op(t['f']),', '.join(op(a) for a in t['args']),t['to'],t['sp'][1]))
        elif t['t']=='switch': print('    switch %s %s else %s'%(op(t['o']),t['targets'],t['otherwise']))
        elif t['t']=='drop': print('    drop %s -> %s'%(pl(t['p']),t['to']))
        elif t['t']=='assert': print('    assert %s %s %s -> %s'%(op(t['c']),t['exp'],t['kind'],t['to']))
        else: print('   ',{k:v for k,v in t.items() if k not in('sp','mac')})
if __name__=='__main__':
    j=json.load(open(sys.argv[1]))
    for f in j['fns']:
        if sys.argv[2] in f['path'] or sys.argv[2] in f['key']: show(f)
