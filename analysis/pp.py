import json,sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif isinstance(e,int): s+='.%d'%e
        elif 'i' in e: s+='[_%d]'%e['i']
        elif 'v' in e: s+=' as %s'%e['n']
        else: s+='['+json.dumps(e)+']'
    return s
def op(o):
    if 'cp' in o: return pl(o['cp'])
    if 'mv' in o: return 'move '+pl(o['mv'])
    if o['c']=='int': return 'const '+o.get('f',o['bits'])+(':'+o['name'] if o['name'] else '')
    if o['c']=='fn': return 'fn '+o['path']+(' =>'+o['res']['path']+'/'+o['res']['kind'] if 'res' in o and o['res']['path']!=o['path'] else '')
    return json.dumps({k:v for k,v in o.items() if k!='ty'})
def rv(r):
    k=r['r']
    if k=='use': return op(r['o'])
    if k=='ref': return '&%s %s'%(r['k'],pl(r['p']))
    if k=='bin': return '%s %s %s'%(op(r['a']),r['op'],op(r['b']))
    if k=='un': return '%s %s'%(r['op'],op(r['a']))
    if k=='agg': return '%s(%s)'%(json.dumps({x:y for x,y in r['k'].items() if x!='fields'}),', '.join(map(op,r['o'])))
    if k=='discr': return 'discr %s'%pl(r['p'])
    if k=='cast': return 'cast[%s] %s -> %s'%(r['k'],op(r['o']),r['ty'].get('s',r['ty'].get('path',r['ty']['k'])))
    return json.dumps(r)
def body(b):
    print('==',b['path'],b['kind'],'argc',b['argc'],b['span'],b['names'])
    for i,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            if 'p' in s: print('   %s = %s'%(pl(s['p']),rv(s['rv'])))
            elif 'setd' in s: print('   setd',s)
        t=bb['t']
        if t['t']=='call': print('   %s = %s(%s) -> bb%s'%(pl(t['p']),op(t['f']),', '.join(map(op,t['a'])),t['b']))
        elif t['t']=='drop': print('   drop %s -> bb%d'%(pl(t['p']),t['b']))
        else: print('   ',{k:v for k,v in t.items() if k not in('ty','ln')})
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if any(x in b['path'] for x in sys.argv[2:]): body(b)
