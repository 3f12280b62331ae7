import sys, json; sys.path.insert(0,'/verif/sa')
import extract
rows,k=extract.load('full')
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='#': s+='[_%d]'%e[1]
        elif e[0]=='##': s+='[%s]'%e[1]
        elif e[0]=='as': s+=' as '+e[1]
        elif e[0] in('sub','?'): s+='['+e[0]+']'
        else: s+='.'+e[1]
    return s
def op(o):
    if 'p' in o: return ('move ' if o.get('m') else '')+pl(o['p'])
    if o['c']=='str': return repr(o['v'])
    if o['c'] in('int','float'): return o['v']+(':'+o['variant'] if 'variant' in o else '')+(' '+o['name'] if 'name' in o else '')
    if o['c']=='fn': return 'fn '+o['f']
    return json.dumps(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return '%s as %s'%(op(r[1]),r[2])
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='agg': return '%s[%s]'%(r[1] if isinstance(r[1],str) else r[1].get('adt',r[1].get('closure',''))+'::'+r[1].get('variant',''),', '.join(op(x) for x in r[2]))
    return json.dumps(r)
def show(r):
    print('FN',r['path'],r['kind'],r.get('idx',''),'args',r['nargs'])
    for i,l in enumerate(r['locals']):
        if l[1] or i<=r['nargs']: print('   _%d %s: %s'%(i,l[1],l[0]))
    for i,b in enumerate(r['blocks']):
        if b[0]: continue
        print(' bb%d:'%i)
        for s in b[1]:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            elif s[0]!='dead': print('    ',s)
        t=b[2]
        if t['k']=='call': print('    %s = CALL %s%s(%s) -> bb%d'%(pl(t['dest']), t.get('res') or t['f'] or op(t['op']), '' if t.get('local') else ' [ext]', ', '.join(op(a) for a in t['args']), t['to']))
        elif t['k']=='switch': print('    switch %s %s else %d'%(op(t['on']),t['targets'],t['else']))
        else: print('   ',json.dumps(t))
if __name__=='__main__':
    for r in rows:
        if r['t']=='body' and any(a in r['path'] for a in sys.argv[1:]): show(r)
