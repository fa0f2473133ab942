"""Pretty-printer for the MIR dump (debug aid)."""
import json,sys
def op(o):
    k=o[0]
    if k in('cp','mv'): return pl(o[1])
    if k=='k': return 'const '+cv(o[1])+(':'+o[3] if o[3] else '')
    if k=='pr': return 'promoted(%s,%d)'%(o[1],o[2])
    if k=='fn': return 'fn '+o[1]['full']
    return str(o)
def cv(c):
    if c[0]=='n': return c[1]
    if c[0]=='agg': return '%s::%s{%s}'%(c[1],c[2],','.join(f[0]+'='+cv(f[1]) for f in c[3]))
    return str(c)
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='*'+s
        elif e[0]=='f': s='%s.%s'%(s if not s.startswith('*') else '('+s+')',e[2])
        elif e[0]=='v': s='(%s as %s)'%(s,e[1])
        elif e[0]=='i': s='%s[_%d]'%(s,e[1])
        else: s='%s%s'%(s,e)
    return s
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s%s'%('mut ' if r[1] else '',pl(r[2]))
    if k=='reb': return '&reb %s'%pl(r[2])
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return '%s as %s [%s]'%(op(r[2]),r[4],r[1])
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k in('tup','arr'): return k+'('+', '.join(op(x) for x in r[1])+')'
    if k=='adt': return '%s::%s{%s}'%(r[1],r[2],', '.join(n+': '+op(x) for n,x in zip(r[3],r[4])))
    if k=='clo': return 'closure %s(%s)'%(r[1],', '.join(op(x) for x in r[2]))
    return str(r)
def body(b,full=True):
    for i,l in enumerate(b['locals']): print('  let _%d: %s %s'%(i,l[0],l[1] or ''))
    for i,bl in enumerate(b['blocks']):
        if bl['c']: continue
        print(' bb%d:'%i)
        for s in bl['s']:
            if s[0]=='=': print('   %s = %s'%(pl(s[1]),rv(s[2])), ' //',s[3].split('/')[-1])
            elif s[0]=='dead': pass
            else: print('  ',s)
        t=bl['t']
        if t[0]=='call':
            f=t[1]
            nm=f[1]['full'] if f[0]=='fn' else op(f)
            key=(f[1]['key'] if f[0]=='fn' else None)
            print('   %s = CALL %s%s(%s) -> %s // %s'%(pl(t[3]),nm,' [IN]' if key else '',', '.join(op(x) for x in t[2]),t[4],t[6].split('/')[-1]))
        elif t[0]=='sw': print('   switch %s %s else %s'%(op(t[1]),t[2],t[3]))
        else: print('  ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for f in d['fns']:
        if f['key']==sys.argv[2] or (len(sys.argv)>3 and sys.argv[2] in f['key']):
            print('FN',f['key'],f['span']); body(f['body'])
            for i,p in enumerate(f['promoted']): print('PROMOTED',i); body(p)
