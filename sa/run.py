#!/usr/bin/env python3
"""run.py PROPERTY   -- decide one property on /repo's current source.

exit 0: every obligation of the property was discharged; exit 1: some were not
(one VIOLATION line; the replay file lists each construct); exit 2: the
program could not be compiled or dumped."""
import sys,os,json,time,subprocess,traceback,hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)

ASSUME=['operands of token-program and system-program calls behave as those programs document; their code is outside the repository',
 'accounts passed under different names are different accounts unless a check says otherwise (the Solana runtime forbids aliased mutable loads, which the RefCell borrow in AccountLoader turns into an error)',
 'rustc front end (type checker, borrow checker, MIR construction) of the installed nightly toolchain',
 'functions listed as arithmetic primitives are treated as opaque deterministic functions of their operands at call sites; their bodies are compared with their definition separately (C31, C32, C36)',
 'integer arithmetic wraps, as in the release profile the program is deployed with; obligations about range name the check that prevents wrapping']

def extract(out):
    return subprocess.run([os.path.join(VERIF,'tools','extract.sh'),out],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)

def known():
    """findings recorded in known-findings.txt: (property, key) -> text"""
    k={}
    p=os.path.join(VERIF,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                f=dict(x.split('=',1) for x in l[9:].split(' | ')[0].split())
                k[(f['property'],f['key'])]=l.split(' | ',1)[1].strip() if ' | ' in l else ''
    return k
def key(o): return hashlib.sha1(('%s|%s|%s'%(o['root'],o['label'],o['where'])).encode()).hexdigest()[:12]

def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if len(sys.argv)>2: tier=sys.argv[2]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time()
    work=os.path.join(VERIF,'.work'); os.makedirs(work,exist_ok=True)
    mir=os.environ.get('CYK_MIR') or os.path.join(work,'mir-%s-%d.json'%(pid,os.getpid()))
    if not os.environ.get('CYK_MIR'):
        r=extract(mir)
        if r.returncode:
            print(r.stdout[-4000:]); print('error: the program does not compile'); return 2
    import rules
    for m in('rules2','rules3','rules4','rules5','rules6'):
        if os.path.exists(os.path.join(HERE,m+'.py')): __import__(m)
    raw=json.load(open(mir))
    if not os.environ.get('CYK_MIR'): os.remove(mir)
    db=rules.DB(raw); c=rules.Checker(db)
    try: obs=rules.run_prop(c,pid)
    except Exception:
        traceback.print_exc()
        obs=c.obs+[dict(root='program',label='the analysis completed',ok=False,detail=traceback.format_exc()[-1500:],where='',span='')]
    kn=known(); bad=[]; suppressed=[]
    for o in obs:
        if o['ok']: continue
        k=(pid,key(o))
        (suppressed if k in kn else bad).append(o)
    labels={}
    for o in obs: labels.setdefault(o['label'],0); labels[o['label']]+=1
    runs={n:r for n,r in c.runs.items() if isinstance(r,rules.Run)}
    fns=set(); nev=0; kinds={}
    for r in list(runs.values())+list(c.libs.values()):
        eng=r.eng
        fns|=set(getattr(eng,'visited',()))
        for e in eng.events:
            nev+=1; kinds[e.kind]=kinds.get(e.kind,0)+1
    files=sorted({o['span'].split(':')[0] for o in obs if o['span'] and o['span']!='?'})
    spec=rules.RULES[pid]
    cov=dict(explanation=(spec.__doc__ or 'obligations of the rule, discharged on the interpreted handlers').strip(),
        entry_points=sorted(runs),library_functions=sorted({r.name for r in c.libs.values()}),
        functions_interpreted=len(fns),program_events=nev,events_by_kind=kinds,
        obligations=len(obs),discharged=len([o for o in obs if o['ok']]),distinct_rules=len(labels),
        rules={k:v for k,v in sorted(labels.items())},files=files,
        samples=[dict(where=o['root'],rule=o['label'],at=(o['where']+' '+o['span']).strip()) for o in obs[::max(1,len(obs)//8)][:8]])
    ev=dict(property=pid,tier=tier,seed=seed,level='other',coverage=cov,assumptions=ASSUME,wall_s=round(time.time()-t0,2),violations=len(bad))
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1)
    floor=FLOORS.get(pid,1)
    if len(obs)<floor:
        bad.append(dict(root='program',label='the rule found what it is about',ok=False,detail='%d obligations, at least %d expected'%(len(obs),floor),where='',span=''))
    print('%s: %d obligations on %d entry points and %d library functions, %d discharged (%.1fs)'%(pid,len(obs),len(runs),len(c.libs),cov['discharged'],time.time()-t0))
    for o in suppressed: print('KNOWN-FINDING: property=%s %s: %s'%(pid,o['root'],kn[(pid,key(o))] or o['label']))
    if bad:
        rp=os.path.join(VERIF,'evidence',pid+'.violation.json')
        json.dump([dict(o,key=key(o)) for o in bad],open(rp,'w'),indent=1)
        for o in bad[:12]: print('  %s: %s  [%s %s]\n      %s'%(o['root'],o['label'],o['where'],o['span'],o['detail'][:700]))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    return 0
FLOORS={}
fp=os.path.join(HERE,'floors.json')
if os.path.exists(fp): FLOORS=json.load(open(fp))
if __name__=='__main__': sys.exit(main())
