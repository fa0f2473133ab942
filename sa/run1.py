import sys,json,time
sys.path.insert(0,'/verif/sa')
from interp import *; from models import *
d=json.load(open('/tmp/mir.json'))
db=DB(d)
def root(name):
    key='__private::__global::'+name
    cfg=db.body(key)
    # context type = the try_accounts call
    for b in cfg.b:
        t=b['t']
        if t[0]=='call' and t[1][0]=='fn' and t[1][1]['path'].endswith('Accounts::try_accounts'): ctx=t[1][1]['targs'][0]
    names=tuple(db.fields(ctx))
    M=Models(db,lib_opaque)
    e=Engine(db,M); e.names=names
    st=St({},rootpc())
    st.mem[L('r',1)]=ref(T('V',T('program_id')))
    st.mem[L('r',2)]=T('slice',T('accts',names),K(0,64),T('nacc'))
    st.mem[L('r',3)]=T('ixdata')
    e.stack.append((key,''))
    e.outs=e.run_body(cfg,'r',st)
    return e
if __name__=='__main__':
    for n in sys.argv[1:]:
        t0=time.time()
        e=root(n)
        print('==',n,'%.1fs'%(time.time()-t0),'blocks',e.nblocks,'events',len(e.events),'terms',len(terms._tab) if 'terms' in globals() else '')
        print(' outs',[(show(v,2),len(x.mem)) for x,v in e.outs])
        print(' unknown',{k[:100]:v for k,v in e.unknown.items()})
        for ev in e.events:
            if ev.kind in('LOAD',): continue
            x=dict(ev.__dict__)
            print(' ',ev.kind,ev.span.split('/')[-1],ev.loops and 'LOOP',end=' ')
            if ev.kind=='STORE': print(show(ev.root),ev.path,'=',show(ev.value,6)[:300])
            else: print({k:(show(v,5)[:300] if isinstance(v,Term) else ({a:show(b,4) for a,b in v.items()} if k=='accs' else [show(a,4)[:200] for a in v] if k=='args' else v)) for k,v in x.items() if k in('name','accs','seeds','args','ix','type','acct','value','dest')})
