"""One analysed entry point (instruction handler or library function) and the
helpers rules are written with."""
import re
from interp import *
from models import *

WID={'u8':8,'u16':16,'u32':32,'u64':64,'u128':128,'i16':16,'i32':32,'i64':64,'i128':128}
def A(n): return T('acct',n)
def KEY(a): return T('key',A(a) if isinstance(a,str) else a)
def D0(a,ty): return T('data',A(a) if isinstance(a,str) else a,ty)
def IX(f): return fld(T('ix'),f)
def S(x): return T('str',x)
def be(x,w): return T('call','be',x,K(w,16))
PID=T('program_id')
def call(n,*a): return T('call',n,*canon(n,a))
def AND(*xs): return conj(list(xs))
def OR(*xs):
    r=FALSE
    for x in xs[::-1]: r=or_(x,r)
    return r
def EQ(a,b): return eqt(a,b)
def NOW32(): return T('trunc',64,32,fld(T('sysvar','Clock'),'unix_timestamp'))

class Missing(Exception): pass

class Run:
    def __init__(s,db,name):
        s.db=db; s.name=name
        key='__private::__global::'+name
        if key not in db.fns: raise Missing('no entry point '+name)
        cfg=db.body(key); ctx=None
        for b in cfg.b:
            t=b['t']
            if t[0]=='call' and t[1][0]=='fn' and t[1][1]['path'].endswith('Accounts::try_accounts'): ctx=t[1][1]['targs'][0]
        if ctx is None: raise Missing('no account context in '+name)
        s.ctx=ctx
        s.names=tuple(db.fields(ctx))
        e=s.eng=Engine(db,Models(db,lib_opaque)); e.names=s.names
        st=St({},rootpc())
        st.mem[L('r',1)]=ref(T('V',PID))
        st.mem[L('r',2)]=T('slice',T('accts',s.names),K(0,64),T('nacc'))
        st.mem[L('r',3)]=T('ixdata')
        e.stack.append((key,''))
        outs=e.run_body(cfg,'r',st)
        ok=[x for x,v in outs if v.op=='agg' and v.a[1]=='Ok']
        if len(ok)!=1: raise Missing('%s: %d success exits'%(name,len(ok)))
        s.ok=ok[0]; s.F=s.ok.pc.F()
        s.events=e.events
        s.dead=s.F.bad
    # -- values
    def fin(s,a,ty,f=None):
        v=s.eng.get(s.ok,T('D',A(a) if isinstance(a,str) else a,ty))
        return fld(v,f) if f else v
    def ini(s,a,ty,f): return fld(D0(a,ty),f)
    # -- events
    def evs(s,kind,**kw):
        r=[]
        for e in s.events:
            if e.kind!=kind: continue
            if all(getattr(e,k,None) is v or getattr(e,k,None)==v for k,v in kw.items()): r.append(e)
        return r
    def stores(s,ty=None,field=None,acct=None):
        r=[]
        for e in s.events:
            if e.kind!='STORE': continue
            if ty and e.root.a[1]!=ty: continue
            if acct and e.root.a[0] is not acct: continue
            if field and not(e.path and e.path[0]==('f',field)): continue
            r.append(e)
        return r
    def cond(s,ev,end=None):
        """condition of an event relative to the success exit (or to another point)"""
        end=end or s.ok.pc
        p=lca(ev.pc,end); F=end.F()
        return conj([F.simp(x) for x in ev.pc.chain(p)])
    def endof(s,ev):
        """path condition at the end of the outermost loop iteration the event belongs to, else at success"""
        if not ev.loops: return s.ok.pc
        li=s.eng.loopinfo.get(ev.loops[0])
        return li['backpc'] if li and li['backpc'] is not None else None
    # -- proving
    def holds(s,g,ev=None,extra=(),budget=6000):
        F=s.F if ev is None else ev.pc.F() if hasattr(ev,'pc') else ev.F() if hasattr(ev,'chain') else ev
        return prove(g,F,budget,extra)
    def same(s,a,b,ev=None,extra=()):
        if a is b or s.holds(eqt(a,b),ev,extra): return True
        m=s.zeros(a,b)
        return bool(m) and s.holds(eqt(subst(a,m),subst(b,m)),ev,extra)
    def zeros(s,*ts):
        """fields of accounts created by this instruction: they start as zero"""
        new={(e.acct,e.type) for e in s.evs('INIT')}; m={}
        for t in ts if new else ():
            for x in subterms(t):
                if x.op=='fld' and len(x.a)==2 and x.a[0].op=='data' and (x.a[0].a[0],x.a[0].a[1]) in new:
                    ad=s.db.adts.get(x.a[0].a[1]) or s.db.adt_by_strip.get(x.a[0].a[1]) or next((v for k,v in s.db.adts.items() if short(k)==x.a[0].a[1]),None)
                    ty=dict((f[0],f[1]) for f in ad['variants'][0][2]).get(x.a[1]) if ad else None
                    if ty in WID: m[x]=K(0,WID[ty])
                    elif ty=='bool': m[x]=FALSE
        return m
    def always(s,ev): return s.holds(s.cond(ev))
    def writes(s,acct,ty):
        return sorted({p for e in s.stores(ty,acct=acct) for p in [e.path[0][1] if e.path else '*']})

def where(ev):
    """stable description of a program point: innermost crate function, no line numbers"""
    return ev.stack[-1][0] if getattr(ev,'stack',None) else '?'
def span(ev): return getattr(ev,'span','?') if ev is not None else '?'

class LibRun:
    """standalone analysis of a library function with symbolic arguments"""
    def __init__(s,db,key,args=None,opaque=lib_opaque,inline=()):
        s.db=db; s.name=key
        if key not in db.fns: raise Missing('no function '+key)
        cfg=db.body(key)
        def op(c):
            if c.path==key or any(c.path==x or c.path.endswith('::'+x) for x in inline): return None
            return opaque(c)
        e=s.eng=Engine(db,Models(db,op)); e.names=()
        st=St({},rootpc()); s.args=[]
        for i in range(cfg.argc):
            ty=cfg.locals[i+1][0]
            big=short(ty) if isinstance(ty,str) else ''
            v=args[i] if args and i<len(args) and args[i] is not None else T('arg',i,{'U128':128,'U256':256}[big]) if big in('U128','U256') else T('arg',i)
            s.args.append(v)
            if isinstance(ty,(list,tuple)) and ty and ty[0]=='ref' or isinstance(ty,str) and ty.startswith('&'):
                st.mem[L('ra',i+1)]=v; v=ref(L('ra',i+1))
            st.mem[L('r',i+1)]=v
        e.stack.append((key,''))
        s.outs=e.run_body(cfg,'r',st)
        s.ok=[x for x,v in s.outs if not(v.op=='agg' and v.a[0]=='std::result::Result' and v.a[1]=='Err')]
        s.vals=[v for x,v in s.outs if not(v.op=='agg' and v.a[0]=='std::result::Result' and v.a[1]=='Err')]
