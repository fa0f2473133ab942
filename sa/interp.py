"""Abstract interpretation of the MIR dump.

One merged abstract state per program point (no path enumeration): a state maps
cells (locals, account data, boxes) to value-number terms; at joins values are
merged under the branch condition (gated merge); loops are summarised by header
phi terms found by iterating to a fixpoint; calls to crate functions are
interpreted in place; everything outside the crate goes through the models in
models.py.  The result of a root is a log of effects (stores to accounts, CPIs,
emitted events, exits), each with the facts that hold where it happens.
"""
import re,sys
from terms import *
sys.setrecursionlimit(200000)

ENUMS={'std::result::Result':{'Ok':0,'Err':1},'std::option::Option':{'None':0,'Some':1},
 'std::ops::ControlFlow':{'Continue':0,'Break':1},'std::cmp::Ordering':{'Less':-1,'Equal':0,'Greater':1},
 'anchor_lang::solana_program::program_option::COption':{'None':0,'Some':1}}
def strip(ty):
    """type name without generics"""
    out=[];d=0
    for c in ty:
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: out.append(c)
    return ''.join(out).replace('::::','::').strip()
def targs_of(ty):
    """top-level generic arguments of a type string"""
    i=ty.find('<')
    if i<0: return []
    d=0;cur='';out=[]
    for c in ty[i+1:ty.rfind('>')]:
        if c in '<([': d+=1
        elif c in '>)]': d-=1
        if c==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=c
    out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]

class PC:
    __slots__=('p','fact','d','_F')
    def __init__(s,p,fact):
        s.p=p;s.fact=fact;s.d=p.d+1 if p else 0;s._F=None
    def F(s):
        if s._F is None:
            st=[];n=s
            while n._F is None: st.append(n);n=n.p
            for m in reversed(st):
                F=m.p._F.copy(); F.assume(m.fact); m._F=F
        return s._F
    def assume(s,f):
        if f is TRUE: return s
        return PC(s,f)
    def chain(s,upto):
        r=[];n=s
        while n is not upto: r.append(n.fact);n=n.p
        return r[::-1]
def rootpc():
    r=PC(None,TRUE); r._F=Facts(); return r
def lca(a,b):
    while a is not b:
        if a.d>=b.d: a=a.p
        else: b=b.p
    return a

class St:
    __slots__=('mem','pc','err')
    def __init__(s,mem,pc,err=False): s.mem=mem;s.pc=pc;s.err=err
    def fork(s,fact=None):
        return St(dict(s.mem),s.pc.assume(fact) if fact is not None else s.pc,s.err)

class Ev:
    """an effect"""
    def __init__(s,kind,**kw):
        s.kind=kind; s.__dict__.update(kw)
    def __repr__(s): return 'Ev(%s)'%s.kind
    @property
    def F(s): return s.pc.F()

class Fn: pass
class DB:
    def __init__(s,dump):
        s.fns={f['key']:f for f in dump['fns']}
        s.adts=dump['adts']; s.roots=dump['roots']
        s.cfg={}
        s.adt_by_strip={}
        for n,a in s.adts.items(): s.adt_by_strip.setdefault(strip(n),a)
    def vmap(s,ty):
        k=strip(ty)
        if k in ENUMS: return ENUMS[k]
        a=s.adts.get(ty) or s.adt_by_strip.get(k)
        if a and a['kind']=='enum': return {v[0]:int(v[1]) for v in a['variants']}
        return {}
    def fields(s,ty):
        a=s.adts.get(ty) or s.adt_by_strip.get(strip(ty))
        return [f[0] for f in a['variants'][0][2]] if a and a['kind']!='enum' else None
    def body(s,key,prom=None):
        k=(key,prom)
        c=s.cfg.get(k)
        if c is None:
            f=s.fns[key]
            c=CFG(f['body'] if prom is None else f['promoted'][prom],key,prom,f)
            s.cfg[k]=c
        return c

class CFG:
    def __init__(s,body,key,prom,fn):
        s.key=key if prom is None else '%s#p%d'%(key,prom); s.fn=fn
        s.b=body['blocks']; s.locals=body['locals']; s.argc=body['argc']; s.spread=body.get('spread')
        n=len(s.b)
        s.succ=[[] for _ in range(n)]
        for i,b in enumerate(s.b):
            if b['c']: continue
            t=b['t'];k=t[0]
            if k=='goto': x=[t[1]]
            elif k=='sw': x=[y[1] for y in t[2]]+([t[3]] if t[3] is not None else [])
            elif k=='drop': x=[t[2]]
            elif k=='call': x=[t[4]] if t[4] is not None else []
            elif k=='assert': x=[t[3]]
            else: x=[]
            s.succ[i]=[y for y in x if not s.b[y]['c']]
        # rpo
        seen=set();post=[]
        st=[(0,iter(s.succ[0]))];seen.add(0)
        while st:
            u,it=st[-1]
            for v in it:
                if v not in seen: seen.add(v);st.append((v,iter(s.succ[v])));break
            else: post.append(u);st.pop()
        s.order=post[::-1]; s.rpo={b:i for i,b in enumerate(s.order)}
        pred={b:[] for b in s.order}
        for u in s.order:
            for v in s.succ[u]: pred[v].append(u)
        # dominators
        idom={0:0}; ch=True
        def inter(a,b):
            while a!=b:
                while s.rpo[a]>s.rpo[b]: a=idom[a]
                while s.rpo[b]>s.rpo[a]: b=idom[b]
            return a
        while ch:
            ch=False
            for b in s.order[1:]:
                ps=[p for p in pred[b] if p in idom]
                x=ps[0]
                for p in ps[1:]: x=inter(x,p)
                if idom.get(b)!=x: idom[b]=x;ch=True
        def dom(a,b):
            while b!=a and b!=0: b=idom[b]
            return a==b
        s.loops={}
        for u in s.order:
            for v in s.succ[u]:
                if s.rpo[v]<=s.rpo[u]:
                    if not dom(v,u): raise Exception('irreducible loop in '+s.key)
                    body=s.loops.setdefault(v,{v}); stk=[u]
                    while stk:
                        x=stk.pop()
                        if x in body: continue
                        body.add(x); stk+=pred[x]
        # inner loop depth for each header
        s.nlocals=len(s.locals)

class Diverge(Exception): pass

def L(frame,i): return T('L',frame,i)
def ref(root,path=()): return T('ref',root,tuple(path))
def refval(t):
    """reference to an immutable value"""
    return ref(T('V',t))
def Ok(v): return mkagg('std::result::Result','Ok',('0',),(v,))
def Err(v): return mkagg('std::result::Result','Err',('0',),(v,))
def Some(v): return mkagg('std::option::Option','Some',('0',),(v,))
NONE=mkagg('std::option::Option','None',(),())
def tup(*v): return mkagg('tup','',tuple(map(str,range(len(v)))),v)
def arr(v): return T('agg','arr','',(),tuple(v))
ERR=T('error')

class Engine:
    def __init__(s,db,models,opaque=(),trace=False):
        s.db=db; s.models=models; s.opaque=opaque
        s.events=[]; s.drops=[]; s.loopinfo={}; s.unknown={}; s.visited={}; s.nblocks=0
        s.frames={}; s.stack=[]; s.loopstack=[]
        s.names=None; s.calls=[]; s.usuf=''
        s.box=0; s.fninfo={}
    # ------------------------------------------------------------ memory
    def default(s,root):
        o=root.op
        if o=='V': return root.a[0]
        if o=='D': return T('data',root.a[0],root.a[1])
        if o=='P':
            p=root.a[0]
            if p.op=='fld' and p.a[1]=='key': return T('key',p.a[0])
            if p.op=='fld' and p.a[1]=='owner' and p.a[0].op=='acct': return T('acctowner',p.a[0])
            return T('deref',p)
        if o=='E': return T('ep0')
        if o=='S': return T('program_id') if root.a[0]=='ID' else T('static',root.a[0])
        return T('undef')
    def get(s,st,root):
        v=st.mem.get(root)
        return s.default(root) if v is None else v
    def proj(s,v,path):
        for e in path: v=s.step(v,e)
        return v
    def step(s,v,e):
        k=e[0]
        if k=='f': return fld(v,e[1])
        if k=='v':
            r=down(v,e[1]); return r if r is not None else T('undef')
        if k=='i': return s.index(v,e[1])
        raise Exception('proj '+str(e))
    def index(s,v,i):
        if v.op=='slice':
            b,st,ln=v.a
            return s.index(b,add(st,i,64))
        if v.op=='accts':
            if isk(i):
                n=kv(i)
                nm=v.a[0]
                return T('acct',nm[n]) if n<len(nm) else T('acct','rem',K(n-len(nm),64))
            return T('acct','rem',sub(i,K(len(v.a[0]),64),64))
        return idx(v,i)
    def setp(s,v,path,new):
        if not path: return new
        e=path[0]; k=e[0]
        if k=='f': return setfld(v,e[1],s.setp(fld(v,e[1]),path[1:],new))
        if k=='v':
            d=down(v,e[1])
            if d is None: d=T('undef')
            return s.setp(d,path[1:],new)
        if k=='i':
            old=s.index(v,e[1]); nv=s.setp(old,path[1:],new)
            if v.op=='agg' and v.a[0]=='arr' and isk(e[1]) and kv(e[1])<len(v.a[3]):
                l=list(v.a[3]); l[kv(e[1])]=nv; return arr(l)
            return T('upd',v,e[1],nv)
        raise Exception('setp')
    def rd(s,st,p):
        """value behind a pointer term"""
        o=p.op
        if o=='ref': return s.proj(s.get(st,p.a[0]),p.a[1])
        if o in('str','bytes','slice','accts','static'): return p
        if o=='ite': return ite(p.a[0],s.rd(st,p.a[1]),s.rd(st,p.a[2]))
        return s.get(st,T('P',p))
    def wr(s,st,p,v,ctx,guard=TRUE):
        o=p.op
        if o=='ite':
            s.wr(st,p.a[1],v,ctx,and_(guard,p.a[0])); s.wr(st,p.a[2],v,ctx,and_(guard,not_(p.a[0]))); return
        if o=='ref': root,path=p.a
        else: root,path=T('P',p),()
        if root.op=='V': return
        cur=s.get(st,root)
        if guard is not TRUE: v=ite(guard,v,s.proj(cur,path))
        st.mem[root]=s.setp(cur,path,v)
        if root.op=='D':
            pc=st.pc if guard is TRUE else st.pc.assume(guard)
            for q,x,o in s.fieldwise(path,v,s.proj(cur,path)): s.log(Ev('STORE',root=root,path=q,value=x,old=o,pc=pc),ctx)
    def fieldwise(s,path,v,old):
        """a record built anew and stored over the old one is a store to every field it changes"""
        if not path and v.op=='agg' and v.a[2] and len(v.a[2])==len(v.a[3]):
            fs=zip(v.a[2],v.a[3])
        elif not path and v.op=='rec' and v.a[0] is old: fs=v.a[1]
        else: return [(path,v,old)]
        return [((('f',f),),x,fld(old,f)) for f,x in fs if x is not fld(old,f)]
    def log(s,ev,ctx):
        ev.span=ctx[1]; ev.stack=tuple(s.stack); ev.loops=tuple(s.loopstack); ev.n=len(s.events)
        s.events.append(ev)
    # ------------------------------------------------------------ places
    def addr(s,st,fr,cfg,place):
        """reference term for a place"""
        cur=ref(L(fr,place[0])); 
        for e in place[1]:
            k=e[0]
            if k=='*':
                v=s.rd(st,cur)
                cur=v if v.op in('ref','ite','str','bytes','slice','accts') else ref(T('P',v))
                if v.op=='acct': pass
            else:
                if k=='f': x=('f',e[2])
                elif k=='v': x=('v',e[1])
                elif k=='i': x=('i',s.rd(st,ref(L(fr,e[1]))))
                elif k=='c': 
                    if e[3]: x=('i',T('fromend',K(e[1],64)))
                    else: x=('i',K(e[1],64))
                elif k=='s': x=('f','sub%s'%(e,))
                else: raise Exception('place '+str(e))
                cur=s.ext(cur,x)
        return cur
    def ext(s,p,x):
        if p.op=='ref': return T('ref',p.a[0],p.a[1]+(x,))
        if p.op=='ite': return ite(p.a[0],s.ext(p.a[1],x),s.ext(p.a[2],x))
        return ref(T('V',s.step(p,x)))    # immutable value
    def place(s,st,fr,cfg,place):
        v=s.get(st,L(fr,place[0]))
        pr=place[1]
        if not pr: return v
        if all(e[0] in 'fv' for e in pr):
            for e in pr: 
                if e[0]=='f' and v.op in('ref','ite') and False: pass
                v=s.step(v,('f',e[2]) if e[0]=='f' else ('v',e[1])) if not (v.op=='ref' and e[0]=='f') else v
            return v
        return s.rd(st,s.addr(st,fr,cfg,place))
    # ------------------------------------------------------------ operands
    def const(s,c,ty):
        k=c[0]
        if k=='n':
            w=width(ty)
            return K(int(c[1]),w) if w else T('kc',ty,c[1])
        if k=='str': return T('str',c[1])
        if k=='bytes': return T('bytes',str(c[1]))
        if k=='static': return ref(T('S',str(c[1])))
        if k=='zst':
            if ty=='()': return UNIT
            return mkagg(strip(ty),'',(),())
        if k=='ref':
            v=s.const(c[1],ty.lstrip('&')) if len(c)>1 and isinstance(c[1],list) else T('kc',ty,str(c[1:]))
            if v.op in('str','bytes'): return v
            return refval(v)
        if k=='agg':
            ty=c[1]
            if ty=='anchor_lang::prelude::Pubkey' : return T('pk',str(c[3]))
            names=[f[0] for f in c[3]]
            a=s.db.adts.get(ty) or s.db.adt_by_strip.get(strip(ty))
            fts={}
            if a:
                for v in a['variants']:
                    if v[0]==c[2] or len(a['variants'])==1: fts=dict((x[0],x[1]) for x in v[2])
            m=re.match(r'\[(.*); .*\]$',ty)
            ftup=[]
            if ty.startswith('('): ftup=[x.strip() for x in ty[1:-1].split(',')]
            vals=[]
            for i,f in enumerate(c[3]):
                ft=fts.get(f[0]) or (m and m.group(1)) or (ftup[i] if i<len(ftup) else '')
                vals.append(s.const(f[1],ft))
            if m: return arr(vals)
            if ty.startswith('('): return tup(*vals)
            var=c[2] if a and a['kind']=='enum' else ('' if not a else '')
            if strip(ty) in ENUMS: var=c[2]
            if s.isbig(ty): return s.bigconst(ty,vals)
            return mkagg(strip(ty),var,names,vals)
        return T('kc',ty,str(c))
    def isbig(s,ty): return strip(ty).endswith('big_num::U128') or strip(ty).endswith('big_num::U256')
    def bigconst(s,ty,vals):
        w=128 if strip(ty).endswith('U128') else 256
        a=vals[0]
        if a.op=='agg':
            n=0
            for i,x in enumerate(a.a[3]): n|=kv(x)<<(64*i)
            return K(n,w)
        return T('kc',ty,'?')
    def operand(s,st,fr,cfg,o,promsrc=None):
        k=o[0]
        if k in('cp','mv'):
            v=s.place(st,fr,cfg,o[1])
            if k=='mv' and not o[1][1]:
                ty=cfg.locals[o[1][0]][0]
                if ty.startswith('std::cell::Ref'): st.mem.pop(L(fr,o[1][0]),None)
            return v
        if k=='k': return s.const(o[1],o[2])
        if k=='pr': return s.promoted(o[1],o[2])
        if k=='fn':
            s.fninfo[o[1]['full']]=o[1]
            return T('fn',o[1]['full'],o[1].get('key') or '')
        return T('ext','operand',str(o))
    def promoted(s,key,i):
        """promoteds are constant bodies: evaluate once in an empty state"""
        c=('prom',key,i)
        v=s.db.cfg.get(c)
        if v is None:
            cfg=s.db.body(key,i)
            st=St({},rootpc()); fr='prom:%s:%d'%(key,i)
            o=s.run_body(cfg,fr,st)
            st,v=o[0]
            v=s.freeze(st,v)
            s.db.cfg[c]=v
        return v
    def freeze(s,st,v,d=0):
        """replace references into st by references to immutable values"""
        if d>12: return v
        if v.op=='ref':
            if v.a[0].op in('V','S'): return v
            if v.a[0].op=='P' : return v
            return refval(s.freeze(st,s.rd(st,v),d+1)) if v.a[0].op!='D' else v
        if v.op=='agg': return T('agg',v.a[0],v.a[1],v.a[2],tuple(s.freeze(st,x,d+1) for x in v.a[3]))
        if v.op=='ite': return ite(v.a[0],s.freeze(st,v.a[1],d),s.freeze(st,v.a[2],d))
        return v
    def deep(s,st,v,d=0):
        """value with references to locals/boxes/consts read through"""
        if d>14: return v
        if v.op=='ref':
            x=s.rd(st,v)
            return s.deep(st,x,d+1)
        if v.op=='agg': return T('agg',v.a[0],v.a[1],v.a[2],tuple(s.deep(st,x,d+1) for x in v.a[3]))
        if v.op=='ite': return ite(v.a[0],s.deep(st,v.a[1],d+1),s.deep(st,v.a[2],d+1))
        return v
    # ------------------------------------------------------------ rvalues
    def rvalue(s,st,fr,cfg,r,ctx):
        k=r[0]; op=lambda x: s.operand(st,fr,cfg,x)
        if k=='use': return op(r[1])
        if k in('ref','reb'):
            pl=r[2] if k=='ref' else (r[1] if isinstance(r[1],list) and len(r)==2 else r[2])
            a=s.addr(st,fr,cfg,pl)
            return a
        if k=='bin': return s.binop(r[1],op(r[2]),op(r[3]),r[4])
        if k=='un':
            v=op(r[2]); ty=r[3]; 
            if r[1]=='Not': return bnot(v,width(ty) or 64) if width(ty) else T('unop','Not',v)
            if r[1]=='Neg': return neg(v,width(ty)) if width(ty) else T('unop','Neg',v)
            if r[1]=='PtrMetadata': return s.length(st,v)
            return T('unop',r[1],v)
        if k=='cast':
            v=op(r[2]); kind,f,t=r[1],r[3],r[4]
            if kind=='IntToInt':
                w0,w1=width(f),width(t)
                if w0 is None:      # enum to int
                    return cast(discr(v,s.db.vmap(f)),64,True,w1)
                return cast(v,w0,signed(f),w1)
            if kind.startswith('PointerCoercion'):
                return v
            if kind=='Transmute' and width(t) and width(f)==width(t): return v
            if kind in('Transmute','PtrToPtr','BoxDerefTransmute'): return v
            return T('cast',kind,v)
        if k=='discr':
            v=s.place(st,fr,cfg,r[1])
            return discr(v,s.db.vmap(r[2]))
        if k=='tup': return tup(*[op(x) for x in r[1]]) if r[1] else UNIT
        if k=='arr': return arr([op(x) for x in r[1]])
        if k=='rep': return T('rep',op(r[1]),str(r[2]))
        if k=='adt':
            ty=strip(r[1]); vals=[op(x) for x in r[4]]
            if ty in ENUMS or (len(r)>5 and r[5]): return mkagg(ty,r[2],r[3],vals)
            if s.isbig(ty): return bigwords(128 if ty.endswith('U128') else 256,vals[0])
            return mkagg(ty,'',r[3],vals)
        if k=='clo': return mkagg('closure:'+r[1],'',tuple(map(str,range(len(r[2])))),[op(x) for x in r[2]])
        return T('ext','rv',str(r)[:80],ctx[0])
    def length(s,st,v):
        if v.op=='ref':
            x=s.rd(st,v)
            if x.op=='agg' and x.a[0]=='arr': return K(len(x.a[3]),64)
            return s.length(st,x) if x.op in('slice','accts','ite') else T('len',x)
        if v.op=='slice': return v.a[2]
        if v.op=='accts': return T('nacc')
        if v.op=='ite': return ite(v.a[0],s.length(st,v.a[1]),s.length(st,v.a[2]))
        if v.op=='agg' and v.a[0]=='arr': return K(len(v.a[3]),64)
        if v.op=='str': return K(len(v.a[0]),64)
        return T('len',v)
    def binop(s,o,a,b,ty):
        w=width(ty); sg=signed(ty)
        if w is None:
            if o=='Eq': return eqv(a,b)
            if o=='Ne': return not_(eqv(a,b))
            return T('bin',o,a,b)
        if o in('Add','AddUnchecked'): return add(a,b,w)
        if o in('Sub','SubUnchecked'): return sub(a,b,w)
        if o in('Mul','MulUnchecked'): return mul(a,b,w)
        if o=='Div': return div(a,b,w,sg)
        if o=='Rem': return rem(a,b,w,sg)
        if o=='Eq': return eqv(a,b,w)
        if o=='Ne': return not_(eqv(a,b,w))
        if o=='Lt': return lt(a,b,w,sg)
        if o=='Gt': return lt(b,a,w,sg)
        if o=='Le': return le(a,b,w,sg)
        if o=='Ge': return le(b,a,w,sg)
        if o=='BitAnd': return band(a,b,w)
        if o=='BitOr': return bor(a,b,w)
        if o=='BitXor': return bxor(a,b,w)
        if o in('Shl','ShlUnchecked'): return shl(a,b,w)
        if o in('Shr','ShrUnchecked'): return shr(a,b,w,sg)
        if o=='Cmp': return ite(lt(a,b,w,sg),K(-1,64),ite(eqv(a,b,w),K(0,64),K(1,64)))
        if o in('AddWithOverflow','SubWithOverflow','MulWithOverflow'):
            f={'A':add,'S':sub,'M':mul}[o[0]]
            return tup(f(a,b,w),carry(a,b,w) if o[:3]=='Add' and not sg else T('ovf',o[:3].lower(),'s' if sg else 'u',w,a,b))
        return T('bin',o,a,b)
    # ------------------------------------------------------------ running
    def frame(s,parent,site):
        k=(parent,site)
        f=s.frames.get(k)
        if f is None: f=s.frames[k]='%d'%len(s.frames)
        return f
    def run_body(s,cfg,fr,st):
        """-> list of (state, return value): at most one Ok-ish and one Err"""
        rets=s.region(cfg,fr,{0:[st]},None)[1]
        out=[]
        for x in s.partition(rets,cfg,fr,'ret'):
            v=x.mem.get(L(fr,0),UNIT)
            out.append((x,v))
        return out
    def variant0(s,st,fr):
        v=st.mem.get(L(fr,0))
        if v is not None and v.op=='agg' and v.a[0]=='std::result::Result': return v.a[1]
        return None
    def partition(s,states,cfg,fr,bb):
        if len(states)<=1: return states
        g={}
        for x in states: g.setdefault((s.variant0(x,fr),x.err),[]).append(x)
        return [s.cheap(v) if k[0]=='Err' or k[1] else s.join(v) for k,v in sorted(g.items(),key=lambda kv_:str(kv_[0]))]
    def cheap(s,sts):
        """join of states that are on their way to an error exit: keep what agrees"""
        if len(sts)==1: return sts[0]
        p=sts[0].pc
        for x in sts[1:]: p=lca(p,x.pc)
        mem={}
        keys=set()
        for x in sts: keys|=set(x.mem)
        for k in keys:
            vs={id(x.mem.get(k) or s.default(k)) for x in sts}
            v=sts[0].mem.get(k) or s.default(k)
            if len(vs)==1: mem[k]=v
            elif k.op=='L' and all((x.mem.get(k) or UNIT).op=='agg' and x.mem[k].a[0]=='std::result::Result' and x.mem[k].a[1]=='Err' for x in sts): mem[k]=Err(ERR)
            else: mem[k]=T('ext','errmem','join',k)
        return St(mem,p,any(x.err for x in sts))
    def join(s,sts):
        sts=list(sts)
        while len(sts)>1:
            # deepest common ancestor first
            best=None
            for i in range(len(sts)):
                for j in range(i+1,len(sts)):
                    d=lca(sts[i].pc,sts[j].pc).d
                    if best is None or d>best[0]: best=(d,i,j)
            _,i,j=best
            m=s.join2(sts[i],sts[j])
            sts=[x for k,x in enumerate(sts) if k not in(i,j)]
            sts.insert(i,m)
        return sts[0]
    def join2(s,a,b):
        p=lca(a.pc,b.pc)
        D1,D2=a.pc.chain(p),b.pc.chain(p)
        g=None
        for x in D1:
            n=not_(x)
            if any(y is n for y in D2): g=x;break
        if g is None:
            # conjunction literals
            g=conj(D1) if D1 else (not_(conj(D2)) if D2 else None)
            if g is None: g=T('ext','nondet',len(s.loopinfo))
        if g is TRUE or g is FALSE: g=T('ext','nondet2',str(skey(g)))
        if g.op=='ite' and len(gates(g,40))>5: g=T('gate',str(skey(g)))
        d1=conj([x for x in D1 if x is not g]); ng=not_(g)
        d2=conj([x for x in D2 if x is not ng])
        pc=p.assume(ite(g,d1,d2))
        mem={}
        ma,mb=a.mem,b.mem
        for k,v in ma.items():
            w=mb.get(k)
            if w is None:
                if k.op in('D','E','P'): w=s.default(k)
                else: mem[k]=v; continue
            mem[k]=v if v is w else ite(g,v,w)
        for k,w in mb.items():
            if k not in ma:
                mem[k]=ite(g,s.default(k),w) if k.op in('D','E','P') else w
        return St(mem,pc,a.err and b.err)
    def region(s,cfg,fr,entry,loop):
        """process blocks in RPO; loop = header of the loop this region is, or None.
        returns (exits {bb:[St]}, rets [St], backs [St])"""
        pend={b:list(v) for b,v in entry.items()}
        exits={};rets=[];backs=[]
        blocks=cfg.loops[loop] if loop is not None else None
        first=True
        while pend:
            b=min(pend,key=lambda x:cfg.rpo[x])
            sts=s.partition(pend.pop(b),cfg,fr,b)
            isl=b in cfg.loops and not(b==loop)
            for st in sts:
                if isl:
                    ex,rt=s.run_loop(cfg,fr,b,st)
                    rets+=rt
                    outs=[(bb,x) for bb,xs in ex.items() for x in xs]
                else:
                    outs=s.block(cfg,fr,b,st)
                for bb,x in outs:
                    if bb=='ret': rets.append(x)
                    elif loop is not None and bb==loop: backs.append(x)
                    elif blocks is not None and bb not in blocks: exits.setdefault(bb,[]).append(x)
                    else: pend.setdefault(bb,[]).append(x)
        return (exits,rets) if loop is None else (exits,rets,backs)
    # ------------------------------------------------------------ loops
    def unroll(s,cfg,fr,h,st,limit=40):
        """run a loop whose every decision to go on is decided by constants, iteration by iteration; None when it is not one"""
        mark=(len(s.events),len(s.calls)); unk=dict(s.unknown); li=dict(s.loopinfo); suf=s.usuf
        cur=st.fork(); exs={}; rts=[]; each=s.over_items(cfg,h)
        try:
            for it in range(limit):
                s.usuf=suf+'~%d'%it
                ex,rt,bk=s.region(cfg,fr,{h:[cur]},h)
                rts+=rt
                for b,xs in ex.items(): exs.setdefault(b,[]).extend(xs)
                if not bk:
                    if it==0: break      # not a loop at all: left to the ordinary treatment
                    return exs,rts
                if each and any(ex.get(b) for b in each): break        # whether there are more items is not known
                if not each and (any(xs for b,xs in ex.items() if not s.failing(cfg,b)) or any(s.variant0(x,fr)!='Err' for x in rt)): break
                cur=s.join(bk)
        finally: s.usuf=suf
        del s.events[mark[0]:]; del s.calls[mark[1]:]; s.unknown=unk; s.loopinfo=li
        return None
    def over_items(s,cfg,h):
        """where the loop goes when its iterator has no more items, if its head asks an iterator for the next one"""
        b=h; nxt=False
        for _ in range(8):
            t=cfg.b[b]['t']
            if t[0]=='call':
                if t[1][0]=='fn' and t[1][1]['path'].endswith('Iterator::next'): nxt=True
                b=t[4]
                if b is None: return None
            elif t[0]=='goto': b=t[1]
            elif t[0]=='sw':
                ends={x for x in [y[1] for y in t[2]]+[t[3]] if x is not None and x not in cfg.loops[h]}
                return ends if nxt and ends else None
            else: return None
        return None
    def failing(s,cfg,b):
        """the block hands on an error"""
        for _ in range(20):
            t=cfg.b[b]['t']
            if t[0]=='call': return t[1][0]=='fn' and t[1][1]['path'].endswith('from_residual') or t[4] is None
            if t[0]=='goto': b=t[1]
            elif t[0]=='drop': b=t[2]
            else: return False
    def run_loop(s,cfg,fr,h,st):
        r=s.unroll(cfg,fr,h,st)
        if r is not None: return r
        lid='%s/%s/bb%d%s'%(fr,cfg.key.split('::')[-1],h,'e' if st.err else '')
        mark=len(s.events)
        head={}          # root -> widened value (in terms of phis)
        it=0; merged={}; axioms=[]
        init=dict(st.mem)
        while True:
            it+=1
            if it>40: raise Exception('loop does not stabilise: '+lid)
            del s.events[mark:]
            hs=st.fork()
            hs.mem.update(head)
            s.loopstack.append(lid)
            for f in axioms: hs.pc=hs.pc.assume(f)
            hm=dict(hs.mem); hpc=hs.pc=PC(hs.pc,TRUE)
            hpc._F=None
            ex,rt,bk=s.region(cfg,fr,{h:[hs]},h)
            s.loopstack.pop()
            changed=False
            if not bk: break
            b=s.join(bk)
            dropped={}
            for k in list(b.mem):
                if k.op=='D' and k not in init and any(x.op=='phi' and x.a[0]==lid for x in subterms(k)):
                    dropped[k]=b.mem.pop(k)
            for k in set(hm)|set(b.mem):
                nv=b.mem.get(k); hv=hm.get(k)
                if hv is None:
                    if k.op in('D','P','E'): hv=s.default(k)
                    else: continue          # local born inside the body
                if nv is None: continue
                w=s.widen(hv,nv,lid,k,())
                if w is not hv: head[k]=w; changed=True
            if not changed:
                q,ax=s.induction(lid,hm,init,b,hpc)
                if any(x not in merged for x in q) and it<30:       # phis that always agree become one
                    merged.update(q)
                    for k,v in list(hs.mem.items()):
                        v=head.get(k,v); w=subst(v,merged)
                        if w is not v: head[k]=w
                    continue
                if any(f not in axioms for f in ax) and it<30: axioms+=[f for f in ax if f not in axioms]; continue
                s.loopinfo[lid]=dict(axioms=axioms,id=lid,fn=cfg.key,header=h,init=init,head=hm,next=dict(b.mem),backpc=b.pc,headpc=hpc,exits=ex,iter=dropped,entry=st.pc,stack=tuple(s.stack),outer=tuple(s.loopstack))
                break
        else: pass
        if lid not in s.loopinfo:
            s.loopinfo[lid]=dict(id=lid,fn=cfg.key,header=h,init=init,head=dict(init),next=None,backpc=None,headpc=st.pc,exits=ex,iter={},entry=st.pc,stack=tuple(s.stack),outer=tuple(s.loopstack))
        return ex,rt
    def induction(s,lid,hm,init,b,hpc):
        """phis with the same start and the same step; bounds of counters that start at zero and grow by one below a fixed limit"""
        ps={}
        def walk(h,i,n):
            if h.op=='phi' and h.a[0]==lid: ps.setdefault(h,(i,n)); return
            if h.op=='agg' and h.a[3] and i is not None and i.op=='agg' and n.op=='agg' and len(i.a[3])==len(h.a[3])==len(n.a[3]):
                for x,y,z in zip(h.a[3],i.a[3],n.a[3]): walk(x,y,z)
            elif h.op=='slice' and i is not None and i.op=='slice' and n.op=='slice': walk(h.a[1],i.a[1],n.a[1]); walk(h.a[2],i.a[2],n.a[2])
        for k,h in hm.items():
            if k.op=='L' and h.op in('phi','agg','slice') and k in b.mem: walk(h,init.get(k),b.mem[k])
        q={}; ax=[]; F=b.pc.F(); cnt={}
        ps={p:(i,F.simp(n)) for p,(i,n) in ps.items()}
        for p in sorted(ps,key=skey):
            i,n=ps[p]
            if i is None or not isk(i): continue
            r=next((r for r in sorted(ps,key=skey) if r is not p and r not in q and skey(r)<skey(p) and ps[r][0] is i and subst(n,{p:r}) is subst(ps[r][1],{p:r})),None)
            if r is not None: q[p]=r; continue
            if kv(i)==0 and n.op=='lin': cnt[p]=n
        for f in b.pc.chain(hpc):
            for x in subterms(f):
                if x.op=='lt' and x.a[0]=='u' and x.a[2] in cnt and not any(y.op in('phi','ite') and (y.op=='ite' or y.a[0]==lid) for y in subterms(x.a[3])):
                    p,N,w=x.a[2],x.a[3],x.a[1]
                    if cnt[p] is add(p,K(1,w),w) and F.val(x) is True:
                        f=not_(lt(N,p,w,False))
                        if f not in ax: ax.append(f)
        return q,ax
    def widen(s,h,n,lid,root,path):
        if h is n: return h
        if h.op=='phi' and h.a[0]==lid: return h
        if h.op=='agg' and n.op=='agg' and h.a[0]==n.a[0] and h.a[1]==n.a[1] and len(h.a[3])==len(n.a[3]) and h.a[3]:
            nm=h.a[2] or tuple(map(str,range(len(h.a[3]))))
            return T('agg',h.a[0],h.a[1],h.a[2],tuple(s.widen(x,y,lid,root,path+(f,)) for f,x,y in zip(nm,h.a[3],n.a[3])))
        bh=h.a[0] if h.op=='rec' else h
        bn=n.a[0] if n.op=='rec' else n
        if (h.op=='rec' or n.op=='rec') and bh is bn:
            fs=[f for f,_ in (h.a[1] if h.op=='rec' else ())]+[f for f,_ in (n.a[1] if n.op=='rec' else ())]
            return mkrec(bh,{f:s.widen(fld(h,f),fld(n,f),lid,root,path+(f,)) for f in fs})
        if h.op=='slice' and n.op=='slice' and h.a[0] is n.a[0]:
            return T('slice',h.a[0],s.widen(h.a[1],n.a[1],lid,root,path+('start',)),s.widen(h.a[2],n.a[2],lid,root,path+('len',)))
        return T('phi',lid,root,path)
    # ------------------------------------------------------------ blocks
    def block(s,cfg,fr,bb,st):
        s.nblocks+=1
        if s.nblocks>s.maxblocks: raise Exception('engine budget exceeded')
        blk=cfg.b[bb]
        s.visited.setdefault(cfg.key,set()).add(bb)
        site='%s:%d%s'%(fr,bb,s.usuf)
        for x in blk['s']:
            k=x[0]
            if k=='=':
                ctx=(site,x[3])
                v=s.rvalue(st,fr,cfg,x[2],ctx)
                s.assign(st,fr,cfg,x[1],v,ctx)
            elif k=='dead':
                st.mem.pop(L(fr,x[1]),None)
            elif k=='setd':
                pass
        t=blk['t'];k=t[0]
        if k=='goto': return [(t[1],st)]
        if k=='ret': return [('ret',st)]
        if k=='drop':
            s.drop(st,fr,cfg,t)
            return [(t[2],st)]
        if k=='sw': return s.switch(st,fr,cfg,t)
        if k=='assert':
            if any(m in t[4] for m in('isaligned','NullPointer')): return [(t[3],st)]
            c=s.operand(st,fr,cfg,t[1])
            c=c if t[2] else not_(c)
            c=st.pc.F().simp(c)
            if c is FALSE: return []
            st.pc=st.pc.assume(c)
            return [(t[3],st)]
        if k=='call': return s.call(st,fr,cfg,t,site)
        return []
    def assign(s,st,fr,cfg,place,v,ctx):
        if not place[1]: st.mem[L(fr,place[0])]=v; return
        a=s.addr(st,fr,cfg,place)
        s.wr(st,a,v,ctx)
    def drop(s,st,fr,cfg,t):
        pl=t[1]
        if not pl[1]:
            ty=cfg.locals[pl[0]][0]
            if ty.startswith('std::cell::Ref'): st.mem.pop(L(fr,pl[0]),None)
    def switch(s,st,fr,cfg,t):
        v=s.operand(st,fr,cfg,t[1]); w=width(t[4]) or 64
        out=[]; F=st.pc.F(); rest=TRUE
        cur=st
        for val,bb in t[2]:
            c=eqv(v,K(int(val),w),w)
            c=cur.pc.F().simp(c)
            if c is FALSE: continue
            if c is TRUE: out.append((bb,cur)); return out
            n=cur.fork(c)
            if not n.pc.F().bad: out.append((bb,n))
            cur=cur.fork(not_(c))
            if cur.pc.F().bad: return out
        if t[3] is not None and not(cfg.b[t[3]]['t'][0]=='unreach'): out.append((t[3],cur))
        elif t[3] is not None and out and cur is not st:
            pass
        return out
    # ------------------------------------------------------------ calls
    def call(s,st,fr,cfg,t,site):
        f=t[1]; ctx=(site,t[6]); target=t[4]
        args=[s.operand(st,fr,cfg,a) for a in t[2]]
        argtys=t[7]; destty=t[5]
        info=None
        if f[0]=='fn': info=f[1]
        else:
            fv=s.operand(st,fr,cfg,f)
            info={'path':'<indirect>','full':'<indirect>','targs':[],'key':None,'rpath':'','local':False,'val':fv}
        if info['path']=='<indirect>': outs=s.indirect(info,lambda x,i,a:Call(s,x,fr,cfg,ctx,i,a,argtys,destty,target),st,fr,fv,args)
        else: outs=s.dispatch(Call(s,st,fr,cfg,ctx,info,args,argtys,destty,target))
        if target is None: return []
        res=[]
        for x,v in outs:
            if v is RET:       # function returns right away (from_residual)
                res.append(('ret',x)); continue
            s.assign(x,fr,cfg,t[3],v,ctx)
            res.append((target,x))
        return res
    def indirect(s,info,mk,st,fr,fv,args):
        """a call through a function pointer: the functions it may point to are called in turn"""
        if fv.op=='fn' and fv.a[0] in s.fninfo: return s.dispatch(mk(st,s.fninfo[fv.a[0]],args))
        if fv.op=='agg' and str(fv.a[0]).startswith('closure:') and fv.a[0][8:] in s.db.fns:
            key=fv.a[0][8:]
            return s.invoke(mk(st,dict(info,path=key,full=key,key=key),args),key,[fv]+list(args))
        if fv.op=='ite':
            c=st.pc.F().simp(fv.a[0]); outs=[]
            for cond,v in((c,fv.a[1]),(not_(c),fv.a[2])):
                if cond is FALSE: continue
                x=st.fork(cond)
                if x.pc.F().bad: continue
                outs+=s.indirect(info,mk,x,fr,v,args)
            if len(outs)==2 and all(v is not RET for _,v in outs) and outs[0][0].err==outs[1][0].err:
                k=L(fr,'indirect')
                for x,v in outs: x.mem[k]=v
                j=s.join([x for x,_ in outs]); return [(j,j.mem.pop(k))]
            return outs
        return s.dispatch(mk(st,info,args))
    def dispatch(s,c):
        m=s.models.lookup(c)
        if m is not None:
            r=m(c)
            if r is None: return []
            if isinstance(r,list): return r
            return [(c.st,r)]
        key=c.info.get('key')
        if key and key in s.db.fns and s.models.inline(c):
            return s.invoke(c,key,c.args)
        s.unknown[c.info['full']]=s.unknown.get(c.info['full'],0)+1
        return [(c.st,s.models.unknown(c))]
    def invoke(s,c,key,args):
        cfg=s.db.body(key)
        if any(x[0]==key for x in s.stack) or len(s.stack)>60:
            s.unknown['recursion '+key]=1
            return [(c.st,s.models.unknown(c))]
        fr=s.frame(c.fr,c.ctx[0])
        st=c.st
        if c.path in('std::ops::Fn::call','std::ops::FnMut::call_mut','std::ops::FnOnce::call_once') and len(args)==2:   # arguments come as a tuple
            if '{closure' in key: args=[args[0]]+[fld(args[1],str(i)) for i in range(cfg.argc-1)]
            else: args=[fld(args[1],str(i)) for i in range(cfg.argc)]
        if '{closure' in key and args and str(cfg.locals[1][0]).startswith('&') and args[0].op=='agg': args=[refval(args[0])]+list(args[1:])
        for i in range(cfg.argc):
            if i<len(args): st.mem[L(fr,i+1)]=args[i]
        s.stack.append((key,c.ctx[1]))
        entrypc=st.pc; entrymem=dict(st.mem)
        try: outs=s.run_body(cfg,fr,st)
        finally: s.stack.pop()
        res=[]
        for x,v in outs:
            for k in [k for k in x.mem if k.op=='L' and k.a[0]==fr]: del x.mem[k]
            isr=v.op=='agg' and v.a[0]=='std::result::Result'
            if isr and v.a[1]=='Err':
                x=St({k:w for k,w in x.mem.items()},entrypc if len(outs)>1 else x.pc,True)
                for k,w in list(x.mem.items()):
                    if k in entrymem:
                        if entrymem[k] is not w: x.mem[k]=T('ext','errmem',c.ctx[0],k)
                    elif k.op=='D': x.mem[k]=T('ext','errmem',c.ctx[0],k)
                v=Err(T('ext','errval',c.ctx[0]))
            elif isr: x.err=False
            elif not isr and x.err: x.err=False
            res.append((x,v))
        # states that only differ by a swallowed error are merged again
        if len(res)>1:
            g={}
            for x,v in res: g.setdefault(x.err,[]).append((x,v))
            res=[]
            for e,xs in sorted(g.items()):
                if len(xs)==1: res.append(xs[0]); continue
                for x,v in xs: x.mem[L(fr,0)]=v
                j=s.join([x for x,_ in xs]); v=j.mem.pop(L(fr,0)); res.append((j,v))
        return res
    maxblocks=400000

class RETT: pass
RET=RETT()
class Call:
    def __init__(s,eng,st,fr,cfg,ctx,info,args,argtys,destty,target):
        s.eng=eng;s.st=st;s.fr=fr;s.cfg=cfg;s.ctx=ctx;s.info=info;s.args=args;s.argtys=argtys;s.destty=destty;s.target=target
        s.path=info['path']; s.full=info['full']
    def rd(s,i): return s.eng.rd(s.st,s.args[i])
    def deep(s,i): return s.eng.deep(s.st,s.args[i])
    def log(s,kind,**kw):
        s.eng.log(Ev(kind,pc=s.st.pc,mem=dict(s.st.mem),**kw),s.ctx)
    def ext(s,name,*a): return T('ext',name,s.ctx[0],*a)
    def ok(s,v,name):
        """Ok(v) unless the external operation fails"""
        return ite(T('ok',name,s.ctx[0]),Ok(v),Err(ERR))
