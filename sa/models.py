"""Models of everything outside the crate (Anchor, the Solana SDK, SPL, core).
Trusted statements about library behaviour; listed in DESIGN.md."""
import re
from terms import *
from interp import *

INTS=set(_w for _w in ('u8','i8','u16','i16','u32','i32','u64','i64','u128','i128','usize','isize','bool'))
def unref(ty):
    while ty.startswith('&'):
        ty=re.sub(r"^&('\w+ )?(mut )?",'',ty)
    return ty
def short(ty): return strip(ty).split('::')[-1]

def mapite(t,f):
    if t.op=='ite': return ite(t.a[0],mapite(t.a[1],f),mapite(t.a[2],f))
    return f(t)
def base(a):
    """account identity without field overrides"""
    return mapite(a,lambda x: x.a[0] if x.op=='rec' else x)

def asopt(v):
    if v.op=='agg': return v
    if v.op=='ite': return ite(v.a[0],asopt(v.a[1]),asopt(v.a[2]))
    return ite(eqv(T('discr',v),K(1,64),64),Some(fld(down(v,'Some'),'0')),NONE)
def asres(v):
    if v.op=='agg': return v
    if v.op=='ite': return ite(v.a[0],asres(v.a[1]),asres(v.a[2]))
    if v.op in('undef','ext') and False: return v
    return ite(eqv(T('discr',v),K(0,64),64),Ok(fld(down(v,'Ok'),'0')),Err(ERR))
def leaves(v,ok,err,okname):
    """map the leaves of a Result/Option ite-tree"""
    if v.op=='ite': return ite(v.a[0],leaves(v.a[1],ok,err,okname),leaves(v.a[2],ok,err,okname))
    return ok(fld(v,'0')) if v.a[1]==okname else err(v)

class Models:
    def __init__(s,db,opaque=None,local_only=False):
        s.db=db; s.opaque=opaque or (lambda c: None)
        s.cache={}
        s.libs={}
    # ---------------------------------------------------------------- dispatch
    def lookup(s,c):
        o=s.opaque(c)
        if o: return lambda c: s.opaque_call(c,o)
        k=(c.full)
        h=s.cache.get(k,0)
        if h==0:
            h=s.find(c); s.cache[k]=h
        return h
    def find(s,c):
        p=c.path
        for rx,name in TABLE:
            if rx.search(p if not name.startswith('F_') else c.full):
                m=getattr(s,name)
                r=m if not hasattr(m,'cond') else (m if m.cond(s,c) else None)
                if r is not None: return r
        m=NUM.match(p)
        if m and m.group(1) in INTS: 
            f=getattr(s,'num_'+m.group(2),None)
            if f: return (lambda c,f=f,t=m.group(1): f(c,t))
        return None
    def inline(s,c): return True
    def unknown(s,c):
        for a,ty in zip(c.args,c.argtys):
            if ty.startswith('&mut') and a.op in('ref','ite'):
                c.eng.wr(c.st,a,T('ext','havoc',c.ctx[0],c.full),c.ctx)
        return s.result(c,T('ext',c.path,c.ctx[0]))
    def result(s,c,v):
        if c.destty=='()': return UNIT
        if c.destty.startswith('std::result::Result<'):
            a=targs_of(c.destty)
            if a and a[0]=='()': return ite(T('ok',v),Ok(UNIT),Err(ERR))
            return ite(T('ok',v),Ok(v),Err(ERR))
        return v
    def opaque_call(s,c,name):
        for a,ty in zip(c.args,c.argtys):
            if ty.startswith('&mut') and a.op in('ref','ite'):
                old=c.eng.deep(c.st,a)
                c.eng.wr(c.st,a,T('call',name+'!',*[c.deep(i) for i in range(len(c.args))]),c.ctx)
        args=[c.deep(i) for i in range(len(c.args))]
        args=canon(name,args)
        v=T('call',name,*args)
        c.eng.calls.append((name,tuple(args),c.st.pc,c.ctx[1],tuple(c.eng.stack),tuple(c.eng.loopstack)))
        return s.result(c,v)
    # ---------------------------------------------------------------- noise
    def noise(s,c): return T('noise')
    def unit(s,c): return UNIT
    def dead(s,c): return None
    def err(s,c): return ERR
    def ident(s,c): return c.args[0]
    def into_iter(s,c):
        v=c.args[0]
        if s.selfty(c).startswith('[') and v.op=='agg' and v.a[0]=='arr': return mkagg('AIter','',('v','pos'),(v,K(0,64)))
        return v
    # ---------------------------------------------------------------- Result/Option
    def try_branch(s,c):
        v=c.args[0]
        if 'std::result::Result<' in c.info['full'][:25]:
            v=asres(v)
            return leaves(v,lambda x: mkagg('std::ops::ControlFlow','Continue',('0',),(x,)),lambda e: mkagg('std::ops::ControlFlow','Break',('0',),(Err(ERR),)),'Ok')
        v=asopt(v)
        return leaves(v,lambda x: mkagg('std::ops::ControlFlow','Continue',('0',),(x,)),lambda e: mkagg('std::ops::ControlFlow','Break',('0',),(NONE,)),'Some')
    def from_residual(s,c):
        c.st.mem[L(c.fr,0)]=Err(ERR) if c.destty.startswith('std::result') else NONE
        return [(c.st,RET)]
    def map_err(s,c): return leaves(asres(c.args[0]),Ok,lambda e: Err(ERR),'Ok')
    def need(s,c,cond):
        F=c.st.pc.F(); x=F.simp(cond)
        if x is FALSE: return False
        c.st.pc=c.st.pc.assume(x); return True
    def res_unwrap(s,c):
        v=asres(c.args[0])
        if not s.need(c,eqv(discr(v,ENUMS['std::result::Result']),K(0,64),64)): return None
        return fld(down(v,'Ok'),'0')
    def opt_unwrap(s,c):
        v=asopt(c.args[0])
        if not s.need(c,eqv(discr(v,ENUMS['std::option::Option']),K(1,64),64)): return None
        return fld(down(v,'Some'),'0')
    def opt_unwrap_or(s,c):
        return leaves(asopt(c.args[0]),lambda x:x,lambda e:c.args[1],'Some')
    def opt_is_some(s,c): return eqv(discr(asopt(c.rd(0)),ENUMS['std::option::Option']),K(1,64),64)
    def opt_is_none(s,c): return not_(s.opt_is_some(c))
    def res_is_ok(s,c): return eqv(discr(asres(c.rd(0)),ENUMS['std::result::Result']),K(0,64),64)
    def res_is_err(s,c): return not_(s.res_is_ok(c))
    def res_ok(s,c): return leaves(asres(c.args[0]),Some,lambda e:NONE,'Ok')
    def opt_ok_or(s,c): return leaves(asopt(c.args[0]),Ok,lambda e:Err(ERR),'Some')
    def res_unwrap_or(s,c): return leaves(asres(c.args[0]),lambda x:x,lambda e:c.args[1],'Ok')
    # ---------------------------------------------------------------- accounts
    def info(s,c,v,d=0):
        """AccountInfo identity of a wrapper value"""
        if v.op=='ite': return ite(v.a[0],s.info(c,v.a[1],d),s.info(c,v.a[2],d))
        if v.op=='ref' and d<6: return s.info(c,c.eng.rd(c.st,v),d+1)
        if v.op=='agg' and 'info' in v.a[2]: return s.info(c,fld(v,'info'),d+1)
        return v
    def key_of(s,a):
        return mapite(base(a),lambda x: T('key',x))
    def selfty(s,c):
        t=c.info['targs']; return t[0] if t else ''
    def key(s,c):
        if unref(s.selfty(c))=='anchor_lang::prelude::Pubkey': return c.rd(0)
        return s.key_of(s.info(c,c.args[0]))
    def to_account_info(s,c): return s.info(c,c.args[0])
    def take(s,c):
        sl=c.rd(1)
        e=c.eng.index(sl,K(0,64))
        if sl.op=='slice':
            c.eng.wr(c.st,c.args[1],T('slice',sl.a[0],add(sl.a[1],K(1,64),64),sub(sl.a[2],K(1,64),64)),c.ctx)
        else: c.eng.wr(c.st,c.args[1],T('slice',sl,K(1,64),sub(T('len',sl),K(1,64),64)),c.ctx)
        return e
    def wrap(s,c,ty,a,checked=True,loaddata=True):
        """Result of building wrapper `ty` around account a"""
        ty=unref(ty); h=strip(ty)
        if h=='std::boxed::Box':
            r=s.wrap(c,targs_of(ty)[0],a,checked)
            return leaves(r,lambda v: Ok(s.box(c,v)),lambda e:e,'Ok')
        n=h.split('::')[-1]
        if n in('UncheckedAccount','AccountInfo','SystemAccount'): return Ok(a)
        if n=='Signer': return ite(fld(a,'is_signer'),Ok(a),Err(ERR))
        if n=='Sysvar': return Ok(T('sysvar',short(targs_of(ty)[0]),a))
        if n=='Program': 
            return ite(T('typed','program:'+short(targs_of(ty)[0]),base(a)),Ok(a),Err(ERR))
        if n=='AccountLoader':
            t=short(targs_of(ty)[0])
            return ite(T('typed',t,base(a)),Ok(a),Err(ERR)) if checked else Ok(a)
        if n=='Account':
            t=short(targs_of(ty)[0])
            ep=c.eng.get(c.st,T('E'))
            v=mkagg('Account','',('info','data'),(a,T('tokdata',base(a),t,ep)))
            return ite(T('typed',t,base(a)),Ok(v),Err(ERR))
        c.eng.unknown['wrapper '+ty]=1
        return c.ok(T('ext','wrap',ty,a),'wrap')
    def box(s,c,v):
        c.eng.box+=1
        r=T('B',c.ctx[0])
        n=0
        c.st.mem[r]=v
        return ref(r)
    def try_accounts(s,c):
        a=s.take(c)
        return s.wrap(c,s.selfty(c),a)
    try_accounts.cond=lambda s,c: not c.info.get('local')
    def F_try_from(s,c):
        a=s.info(c,c.args[-1])
        ty=re.match(r"(.*?)::try_from(_unchecked)?$",c.full).group(1).replace('::<','<')
        if ty.endswith("Signer<'_>") and a.op=='rec': c.log('FORGE',acct=base(a),value=a)
        w=s.wrap(c,ty,a,not c.full.endswith('_unchecked'))
        if not strip(c.destty).endswith('Result') and w.op=='agg' and w.a[1]=='Ok': return w.a[3][0]
        return w
    def load(s,c):
        t=short(c.info['targs'][0]); a=base(s.info(c,c.args[0]))
        r=mapite(a,lambda x: ref(T('D',x,t)))
        kind=c.path.rsplit('::',1)[1]
        if kind=='load_init': c.log('INIT',acct=a,type=t)
        c.log('LOAD',acct=a,type=t,how=kind)
        if kind!='load':
            c.eng.wrl=1
            w=mapite(a,lambda x: fld(x,'is_writable'))
            return ite(w,Ok(r),Err(ERR))
        return Ok(r)
    def reload(s,c):
        v=c.rd(0)
        p=c.args[0]
        if v.op=='ref': p,v=v,c.eng.rd(c.st,v)
        a=base(s.info(c,v)); t=short(c.info['targs'][0])
        ep=c.eng.get(c.st,T('E'))
        c.log('RELOAD',acct=a)
        c.eng.wr(c.st,c.eng.ext(p,('f','data')),mapite(a,lambda x:T('tokdata',x,t,ep)),c.ctx)
        return c.ok(UNIT,'reload')
    def context_new(s,c):
        return mkagg('Context','',('program_id','accounts','remaining_accounts','bumps'),c.args)
    def cpictx_new(s,c):
        return mkagg('CpiContext','',('program','accounts','remaining_accounts','signer_seeds'),(c.args[0],c.args[1],T('novec'),NONE))
    def cpictx_new_signer(s,c):
        return mkagg('CpiContext','',('program','accounts','remaining_accounts','signer_seeds'),(c.args[0],c.args[1],T('novec'),Some(c.deep(2))))
    def epoch(s,c):
        n=c.st.mem[T('E')]=T('ep',c.eng.get(c.st,T('E')),c.ctx[0])
        c.eng.events[-1].after=n
    def cpi(s,c):
        name=c.path.replace('anchor_spl::','')
        ctx=c.args[0]
        acc=fld(ctx,'accounts')
        accs={}
        if acc.op=='agg':
            for n,v in zip(acc.a[2],acc.a[3]): accs[n]=s.info(c,v)
        c.log('CPI',name=name,program=s.info(c,fld(ctx,'program')),accs=accs,seeds=fld(ctx,'signer_seeds'),args=[c.deep(i) for i in range(1,len(c.args))])
        s.epoch(c)
        return c.ok(UNIT,name)
    def invoke(s,c):
        ixn=c.deep(0)
        infos=c.deep(1)
        c.log('INVOKE',ix=ixn,infos=infos,seeds=c.deep(2) if len(c.args)>2 else None,name=c.path.rsplit('::',1)[1])
        s.epoch(c)
        return c.ok(UNIT,'invoke')
    def ix_new(s,c): return mkagg('Instruction','',('program_id','data','accounts'),[c.args[0],c.deep(1),c.args[2]])
    def pure(s,c):
        n='::'.join(strip(c.path).split('::')[-2:]) if c.info.get('key') is None else c.path.split('::')[-1]
        return s.result(c,T('call',n,*[c.deep(i) for i in range(len(c.args))]))
    def event_data(s,c):
        v=c.deep(0)
        c.log('EMIT',type=short(s.selfty(c)),value=v)
        return T('call','event',v)
    def ix_data(s,c): return T('call','ixdata',c.deep(0))
    def metas(s,c): return T('call','metas',c.deep(0))
    def infos(s,c): return T('call','infos',c.deep(0))
    def idfn(s,c): return s.pure(c)
    idfn.cond=lambda s,c: not(c.info.get('key') in c.eng.db.fns)
    def deser(s,c):
        return ite(T('ok','deser',short(s.selfty(c)) if '__Args' not in c.full else 'args'),Ok(T('ix')),Err(ERR))
    def exit_ext(s,c): return Ok(UNIT)
    exit_ext.cond=lambda s,c: not c.info.get('local')
    def close(s,c):
        c.log('CLOSE',acct=base(s.info(c,c.args[0])),dest=base(s.info(c,c.args[1])))
        return c.ok(UNIT,'close')
    # ---------------------------------------------------------------- pubkeys
    def seedlist(s,v):
        return tuple(map(seedtext,v.a[3])) if v.op=='agg' else (v,)
    def create_pda(s,c):
        sd=s.seedlist(c.deep(0)); pr=c.deep(1)
        return ite(T('ok','pda',T('pda',sd,pr)),Ok(T('pda',sd,pr)),Err(ERR))
    def find_pda(s,c):
        sd=s.seedlist(c.deep(0)); pr=c.deep(1)
        b=T('call','bump',T('sd',sd),pr)
        return tup(T('pda',sd+(arr([b]),),pr),b)
    def ata(s,c): return T('call','ata',c.deep(0),c.deep(1))
    def to_bytes(s,c): return c.args[0] if not c.argtys[0].startswith('&') else c.rd(0)
    # ---------------------------------------------------------------- misc std
    def default(s,c):
        t=s.selfty(c)
        if width(t): return K(0,width(t))
        if short(t)=='Pubkey': return T('pk','default')
        if strip(t)=='std::option::Option': return NONE
        return T('default',t)
    default.cond=lambda s,c: not c.info.get('key')
    def clone(s,c):
        v=c.rd(0)
        if v.op=='ref' and c.argtys[0].startswith('&std::boxed::Box'):
            return s.box(c,c.eng.rd(c.st,v))
        return v
    def deref(s,c):
        ty=unref(s.selfty(c)); n=short(ty)
        if n in('Ref','RefMut'): return c.rd(0)
        if n=='Account': return c.eng.ext(c.args[0],('f','data'))
        if n in('TokenAccount','Mint','Signer','UncheckedAccount','Program','Vec','String','AccountLoader','SystemAccount'): return c.args[0]
        if n=='Box' or s.selfty(c).startswith('&'): return c.rd(0)
        if n=='Sysvar': return c.args[0]
        c.eng.unknown['deref '+ty]=1
        return c.rd(0)
    def as_ref(s,c): return c.args[0]
    def size_of(s,c):
        t=c.info['targs'][0]
        if width(t): return K(max(1,width(t)//8),64)
        a=s.db.adts.get(t) or s.db.adt_by_strip.get(strip(t))
        if a and a.get('size'): return K(int(a['size']),64)
        return T('sizeof',t)
    def swap(s,c):
        a,b=c.rd(0),c.rd(1)
        c.eng.wr(c.st,c.args[0],b,c.ctx); c.eng.wr(c.st,c.args[1],a,c.ctx)
        return UNIT
    def index(s,c):
        p=c.args[0]; i=c.args[1]
        ity=c.info['targs'][1] if len(c.info['targs'])>1 else c.argtys[1]
        if ity=='usize': 
            v=c.rd(0)
            if v.op in('slice','accts'): return refval(c.eng.index(v,i))
            return c.eng.ext(p,('i',i))
        if 'RangeFull' in ity: return p
        if 'RangeFrom<' in ity:
            v=p if p.op=='slice' else c.rd(0)
            st=fld(i,'start')
            if v.op=='slice': return T('slice',v.a[0],add(v.a[1],st,64),sub(v.a[2],st,64))
            return T('slice',v,st,sub(c.eng.length(c.st,v),st,64))
        if re.search(r'\bRange(To)?<',ity):
            v=p if p.op=='slice' else c.rd(0)
            st=fld(i,'start') if 'Range<' in ity else K(0,64); n=sub(fld(i,'end'),st,64)
            if v.op=='slice': return T('slice',v.a[0],add(v.a[1],st,64),n)
            if v.op in('phi','accts','arg','fld'): return T('slice',v,st,n)
        return T('call','slice',p,i)
    index.cond=lambda s,c: not c.info.get('local')
    def vec_len(s,c): return c.eng.length(c.st,c.args[0])
    def el(s,c,p,i): return refval(c.eng.index(p,i)) if p.op=='slice' else c.eng.ext(p,('i',i))
    def part(s,c,p,st,n):
        v=p if p.op=='slice' else c.eng.rd(c.st,p)
        return T('slice',v.a[0],add(v.a[1],st,64),n) if v.op=='slice' else T('slice',v,st,n)
    def some_if(s,c,cond,v):
        return ite(c.st.pc.F().simp(cond),Some(v),NONE)
    def s_get(s,c):
        p,i=c.args[0],c.args[1]
        return s.some_if(c,lt(i,c.eng.length(c.st,p),64,False),s.el(c,p,i))
    s_get.cond=lambda s,c: c.argtys[1]=='usize'
    def s_first(s,c):
        p=c.args[0]; return s.some_if(c,lt(K(0,64),c.eng.length(c.st,p),64,False),s.el(c,p,K(0,64)))
    def s_last(s,c):
        p=c.args[0]; n=c.eng.length(c.st,p)
        return s.some_if(c,lt(K(0,64),n,64,False),s.el(c,p,sub(n,K(1,64),64)))
    def s_split_first(s,c):
        p=c.args[0]; n=c.eng.length(c.st,p)
        return s.some_if(c,lt(K(0,64),n,64,False),mkagg('tup','',('0','1'),(s.el(c,p,K(0,64)),s.part(c,p,K(1,64),sub(n,K(1,64),64)))))
    def s_split_at(s,c):
        p,i=c.args[0],c.args[1]; n=c.eng.length(c.st,p)
        if not s.need(c,le(i,n,64,False)): return None
        return mkagg('tup','',('0','1'),(s.part(c,p,K(0,64),i),s.part(c,p,i,sub(n,i,64))))
    def s_iter(s,c):
        p=c.args[0]
        return mkagg('Iter','',('s','pos'),(p,K(0,64)))
    def as_slice(s,c):
        it=c.rd(0); p,pos=fld(it,'s'),fld(it,'pos')
        v=p if p.op=='slice' else c.eng.rd(c.st,p)
        if v.op=='slice': return T('slice',v.a[0],add(v.a[1],pos,64),sub(v.a[2],pos,64))
        return T('slice',v,pos,sub(c.eng.length(c.st,v),pos,64))
    def next(s,c):
        it=c.rd(0)
        if it.op=='agg' and it.a[0]=='AIter':
            v,pos=fld(it,'v'),fld(it,'pos')
            cond=c.st.pc.F().simp(lt(pos,K(len(v.a[3]),64),64,False))
            el=v.a[3][kv(pos)] if isk(pos) and kv(pos)<len(v.a[3]) else c.eng.index(v,pos)
            c.eng.wr(c.st,c.args[0],setfld(it,'pos',ite(cond,add(pos,K(1,64),64),pos)),c.ctx)
            return ite(cond,Some(el),NONE)
        if it.op=='agg' and it.a[0]=='Iter':
            p,pos=fld(it,'s'),fld(it,'pos')
            ln=c.eng.length(c.st,p)
            cond=lt(pos,ln,64,False)
            el=refval(c.eng.index(p,pos)) if p.op=='slice' else c.eng.ext(p,('i',pos))
            cond=c.st.pc.F().simp(cond)
            c.eng.wr(c.st,c.args[0],setfld(it,'pos',ite(cond,add(pos,K(1,64),64),pos)),c.ctx)
            return ite(cond,Some(el),NONE)
        t=s.selfty(c)
        if strip(t)=='std::ops::Range':
            et=targs_of(t)[0]; w=width(et)
            a,b=fld(it,'start'),fld(it,'end')
            cond=c.st.pc.F().simp(lt(a,b,w,signed(et)))
            c.eng.wr(c.st,c.args[0],setfld(it,'start',ite(cond,add(a,K(1,w),w),a)),c.ctx)
            return ite(cond,Some(a),NONE)
        c.eng.wr(c.st,c.args[0],T('call','adv',it),c.ctx)
        return ite(T('ok',T('call','hasnext',it)),Some(T('call','elem',it)),NONE)
    def nth(s,c):
        it=c.rd(0); n=c.args[1]
        p,pos=fld(it,'s'),fld(it,'pos')
        ln=c.eng.length(c.st,p); at=add(pos,n,64)
        cond=c.st.pc.F().simp(and_(not_(carry(pos,n,64)),lt(at,ln,64,False)))
        el=refval(c.eng.index(p,at)) if p.op=='slice' else c.eng.ext(p,('i',at))
        c.eng.wr(c.st,c.args[0],setfld(it,'pos',ite(cond,add(at,K(1,64),64),ln)),c.ctx)
        return ite(cond,Some(el),NONE)
    def nth_cond(s,c):
        it=c.rd(0); return it.op=='agg' and it.a[0]=='Iter'
    nth.cond=nth_cond
    def next_info(s,c): return leaves(asopt(s.next(c)),Ok,lambda e: Err(ERR),'Some')
    def next_back(s,c):
        it=c.rd(0); t=s.selfty(c); et=targs_of(t)[0]; w=width(et)
        a,b=fld(it,'start'),fld(it,'end')
        cond=c.st.pc.F().simp(lt(a,b,w,signed(et)))
        e=sub(b,K(1,w),w)
        c.eng.wr(c.st,c.args[0],setfld(it,'end',ite(cond,e,b)),c.ctx)
        return ite(cond,Some(e),NONE)
    def next_back_cond(s,c):
        t=s.selfty(c); return strip(t)=='std::ops::Range' and width(targs_of(t)[0])
    next_back.cond=next_back_cond
    def step_fn(s,c):
        w=width(s.selfty(c)); n=cast(c.args[1],64,False,w) if w<64 else c.args[1]
        return (add if 'forward' in c.path else sub)(c.args[0],n,w)
    def step_cond(s,c): return width(s.selfty(c)) and width(s.selfty(c))<=64
    step_fn.cond=step_cond
    def next_cond(s,c):
        t=s.selfty(c); return strip(t) in('std::slice::Iter','std::ops::Range','std::array::IntoIter') or not c.info.get('key')
    next.cond=next_cond
    def map_new(s,c): return T('map0')
    def map_insert(s,c):
        k=c.deep(1); m=c.rd(0)
        c.eng.wr(c.st,c.args[0],setfld(m,show(k),c.args[2]),c.ctx); return NONE
    def map_get(s,c):
        m=c.rd(0); k=show(c.deep(1))
        v=fld(m,k)
        return Some(refval(v))
    def map_index(s,c): return down(s.map_get(c),'Some').a[3][0]
    def map_index_cond(s,c): return strip(s.selfty(c))=='std::collections::BTreeMap'
    map_index.cond=map_index_cond
    def to_string(s,c):
        v=c.deep(0); return v if v.op=='str' else T('noise')
    def box_new(s,c): return s.box(c,c.args[0])
    def box_uninit(s,c): return s.box(c,T('undef'))
    def into_vec(s,c):
        v=c.eng.rd(c.st,c.args[0])
        while v.op in('agg','rec') and v.a[0] not in('arr',) and 'value' in dict(v.a[1] if v.op=='rec' else zip(v.a[2],v.a[3])): v=fld(v,'value')
        return v
    def flat(s,c,v):
        """the elements of a list whose length is known"""
        if v.op=='ref': v=c.eng.rd(c.st,v)
        if v.op=='agg' and v.a[0]=='arr': return list(v.a[3])
        if v.op=='slice' and isk(v.a[1]) and isk(v.a[2]):
            b=s.flat(c,v.a[0])
            if b is not None and kv(v.a[1])+kv(v.a[2])<=len(b): return b[kv(v.a[1]):kv(v.a[1])+kv(v.a[2])]
        return None
    def append(s,c):
        a,b=c.rd(0),c.args[1] if c.args[1].op=='slice' else c.rd(1)
        x,y=s.flat(c,a),s.flat(c,b)
        c.eng.wr(c.st,c.args[0],T('cat',a,b) if x is None or y is None else arr(x+y),c.ctx)
        if c.path.endswith('::append'): c.eng.wr(c.st,c.args[1],arr([]),c.ctx)
        return UNIT
    def push(s,c):
        x=s.flat(c,c.rd(0))
        c.eng.wr(c.st,c.args[0],T('cat',c.rd(0),arr([c.args[1]])) if x is None else arr(x+[c.args[1]]),c.ctx); return UNIT
    def concat(s,c):
        x=s.flat(c,c.args[0])
        if x is not None:
            x=[s.flat(c,v) for v in x]
            if all(v is not None for v in x): return arr(sum(x,[]))
        return s.unknown(c)
    def vec_new(s,c): return arr([])
    def to_vec(s,c): return c.args[0] if c.args[0].op=='slice' else c.rd(0)
    def eq(s,c):
        t=unref(s.selfty(c))
        a,b=c.deep(0),c.deep(1)
        if width(t): return eqv(a,b,width(t))
        return eqv(a,b)
    def eq_cond(s,c):
        t=unref(s.selfty(c))
        return t in INTS or short(t) in('Pubkey','str','String') or not c.info.get('key') or s.isbig(t)
    eq.cond=eq_cond
    def ne(s,c): return not_(s.eq(c))
    ne.cond=eq_cond
    def isbig(s,t): return short(t) in('U128','U256')
    def tw(s,t):
        n=short(unref(t))
        if n=='U128': return 128,False
        if n=='U256': return 256,False
        if n=='Pubkey' or unref(t)=='[u8; 32]': return 256,False
        return width(n),signed(n)
    def cmp_cond(s,c): return s.tw(s.selfty(c))[0] is not None
    def cmpop(s,c,f):
        w,sg=s.tw(s.selfty(c)); return f(c.deep(0),c.deep(1),w,sg)
    def p_lt(s,c): return s.cmpop(c,lambda a,b,w,g: lt(a,b,w,g))
    def p_gt(s,c): return s.cmpop(c,lambda a,b,w,g: lt(b,a,w,g))
    def p_le(s,c): return s.cmpop(c,lambda a,b,w,g: le(a,b,w,g))
    def p_ge(s,c): return s.cmpop(c,lambda a,b,w,g: le(b,a,w,g))
    for _n in('p_lt','p_gt','p_le','p_ge'): locals()[_n].cond=cmp_cond
    def o_max(s,c):
        w,sg=s.tw(s.selfty(c)); a,b=c.args; return ite(lt(a,b,w,sg),b,a)
    def o_min(s,c):
        w,sg=s.tw(s.selfty(c)); a,b=c.args; return ite(lt(b,a,w,sg),b,a)
    o_max.cond=cmp_cond; o_min.cond=cmp_cond
    def frm(s,c):
        t=s.info_targs(c)
        d,f=t[0],t[1]
        if d.endswith('Error'): return ERR
        if 'COption' in f: return asopt(c.args[0])
        wd,_=s.tw(d); wf,sf=s.tw(f)
        return cast(c.args[0],wf,sf,wd)
    def info_targs(s,c):
        t=c.info['targs']
        if len(t)<2: return (c.destty,c.argtys[0])
        return t
    def frm_cond(s,c):
        d,f=s.info_targs(c)
        if d.endswith('Error'): return True
        if 'COption' in f and strip(d)=='std::option::Option': return True
        return s.tw(d)[0] is not None and s.tw(f)[0] is not None and short(d)!='Pubkey'
    frm.cond=frm_cond
    def into(s,c):
        t=c.info['targs']; f,d=t[0],t[1]
        if d.endswith('Error'): return ERR
        wd,_=s.tw(d); wf,sf=s.tw(f)
        if wd and wf: return cast(c.args[0],wf,sf,wd)
        return T('noise')
    def try_from(s,c):
        d,f=s.info_targs(c)
        wd,sd=s.tw(d); wf,sf=s.tw(f); a=c.args[0]
        return ite(s.fits(a,wf,sf,wd,sd),Ok(cast(a,wf,sf,wd)),Err(ERR))
    try_from.cond=frm_cond
    def fits(s,a,wf,sf,wd,sd):
        lo_f,hi_f=(-(1<<(wf-1)),(1<<(wf-1))-1) if sf else (0,(1<<wf)-1)
        lo_d,hi_d=(-(1<<(wd-1)),(1<<(wd-1))-1) if sd else (0,(1<<wd)-1)
        r=TRUE
        if lo_d>lo_f: r=and_(r,not_(lt(a,K(lo_d,wf),wf,sf)))
        if hi_d<hi_f: r=and_(r,lt(a,K(hi_d+1,wf),wf,sf))
        return r
    def copt_contains(s,c):
        v=asopt(c.rd(0)); x=c.deep(1)
        return leaves(v,lambda y:eqv(y,x),lambda e:FALSE,'Some')
    def copt_as_ref(s,c): return leaves(asopt(c.rd(0)),lambda x:Some(refval(x)),lambda e:NONE,'Some')
    def copt_unwrap_or(s,c): return leaves(asopt(c.args[0]),lambda x:x,lambda e:c.args[1],'Some')
    def copt_map(s,c):
        clo=c.args[1]
        v=asopt(c.args[0])
        # closure bodies are applied through the crate's own code
        key=clo.a[0][8:] if clo.op=='agg' and clo.a[0].startswith('closure:') else None
        if key and key in s.db.fns:
            x=fld(down(v,'Some'),'0')
            outs=c.eng.invoke(c,key,[clo,x])
            if len(outs)==1:
                st,r=outs[0]; c.st.mem=st.mem
                return leaves(v,lambda _:Some(r),lambda e:NONE,'Some')
        return T('call','map',v)
    def clock(s,c):
        t=short(s.selfty(c))
        return c.ok(T('sysvar',t),'sysvar')
    def neg_op(s,c):
        w,_=s.tw(s.selfty(c)); return neg(c.args[0],w)
    neg_op.cond=cmp_cond
    def drop_(s,c): return UNIT
    # ---------------------------------------------------------------- integers
    def ovf(s,op,t,a,b):
        w=width(t); sg=signed(t)
        if op=='sub' and not sg: return lt(a,b,w,False)
        if op=='add' and not sg: return carry(a,b,w)
        return T('ovf',op,'s' if sg else 'u',w,*(sorted((a,b),key=skey) if op!='sub' else (a,b)))
    def arith(s,c,t,op):
        return {'add':add,'sub':sub,'mul':mul}[op](c.args[0],c.args[1],width(t))
    def num_checked_add(s,c,t): return ite(s.ovf('add',t,*c.args),NONE,Some(s.arith(c,t,'add')))
    def num_checked_sub(s,c,t):
        a,b=c.args
        acc=lambda x: x.op=='fld' and x.a[0].op=='tokdata' and x.a[0].a[0]
        if not signed(t) and acc(a) and acc(a) is acc(b): c.eng.drops.append(not_(lt(a,b,width(t),False)))   # two readings of one balance
        return ite(s.ovf('sub',t,*c.args),NONE,Some(s.arith(c,t,'sub')))
    def num_checked_mul(s,c,t): return ite(s.ovf('mul',t,*c.args),NONE,Some(s.arith(c,t,'mul')))
    def num_checked_div(s,c,t): return ite(eqv(c.args[1],K(0,width(t)),width(t)),NONE,Some(div(*c.args,width(t),signed(t))))
    def num_wrapping_add(s,c,t): return s.arith(c,t,'add')
    def num_wrapping_sub(s,c,t): return s.arith(c,t,'sub')
    def num_wrapping_mul(s,c,t): return s.arith(c,t,'mul')
    def num_wrapping_neg(s,c,t): return neg(c.args[0],width(t))
    def num_overflowing_add(s,c,t): return tup(s.arith(c,t,'add'),s.ovf('add',t,*c.args))
    def num_overflowing_sub(s,c,t): return tup(s.arith(c,t,'sub'),s.ovf('sub',t,*c.args))
    def num_overflowing_mul(s,c,t): return tup(s.arith(c,t,'mul'),s.ovf('mul',t,*c.args))
    def num_saturating_sub(s,c,t):
        a,b=c.args; w=width(t)
        if signed(t): return T('call','saturating_sub:'+t,a,b)
        return ite(lt(a,b,w,False),K(0,w),sub(a,b,w))
    def num_saturating_add(s,c,t):
        a,b=c.args; w=width(t)
        if signed(t): return T('call','saturating_add:'+t,a,b)
        return ite(s.ovf('add',t,a,b),K(-1,w),add(a,b,w))
    def num_abs(s,c,t):
        a=c.args[0]; w=width(t); return ite(lt(a,K(0,w),w,True),neg(a,w),a)
    def num_unsigned_abs(s,c,t): return s.num_abs(c,t)
    def num_max_value(s,c,t): return K((1<<(width(t)-(1 if signed(t) else 0)))-1,width(t))
    def num_min_value(s,c,t): return K(-(1<<(width(t)-1)) if signed(t) else 0,width(t))
    def num_pow(s,c,t):
        a,b=c.args
        if isk(a) and isk(b): return K(kv(a)**kv(b),width(t))
        return T('call','pow',a,b)
    def bytes_(s,c,t,k):
        a=c.args[0]; return T('call',k,a if isk(a) else a,K(width(t),16))
    def num_to_be_bytes(s,c,t): return s.bytes_(c,t,'be')
    def num_to_le_bytes(s,c,t): return s.bytes_(c,t,'le')
    def num_to_ne_bytes(s,c,t): return s.bytes_(c,t,'le')
    def num_div_euclid(s,c,t):
        a,b=c.args; w=width(t)
        q=div(a,b,w,signed(t))
        if not signed(t): return q
        if isk(b) and 0<sgn(kv(b),w) and kv(b)&(kv(b)-1)==0: return shr(a,K(kv(b).bit_length()-1,w),w,True)
        r=rem(a,b,w,True)
        return ite(lt(r,K(0,w),w,True),ite(s.posdiv(c,b,w),sub(q,K(1,w),w),add(q,K(1,w),w)),q)
    def posdiv(s,c,b,w):
        """is the divisor positive, where it is not zero (a zero divisor panics)"""
        nz=not_(eqv(b,K(0,w),w)); c.st.pc=c.st.pc.assume(nz)
        p=lt(K(0,w),b,w,True)
        return TRUE if p is nz else p
    def num_rem_euclid(s,c,t):
        a,b=c.args; w=width(t); r=rem(a,b,w,signed(t))
        if not signed(t): return r
        if isk(b) and 0<sgn(kv(b),w) and kv(b)&(kv(b)-1)==0: return band(a,K(kv(b)-1,w),w)
        return ite(eqv(r,K(0,w),w),K(0,w),ite(lt(r,K(0,w),w,True),ite(s.posdiv(c,b,w),add(r,b,w),sub(r,b,w)),r))
    def num_wrapping_div(s,c,t): return div(*c.args,width(t),signed(t))
    def num_wrapping_rem(s,c,t): return rem(*c.args,width(t),signed(t))
    def num_checked_rem(s,c,t): return ite(eqv(c.args[1],K(0,width(t)),width(t)),NONE,Some(rem(*c.args,width(t),signed(t))))
    def num_is_negative(s,c,t): w=width(t); return lt(c.args[0],K(0,w),w,True)
    def num_is_positive(s,c,t): w=width(t); return lt(K(0,w),c.args[0],w,True)
    def num_signum(s,c,t):
        w=width(t); a=c.args[0]; return ite(lt(a,K(0,w),w,True),K(-1,w),ite(eqv(a,K(0,w),w),K(0,w),K(1,w)))
    def num_abs_diff(s,c,t):
        a,b=c.args; w=width(t); return ite(lt(a,b,w,signed(t)),sub(b,a,w),sub(a,b,w))
    def num_checked_neg(s,c,t):
        a=c.args[0]; w=width(t)
        bad=eqv(a,K(1<<(w-1),w),w) if signed(t) else not_(eqv(a,K(0,w),w))
        return ite(bad,NONE,Some(neg(a,w)))
    def num_checked_abs(s,c,t):
        a=c.args[0]; w=width(t)
        return ite(eqv(a,K(1<<(w-1),w),w),NONE,Some(s.num_abs(c,t)))
    def num_wrapping_abs(s,c,t): return s.num_abs(c,t)
    def num_div_ceil(s,c,t):
        a,b=c.args; w=width(t); q=div(a,b,w,False)
        return ite(eqv(rem(a,b,w,False),K(0,w),w),q,add(q,K(1,w),w)) if not signed(t) else T('call','div_ceil:'+t,a,b)
    def num_wrapping_shl(s,c,t): w=width(t); return shl(c.args[0],cast(c.args[1],32,False,w) if w!=32 else c.args[1],w)
    def num_wrapping_shr(s,c,t): w=width(t); return shr(c.args[0],cast(c.args[1],32,False,w) if w!=32 else c.args[1],w,signed(t))
    def signed_add(s,c,t):
        """unsigned plus signed: (sum, whether it leaves the range)"""
        a,b=c.args; w=width(t); r=add(a,b,w)
        return r,ite(lt(b,K(0,w),w,True),not_(lt(r,a,w,False)),lt(r,a,w,False))
    def num_checked_add_signed(s,c,t): r,o=s.signed_add(c,t); return ite(o,NONE,Some(r))
    def num_wrapping_add_signed(s,c,t): return s.signed_add(c,t)[0]
    def num_overflowing_add_signed(s,c,t): return tup(*s.signed_add(c,t))
    def num_leading_zeros(s,c,t): return T('call','lz:%d'%width(t),c.args[0])
    def num_trailing_zeros(s,c,t): return T('call','tz:%d'%width(t),c.args[0])
    # ---------------------------------------------------------------- U128 / U256 as integers
    def big(s,c):
        t=s.selfbig(c); w,_=s.tw(t); op=c.path.rsplit('::',1)[1]
        A=[c.args[i] if not c.argtys[i].startswith('&') else c.rd(i) for i in range(len(c.args))]
        def w2(i):
            t2=unref(c.argtys[i]); x=A[i]; ww,sg=s.tw(t2)
            return cast(x,ww,sg,w) if ww and ww<w else x
        if op in('add','sub','mul','div','rem'):
            a,b=A[0],w2(1)
            if op=='add': return s.nowrap(c,add(a,b,w),carry(a,b,w))
            if op=='sub': return s.nowrap(c,sub(a,b,w),lt(a,b,w,False))
            if op=='mul':
                if a.op=='ext_' and b.op=='ext_' and a.a[1]+b.a[1]<=w: return mul(a,b,w)
                return s.nowrap(c,mul(a,b,w),T('ovf','mul','u',w,*sorted((a,b),key=skey)))
            if op=='div': return div(a,b,w,False)
            return rem(a,b,w,False)
        if op in('shl','shr'):
            ww,sg=s.tw(unref(c.argtys[1])); b=cast(A[1],ww,sg,w) if ww!=w else A[1]
            return shl(A[0],b,w) if op=='shl' else shr(A[0],b,w,False)
        if op=='not': return bnot(A[0],w)
        if op=='bitand': return band(A[0],A[1],w)
        if op=='bitor': return bor(A[0],A[1],w)
        if op=='bitxor': return bxor(A[0],A[1],w)
        if op in('as_u64','as_u128','as_usize','as_u32'):
            d={'as_u64':64,'as_u128':128,'as_usize':64,'as_u32':32}[op]
            if d>=w: return A[0] if d==w else cast(A[0],w,False,d)
            if not s.need(c,lt(A[0],K(1<<d,w),w,False)): return None
            return cast(A[0],w,False,d)
        if op in('low_u64','low_u128','low_u32'):
            d={'low_u64':64,'low_u128':128,'low_u32':32}[op]
            r=cast(A[0],w,False,d)
            c.eng.calls.append(('low',(A[0],K(w,16),K(d,16)),c.st.pc,c.ctx[1],tuple(c.eng.stack),tuple(c.eng.loopstack)))
            return r
        if op=='zero': return K(0,w)
        if op=='one': return K(1,w)
        if op=='max_value': return K(-1,w)
        if op=='is_zero': return eqv(A[0],K(0,w),w)
        if op in('checked_add','checked_sub','checked_mul'):
            f=op[8:]; a,b=A
            o=lt(a,b,w,False) if f=='sub' else carry(a,b,w) if f=='add' else T('ovf',f,'u',w,*sorted((a,b),key=skey))
            return ite(o,NONE,Some({'add':add,'sub':sub,'mul':mul}[f](a,b,w)))
        if op in('leading_zeros','trailing_zeros','bits'): return T('call',{'leading_zeros':'lz:%d','trailing_zeros':'tz:%d','bits':'bits:%d'}[op]%w,A[0])
        if op=='default': return K(0,w)
        if op=='rem_assign':
            c.eng.wr(c.st,c.args[0],rem(A[0],w2(1),w,False),c.ctx); return UNIT
        if op in('shl_assign','shr_assign'):
            ww,sg=s.tw(unref(c.argtys[1])); b=cast(A[1],ww,sg,w) if ww!=w else A[1]
            c.eng.wr(c.st,c.args[0],shl(A[0],b,w) if op=='shl_assign' else shr(A[0],b,w,False),c.ctx); return UNIT
        if op in('add_assign','sub_assign','mul_assign','div_assign'):
            f={'add':add,'sub':sub,'mul':mul}.get(op[:3]); v=f(A[0],w2(1),w) if f else div(A[0],w2(1),w,False)
            c.eng.wr(c.st,c.args[0],v,c.ctx); return UNIT
        if op=='clone': return A[0]
        c.eng.unknown['big '+c.full]=1
        return T('call','big:'+op,*A)
    def nowrap(s,c,v,o):
        if not s.need(c,not_(o)): return T('undef')
        return v
    def selfbig(s,c):
        m=re.search(r'big_num::(U128|U256)',c.full); return m.group(1)
    def big_cond(s,c):
        if re.match(r'^<?&?libraries::big_num::U(128|256)( as std::(ops|clone|default|cmp)::|::)',c.full): 
            return not re.search(r'from_|exp10|eq$|ne$|lt$|gt$|le$|ge$|cmp$|max$|min$',c.path.rsplit('::',1)[1])
        return False
    big.cond=big_cond

NUM=re.compile(r'^core::num::<impl (\w+)>::(\w+)$')
def R(p): return re.compile(p)
TABLE=[(R(a),b) for a,b in [
 (r'^(std|core)::(rt|panicking)::|panic|assert_failed|^std::process|^alloc::alloc::handle|expect_failed|unwrap_failed','dead'),
 (r'sol_log|std::io::_print|^std::hint::must_use$','noise'),
 (r'^anchor_lang::error::|ErrorCode::name$|^std::fmt::|::fmt$|^alloc::fmt|std::string::String|core::fmt::rt','noise'),
 (r'^std::string::ToString::to_string$','to_string'),
 (r'^std::ops::Try::branch$','try_branch'),
 (r'^std::ops::FromResidual::from_residual$','from_residual'),
 (r'^std::result::Result::<T, E>::map_err$','map_err'),
 (r'^std::result::Result::<T, E>::(unwrap|expect)$','res_unwrap'),
 (r'^std::result::Result::<T, E>::is_ok$','res_is_ok'),
 (r'^std::result::Result::<T, E>::is_err$','res_is_err'),
 (r'^std::result::Result::<T, E>::ok$','res_ok'),
 (r'^std::result::Result::<T, E>::unwrap_or$','res_unwrap_or'),
 (r'^std::option::Option::<T>::(unwrap|expect)$','opt_unwrap'),
 (r'^std::option::Option::<T>::unwrap_or$','opt_unwrap_or'),
 (r'^std::option::Option::<T>::is_some$','opt_is_some'),
 (r'^std::option::Option::<T>::is_none$','opt_is_none'),
 (r'^std::option::Option::<T>::ok_or(_else)?$','opt_ok_or'),
 (r'COption::<T>::contains$','copt_contains'),
 (r'COption::<T>::as_ref$','copt_as_ref'),
 (r'COption::<T>::map$','copt_map'),
 (r'COption::<T>::unwrap_or$','copt_unwrap_or'),
 (r'^anchor_lang::Accounts::try_accounts$','try_accounts'),
 (r'(Account|AccountLoader|Signer|UncheckedAccount|Program|SystemAccount)(::)?<.*>::try_from(_unchecked)?$','F_try_from'),
 (r'AccountLoader::<.*>::(load|load_mut|load_init)$','load'),
 (r'Account::<.*>::reload$','reload'),
 (r'^anchor_lang::Key::key$','key'),
 (r'^anchor_lang::ToAccountInfo::to_account_info$','to_account_info'),
 (r'^anchor_lang::ToAccountInfos::to_account_infos$','infos'),
 (r'^anchor_lang::ToAccountMetas::to_account_metas$','metas'),
 (r'context::Context::<.*>::new$','context_new'),
 (r'context::CpiContext::<.*>::new$','cpictx_new'),
 (r'context::CpiContext::<.*>::new_with_signer$','cpictx_new_signer'),
 (r'^anchor_spl::(token|associated_token)::(transfer|mint_to|burn|approve|revoke|set_authority|initialize_mint|initialize_account|close_account|freeze_account|thaw_account|create|sync_native|transfer_checked)$','cpi'),
 (r'associated_token::get_associated_token_address$','ata'),
 (r'program::(invoke|invoke_signed|invoke_unchecked|invoke_signed_unchecked)$','invoke'),
 (r'Instruction::new_with_bytes$','ix_new'),
 (r'system_instruction::|create_metadata_accounts$|Rent::|AccountInfo::<.*>::(lamports|data_len|try_data_len|data_is_empty|try_lamports)$|base64::|token::ID$','pure'),
 (r'::id$|Id::id$|^id$','idfn'),
 (r'^anchor_lang::Event::data$','event_data'),
 (r'^anchor_lang::InstructionData::data$','ix_data'),
 (r'^anchor_lang::AnchorDeserialize::deserialize$|BorshDeserialize::deserialize$','deser'),
 (r'^anchor_lang::AnchorSerialize::|BorshSerialize::','pure'),
 (r'^anchor_lang::AccountsExit::exit$','exit_ext'),
 (r'^anchor_lang::AccountsClose::close$','close'),
 (r'Pubkey::create_program_address$','create_pda'),
 (r'Pubkey::find_program_address$','find_pda'),
 (r'Pubkey::to_bytes$','to_bytes'),
 (r'SolanaSysvar::get$','clock'),
 (r'^std::default::Default::default$','default'),
 (r'^std::clone::Clone::clone$','clone'),
 (r'^std::ops::(Deref::deref|DerefMut::deref_mut)$','deref'),
 (r'^std::convert::AsRef::as_ref$|str>::as_bytes$|AsMut::as_mut$|borrow::Borrow::borrow$','as_ref'),
 (r'^std::mem::size_of$','size_of'),
 (r'^std::mem::drop$','drop_'),
 (r'^std::mem::swap$','swap'),
 (r'^std::ops::(Index::index|IndexMut::index_mut)$','index'),
 (r'^std::vec::Vec::<.*>::len$|slice::<impl \[T\]>::len$','vec_len'),
 (r'slice::<impl \[T\]>::iter$','s_iter'),
 (r'slice::Iter::<.*>::as_slice$','as_slice'),
 (r'slice::<impl \[T\]>::split_first$','s_split_first'),(r'slice::<impl \[T\]>::split_at$','s_split_at'),
 (r'slice::<impl \[T\]>::first$','s_first'),(r'slice::<impl \[T\]>::last$','s_last'),(r'slice::<impl \[T\]>::get$','s_get'),
 (r'^std::iter::Iterator::next$','next'),(r'^std::iter::Iterator::nth$','nth'),(r'(^|::)next_account_info$','next_info'),
 (r'^std::iter::DoubleEndedIterator::next_back$','next_back'),
 (r'iter::Step(>)?::(forward|backward)_unchecked$|iter::range::Step(>)?::(forward|backward)(_unchecked)?$','step_fn'),
 (r'^std::iter::IntoIterator::into_iter$','into_iter'),
 (r'BTreeMap::<.*>::new$','map_new'),
 (r'BTreeMap::<.*>::insert$','map_insert'),
 (r'BTreeMap::<.*>::get$','map_get'),(r'^std::ops::Index::index$','map_index'),
 (r'^std::boxed::Box::<.*>::new$','box_new'),
 (r'^std::boxed::Box::<.*>::new_uninit$','box_uninit'),
 (r'box_assume_init_into_vec_unsafe$','into_vec'),
 (r'^std::vec::Vec::<.*>::(append|extend_from_slice)$','append'),
 (r'slice::<impl \[T\]>::to_vec$','to_vec'),
 (r'^std::vec::Vec::<.*>::push$','push'), (r'^std::vec::Vec::<.*>::(new|with_capacity)$','vec_new'), (r'slice::<impl \[T\]>::concat$|slice::Concat::concat$','concat'),
 (r'^std::cmp::PartialEq::eq$','eq'),(r'^std::cmp::PartialEq::ne$','ne'),
 (r'^std::cmp::PartialOrd::lt$','p_lt'),(r'^std::cmp::PartialOrd::gt$','p_gt'),
 (r'^std::cmp::PartialOrd::le$','p_le'),(r'^std::cmp::PartialOrd::ge$','p_ge'),
 (r'^std::cmp::(Ord::max|max)$','o_max'),(r'^std::cmp::(Ord::min|min)$','o_min'),
 (r'^std::convert::From::from$','frm'),(r'^std::convert::Into::into$','into'),
 (r'^std::convert::(TryFrom::try_from|TryInto::try_into)$','try_from'),
 (r'^std::ops::Neg::neg$','neg_op'),
 (r'.','big'),
]]
LIB=re.compile(r'^libraries::(bit_math|full_math|liquidity_amounts|liquidity_math|sqrt_price_math|swap_math|tick_math|unsafe_math|big_num)::')
LIBFNS=set('''libraries::bit_math::least_significant_bit libraries::bit_math::most_significant_bit
libraries::full_math::MulDiv::mul_div_ceil libraries::full_math::MulDiv::mul_div_floor
libraries::liquidity_amounts::get_amount_0_for_liquidity libraries::liquidity_amounts::get_amount_1_for_liquidity
libraries::liquidity_amounts::get_liquidity_for_amount_0 libraries::liquidity_amounts::get_liquidity_for_amount_1
libraries::liquidity_amounts::get_liquidity_for_amounts libraries::liquidity_math::add_delta
libraries::sqrt_price_math::get_amount_0_delta_signed libraries::sqrt_price_math::get_amount_0_delta_unsigned
libraries::sqrt_price_math::get_amount_1_delta_signed libraries::sqrt_price_math::get_amount_1_delta_unsigned
libraries::sqrt_price_math::get_next_sqrt_price_from_amount_0_rounding_up libraries::sqrt_price_math::get_next_sqrt_price_from_amount_1_rounding_down
libraries::sqrt_price_math::get_next_sqrt_price_from_input libraries::sqrt_price_math::get_next_sqrt_price_from_output
libraries::swap_math::compute_swap_step libraries::tick_math::get_sqrt_ratio_at_tick libraries::tick_math::get_tick_at_sqrt_ratio
libraries::unsafe_math::UnsafeMathTrait::div_rounding_up'''.split())
def lib_opaque(c):
    p=c.path
    if p in LIBFNS:
        n=p.rsplit('::',1)[1]
        if 'MulDiv' in p: n+=':'+short(c.info['targs'][0])
        return n
    return None
