"""The rules: for every property, the obligations its check discharges on the
interpreted handlers.  ob(prop, where, label, fact) records one obligation."""
from runs import *
import traceback

ROOTS='''add_metaplex_metadata burn close_tick_account collect collect_from_tokenized collect_protocol create_and_init_pool
decrease_liquidity enable_fee_amount exact_input exact_input_single increase_liquidity increase_observation_cardinality_next
init_bitmap_account init_factory init_position_account init_tick_account mint mint_callback mint_tokenized_position
set_fee_protocol set_owner swap swap_callback'''.split()

class Checker:
    def __init__(s,db):
        s.db=db; s.runs={}; s.obs=[]; s.prop=None; s.libs={}; s.needs=None
    # ---- access to analysed code
    def R(s,name):
        r=s.runs.get(name)
        if r is None:
            try: r=Run(s.db,name)
            except Missing as e: r=e
            s.runs[name]=r
        if isinstance(r,Missing): raise r
        return r
    def all(s):
        """every instruction handler of the program (also ones added later)"""
        names=sorted(k.split('::')[-1] for k in s.db.fns if re.match(r'__private::__global::\w+$',k))
        return [s.R(n) for n in names]
    def lib(s,key,args=None,inline=()):
        k=(key,args,inline)
        if k not in s.libs: s.libs[k]=LibRun(s.db,key,list(args) if args else None,inline=inline)
        return s.libs[k]
    # ---- obligations
    def ob(s,root,label,ok,detail='',ev=None):
        rn=root.name if hasattr(root,'name') else root
        if callable(ok): ok=ok()
        s.obs.append(dict(root=rn,label=label,ok=bool(ok),detail=detail if isinstance(detail,str) else show(detail,9)[:1500],
            where=where(ev) if ev is not None else '',span=span(ev) if ev is not None else ''))
        return bool(ok)
    def eq(s,r,label,got,want,ev=None,extra=()):
        ok=r.same(got,want,ev,extra)
        return s.ob(r,label,ok,'' if ok else 'found '+show(got,9)[:900]+'   required '+show(want,9)[:900],ev)
    def need(s,r,label,fact,ev=None,extra=(),at=None):
        if at is None and s.needs is not None: s.needs.append((r.name,fact,ev))
        ok=r.holds(fact,at if at is not None else ev,extra)
        return s.ob(r,label,ok,'' if ok else 'not implied by the checks before it: '+show(fact,9)[:900],ev)
    def note(s,r,fact):
        """a check the handler is required to make, decided elsewhere"""
        if s.needs is not None: s.needs.append((r.name,fact,None))
    def run(s,fn):
        s.obs=[]
        try: fn(s)
        except Missing as e: s.ob('program','anchor present',False,str(e))
        for n,r in list(s.runs.items()):
            if isinstance(r,Run) and r.dead: s.ob(n,'the success path of the entry point is reachable',False,'every path to success is contradictory')
        return s.obs

RULES={}
def rule(pid):
    def d(f): RULES[pid]=f; return f
    return d

# ------------------------------------------------------------------ vocabulary
def pool(f,acct='pool_state'): return fld(D0(acct,'PoolState'),f)
def poolseeds(acct='pool_state'): return (pool('token_0',acct),pool('token_1',acct),be(pool('fee',acct),32))
def signerseeds(*seed_lists):
    """Some(&[&[..]])"""
    return seed_lists
def pda(*seeds): return T('pda',tuple(seeds),PID)
def arr1(x): return arr([x])
POOLSIG=lambda a='pool_state': (S('p'),)+poolseeds(a)+(arr1(pool('bump',a)),)
FACTSIG=lambda a='factory_state': (arr1(fld(D0(a,'FactoryState'),'bump')),)
def seedsof(v):
    """signer seeds of a CPI as a tuple of seed tuples, or None when unsigned"""
    if v is None or v is NONE: return None
    if v.op=='agg' and v.a[1]=='Some': v=v.a[3][0]
    if v.op!='agg' or v.a[0]!='arr': return 'unknown'
    return tuple(tuple(map(seedtext,x.a[3])) if x.op=='agg' else (x,) for x in v.a[3])
def ispda(a,ty_seeds,bump):
    return EQ(KEY(a),pda(*(ty_seeds+(arr1(bump),))))
def signer(a): return fld(A(a) if isinstance(a,str) else a,'is_signer')
def isacct(t,n): return t.op=='acct' and t.a[0]==n

TAGS={'PoolState':'p','ObservationState':'o','TickState':'t','TickBitmapState':'b','PositionState':'ps'}

def transfers(r): return [e for e in r.evs('CPI') if e.name.split('::')[-1] in('transfer','transfer_checked')]
def program_moves(r):
    """token movements, mints, burns, authority changes and raw invokes signed by a program address"""
    return [e for e in r.events if e.kind in('CPI','INVOKE') and seedsof(e.seeds) is not None]

def run_prop(chk,pid):
    chk.prop=pid
    return chk.run(RULES[pid])

# ------------------------------------------------------------------ C01
ADMIN={'set_owner':'factory_state','enable_fee_amount':'factory_state','set_fee_protocol':'factory_state','collect_protocol':'factory_state'}
@rule('C01')
def c01(c):
    admin_effects=0
    for r in c.all():
        effs=[e for e in r.stores() if e.root.a[1] in('FactoryState','FeeState')]
        effs+=[e for e in r.evs('INIT') if e.type in('FactoryState','FeeState')]
        effs+=[e for e in r.stores('PoolState') if e.path and e.path[0][1] in('protocol_fees_token_0','protocol_fees_token_1') and not grows_only(r,e)]
        if not effs: continue
        admin_effects+=len(effs)
        if r.name=='init_factory':
            c.need(r,'the first owner signs the set-up',signer('owner'))
            c.eq(r,'the signer becomes the first owner',r.fin('factory_state','FactoryState','owner'),KEY('owner'))
            c.ob(r,'set-up creates the configuration account at its program address',any(e.type=='FactoryState' for e in r.evs('INIT')))
            continue
        if r.name=='create_and_init_pool': 
            c.ob(r,'pool creation leaves the configuration alone',not[e for e in effs if e.root.a[1]!='PoolState'] if all(e.kind=='STORE' for e in effs) else False)
            continue
        fa=[e.root.a[0] for e in effs if e.kind=='STORE' and e.root.a[1]=='FactoryState'] or [A('factory_state')]
        for e in effs:
            own=fld(D0(fa[0],'FactoryState'),'owner')
            c.need(r,'%s requires the stored owner'%eff(e),EQ(KEY('owner'),own),e)
            c.need(r,'%s requires the owner signature'%eff(e),signer('owner'),e)
            c.need(r,'%s reads the owner from a genuine configuration account'%eff(e),T('typed','FactoryState',fa[0]),e)
        for e in program_moves(r):
            if e.kind=='CPI':
                c.need(r,'withdrawal requires the stored owner',AND(EQ(KEY('owner'),fld(D0('factory_state','FactoryState'),'owner')),signer('owner')),e)
    c.ob('program','administrative effects found',admin_effects>=6,'%d'%admin_effects)
    r=c.R('set_owner'); c.eq(r,'ownership moves to the named account',r.fin('factory_state','FactoryState','owner'),KEY('new_owner'))
    for n in('fee_protocol','bump'): c.eq(r,'set_owner leaves '+n,r.fin('factory_state','FactoryState',n),r.ini('factory_state','FactoryState',n))
    r=c.R('set_fee_protocol')
    for n in('owner','bump'): c.eq(r,'set_fee_protocol leaves '+n,r.fin('factory_state','FactoryState',n),r.ini('factory_state','FactoryState',n))
def eff(e):
    if e.kind=='STORE': return 'writing %s.%s'%(e.root.a[1],e.path[0][1] if e.path else '*')
    return '%s of %s'%(e.kind.lower(),getattr(e,'type',''))
def grows_only(r,e):
    """protocol_fees := protocol_fees + x (swaps accrue; only withdrawals subtract)"""
    if e.path==(): return False
    cur=fld(T('data',e.root.a[0],e.root.a[1]),e.path[0][1])
    d=sub(e.value,cur,64)
    return not any(x is cur for x in subterms(d)) and not(d.op=='lin' and any(sgn(cf,64)<0 for _,cf in d.a[2])) and not(d.op=='min')

# ------------------------------------------------------------------ C14 parameter bounds
@rule('C14')
def c14(c):
    r=c.R('enable_fee_amount')
    f,t=IX('fee'),IX('tick_spacing')
    c.need(r,'fee below 1,000,000',lt(f,K(1000000,32),32,False))
    c.need(r,'tick spacing positive',lt(K(0,16),t,16,False))
    c.need(r,'tick spacing below 16384',lt(t,K(16384,16),16,False))
    c.eq(r,'fee recorded as requested',r.fin('fee_state','FeeState','fee'),f)
    c.eq(r,'tick spacing recorded as requested',r.fin('fee_state','FeeState','tick_spacing'),t)
    r=c.R('set_fee_protocol')
    p=IX('fee_protocol')
    c.need(r,'protocol fee share between 1/10 and 1/2',AND(le(K(2,8),p,8,False),le(p,K(10,8),8,False)))
    c.eq(r,'protocol fee recorded as requested',r.fin('factory_state','FactoryState','fee_protocol'),p)
    r=c.R('init_factory')
    c.eq(r,'initial protocol fee 3',r.fin('factory_state','FactoryState','fee_protocol'),K(3,8))
    r=c.R('create_and_init_pool')
    a,b=KEY('token_0'),KEY('token_1')
    px=IX('sqrt_price_x32')
    for want,n in((a,'token_0'),(b,'token_1')): c.eq(r,'pool %s is the given mint'%n,r.fin('pool_state','PoolState',n),want)
    c.need(r,'the mints are in ascending order',lt(a,b,256,False))
    for n in('fee','tick_spacing'): c.eq(r,'pool %s comes from the enabled fee tier'%n,r.fin('pool_state','PoolState',n),fld(D0('fee_state','FeeState'),n))
    c.need(r,'the fee tier account is genuine',T('typed','FeeState',A('fee_state')))
    c.eq(r,'initial price as requested',r.fin('pool_state','PoolState','sqrt_price_x32'),px)
    tk=call('get_tick_at_sqrt_ratio',px)
    c.need(r,'the initial price is in range (tick computation succeeded)',T('ok',tk))
    c.eq(r,'initial tick is the tick of the initial price',r.fin('pool_state','PoolState','tick'),tk)
    for n,v in(('liquidity',0),('fee_growth_global_0_x32',0),('fee_growth_global_1_x32',0),('protocol_fees_token_0',0),('protocol_fees_token_1',0)):
        c.eq(r,'new pool starts with zero '+n,r.fin('pool_state','PoolState',n),r.ini('pool_state','PoolState',n))
    # no other handler may change these parameters
    for r in c.all():
        for e in r.stores('FeeState'): c.ob(r,'fee tiers change only when enabled',r.name=='enable_fee_amount',eff(e),e)
        for e in r.stores('PoolState'):
            if not e.path or e.path[0][1] in('token_0','token_1','fee','tick_spacing','bump'):
                c.ob(r,'pool parameters are fixed at creation',r.name=='create_and_init_pool',eff(e),e)
        for e in r.stores('FactoryState','fee_protocol'): c.ob(r,'protocol fee changes only through its setter',r.name in('set_fee_protocol','init_factory'),eff(e),e)

# ------------------------------------------------------------------ shared pieces
EP0=T('ep0')
def tok(a,f,ep=EP0): return fld(T('tokdata',A(a) if isinstance(a,str) else a,'TokenAccount',ep),f)
COPT={'None':0,'Some':1}
def nft_auth(who='owner_or_delegate',nft='nft_account'):
    dg=tok(nft,'delegate')
    return AND(signer(who),EQ(tok(nft,'amount'),K(1,64)),
        OR(EQ(tok(nft,'owner'),KEY(who)),
           AND(eqv(discr(dg,COPT),K(1,64),64),EQ(fld(down(dg,'Some'),'0'),KEY(who)),not_(EQ(tok(nft,'delegated_amount'),K(0,64))))))
def tp(f,a='tokenized_position_state'): return fld(D0(a,'TokenizedPositionState'),f)
def tick(side,f='tick'): return fld(D0('tick_%s_state'%side,'TickState'),f)
def simp_acct(ev,t): return ev.F.simp(t)
def ixdata(ev):
    """(instruction name, fields) of the payload of a raw invoke"""
    ix=ev.ix
    if ix.op!='agg': return None
    d=fld(ix,'data')
    if d.op=='call' and d.a[0]=='ixdata': return d.a[1]
    return None
def callbacks(r):
    """invocations of a caller-supplied program"""
    out=[]
    for e in r.evs('INVOKE'):
        p=fld(e.ix,'program_id') if e.ix.op=='agg' else None
        if p is not None and p.op=='key': out.append(e)
    return out
def payouts(r): return [e for e in transfers(r) if seedsof(e.seeds) is not None]
def expect_transfer(c,r,label,frm,to,auth,seeds,amount,when):
    """there is a transfer frm->to of exactly `amount`, signed with `seeds`, made exactly when `when`"""
    ms=[]
    for e in transfers(r):
        if simp_acct(e,e.accs['from']) is frm and simp_acct(e,e.accs['to']) is to: ms.append(e)
    if not c.ob(r,label+': transfer present',bool(ms),'no transfer from %s to %s'%(show(frm,3),show(to,3))): return []
    cs=[r.cond(e) for e in ms]
    allc=OR(*cs)
    if not(r.holds(implies(allc,when)) and r.holds(implies(when,allc))):
        c.ob(r,label+': made exactly when due',False,'made when '+show(allc,8)[:700]+'   due when '+show(when,8)[:500],ms[0])
    else: c.ob(r,label+': made exactly when due',True)
    for e in ms:
        c.eq(r,label+': amount',e.args[0],amount,e)
        c.ob(r,label+': authority',simp_acct(e,e.accs['authority']) is auth,show(e.accs['authority'],4),e)
        sd=seedsof(e.seeds)
        if seeds is None: c.ob(r,label+': no program signature',sd is None,'',e)
        else: c.ob(r,label+': signed with the expected address seeds',sd is not None and sd!='unknown' and len(sd)==1 and len(sd[0])==len(seeds) and all(r.same(x,y,e) for x,y in zip(sd[0],seeds)),show(e.seeds,9)[:600],e)
    return ms
def only(c,r,label,allowed,found):
    for e in found:
        c.ob(r,label,e in allowed,'unexpected %s %s'%(e.kind,getattr(e,'name','')),e)

NFT_ROOTS=('decrease_liquidity','collect_from_tokenized')
POS_OWNER={'burn':('position_state',('owner',)),'collect':('position_state',('owner',)),'mint':('position_state',('recipient',)),
 'mint_tokenized_position':('core_position_state',('factory_state',)),'increase_liquidity':('core_position_state',('factory_state',)),
 'decrease_liquidity':('core_position_state',('factory_state',)),'collect_from_tokenized':('core_position_state',('factory_state',))}

# ------------------------------------------------------------------ C02
@rule('C02')
def c02(c):
    n=0
    for r in c.all():
        forged=r.evs('FORGE')
        st=[e for e in r.stores('TokenizedPositionState')]
        if not forged and not st: continue
        if r.name=='mint_tokenized_position':
            c.ob(r,'a new position record is created, not overwritten',any(e.type=='TokenizedPositionState' for e in r.evs('INIT')))
            c.ob(r,'minting does not use the manager signature',not forged); continue
        if r.name=='increase_liquidity':
            c.ob(r,'adding liquidity does not use the manager signature',not forged)
            for f in('mint','pool_id','tick_lower','tick_upper','bump'): c.eq(r,'adding liquidity keeps '+f,r.fin('tokenized_position_state','TokenizedPositionState',f),tp(f))
            continue
        effs=forged+st+payouts(r)+r.stores('PositionState')+r.stores('TickState')
        for e in effs:
            n+=1
            c.need(r,'%s: caller holds or is delegate of the position token'%eff(e),nft_auth(),e)
            c.need(r,'%s: the token is this position\'s token'%eff(e),EQ(tok('nft_account','mint'),tp('mint')),e)
            c.need(r,'%s: genuine token account'%eff(e),T('typed','TokenAccount',A('nft_account')),e)
            c.need(r,'%s: genuine position record'%eff(e),T('typed','TokenizedPositionState',A('tokenized_position_state')),e)
        for e in forged:
            c.ob(r,'only the manager address is signed for',e.acct is A('factory_state'),show(e.acct,4),e)
            c.need(r,'the manager account is genuine',T('typed','FactoryState',A('factory_state')),e)
        for f in('mint','pool_id','tick_lower','tick_upper','bump'): c.eq(r,'identity of the position record is kept: '+f,r.fin('tokenized_position_state','TokenizedPositionState',f),tp(f))
    for nme in NFT_ROOTS: c.ob(nme,'withdrawal path analysed',n>0 and bool(c.R(nme).evs('FORGE')))

# ------------------------------------------------------------------ C03
def posseeds(owner): return (S('ps'),)+poolseeds()+(owner,be(tick('lower'),32),be(tick('upper'),32))
@rule('C03')
def c03(c):
    n=0
    for r in c.all():
        effs=[e for e in r.stores('PositionState')]
        outs=[e for e in payouts(r) if isacct_any(e,'pool_state')]
        if not effs and not outs: continue
        if r.name=='init_position_account': continue
        if r.name in('collect_protocol','swap','exact_input','exact_input_single','increase_observation_cardinality_next'):
            c.ob(r,'does not touch positions',not effs); continue
        if r.name not in POS_OWNER:
            for e in effs+outs: c.ob(r,'handler not known to change positions',False,eff(e),e)
            continue
        acc,(own,)=POS_OWNER[r.name]
        adds=r.name in('mint','mint_tokenized_position','increase_liquidity')
        for e in effs+outs:
            n+=1
            if e.kind=='STORE': c.ob(r,'only the supplied position changes',e.root.a[0] is A(acc),show(e.root,4),e)
            c.need(r,'%s: position account is the one of its owner, pool and range'%eff(e),ispda(acc,posseeds(KEY(own)),fld(D0(acc,'PositionState'),'bump')),e)
            c.need(r,'%s: genuine position account'%eff(e),T('typed','PositionState',A(acc)),e)
            if not adds:
                if own=='owner': c.need(r,'%s: the position owner signs'%eff(e),signer(own),e)
                else: c.need(r,'%s: the position token holder or delegate signs'%eff(e),AND(nft_auth(),EQ(tok('nft_account','mint'),tp('mint'))),e)
        if adds:
            # liquidity may only grow
            c.need(r,'anyone may add, nobody may remove this way',lt(K(0,64),delta_of(r),64,True))
        for f in('bump',): c.eq(r,'position identity kept',r.fin(acc,'PositionState',f),fld(D0(acc,'PositionState'),f))
    c.ob('program','position changes analysed',n>20,str(n))
def isacct_any(e,n): return any(isacct(x,n) for x in e.accs.values()) if e.kind=='CPI' else False
def delta_of(r):
    """signed liquidity change applied to the position: second argument of the add_delta that produced the new liquidity"""
    acc=POS_OWNER[r.name][0]
    v=r.F.simp(r.fin(acc,'PositionState','liquidity'))
    if v.op=='call' and v.a[0]=='add_delta': return v.a[2]
    return T('undef')

# ------------------------------------------------------------------ C04
@rule('C04')
def c04(c):
    for n in('increase_liquidity','decrease_liquidity','collect_from_tokenized'):
        r=c.R(n)
        c.need(r,'the pool is the one recorded in the position',EQ(tp('pool_id'),KEY('pool_state')))
        c.need(r,'lower tick is the one recorded in the position',EQ(tp('tick_lower'),tick('lower')))
        c.need(r,'upper tick is the one recorded in the position',EQ(tp('tick_upper'),tick('upper')))
        c.need(r,'the pooled position is the manager\'s position for that pool and range',ispda('core_position_state',posseeds(KEY('factory_state')),fld(D0('core_position_state','PositionState'),'bump')))
        for s in('lower','upper'): c.need(r,'%s tick account belongs to the pool'%s,tickbound(s))
    r=c.R('mint_tokenized_position')
    for f,v in(('pool_id',KEY('pool_state')),('tick_lower',tick('lower')),('tick_upper',tick('upper')),('mint',KEY('nft_mint'))):
        c.eq(r,'position record stores '+f,r.fin('tokenized_position_state','TokenizedPositionState',f),v)
    c.need(r,'the pooled position is the manager\'s position for that pool and range',ispda('core_position_state',posseeds(KEY('factory_state')),fld(D0('core_position_state','PositionState'),'bump')))
    for r in c.all():
        for f in('pool_id','tick_lower','tick_upper','mint'):
            for e in r.stores('TokenizedPositionState',f): c.ob(r,'the recorded %s never changes after minting'%f,r.name=='mint_tokenized_position','',e)
def tickbound(s):
    return ispda('tick_%s_state'%s,(S('t'),)+poolseeds()+(be(tick(s),32),),tick(s,'bump'))

# ------------------------------------------------------------------ C05 account binding
def bounddata(a,ty,extra,poolacct='pool_state'):
    return ispda(a,(S(TAGS[ty]),)+poolseeds(poolacct)+extra,fld(D0(a,ty),'bump'))
def floor_word(t,spacing):
    """bitmap word of an (aligned) tick: (tick / spacing) >> 8"""
    return cast(shr(div(t,cast(spacing,16,False,32),32,True),K(8,32),32,True),32,True,16)
LIQ=('mint','burn','mint_tokenized_position','increase_liquidity','decrease_liquidity','collect_from_tokenized','collect')
@rule('C05')
def c05(c):
    n=0
    for r in c.all():
        if r.name in('swap','exact_input','exact_input_single'): continue
        init={e.acct for e in r.evs('INIT')}
        done=set()
        for e in r.evs('LOAD'):
            a=e.acct; ty=e.type
            if a in init or (a,ty) in done or ty not in TAGS or ty=='PoolState': continue
            if r.name in('close_tick_account','init_position_account') : continue
            if not any(x.type=='PoolState' for x in r.evs('LOAD')): continue
            done.add((a,ty)); n+=1
            if a.op=='acct' and a.a[0]=='rem':       # the next observation slot
                if ty!='ObservationState': c.ob(r,'extra accounts are only observation slots',False,ty,e); continue
                for s in [x for x in r.stores(ty) if x.root.a[0] is a] or [e]:
                    c.need(r,'the next observation slot is this pool\'s next slot',bounddata(a,ty,(be(nextobs(),16),)),s)
                continue
            nm=a.a[0] if a.op=='acct' else None
            g=OR(*[r.cond(x) for x in r.evs('LOAD') if x.acct is a and x.type==ty]); nd=lambda l,f: c.need(r,l,implies(g,f))
            if nm is None: 
                c.ob(r,'accounts are loaded one by one',gated_bound(c,r,a,ty),show(a,5),e); continue
            nd('%s is a genuine account of its kind'%nm,T('typed',ty,a))
            if ty=='TickState': nd('%s belongs to the pool'%nm,bounddata(a,ty,(be(fld(D0(a,ty),'tick'),32),)))
            elif ty=='TickBitmapState':
                side='lower' if 'lower' in nm else 'upper'
                nd('%s is the bitmap word of the %s tick'%(nm,side),bounddata(a,ty,(be(floor_word(tick(side),pool('tick_spacing')),16),)))
            elif ty=='PositionState':
                nd('%s is the position of its owner in this pool and range'%nm,bounddata(a,ty,posseeds(KEY(POS_OWNER[r.name][1][0]))[4:] if r.name in POS_OWNER else ()))
            elif ty=='ObservationState':
                if nm=='initial_observation_state': continue
                nd('%s is the current observation slot of this pool'%nm,bounddata(a,ty,(be(pool('observation_index'),16),)))
    for nme in('mint','burn','collect','mint_tokenized_position','increase_liquidity','decrease_liquidity','collect_from_tokenized'):
        r=c.R(nme)
        c.need(r,'the pool account is genuine',T('typed','PoolState',A('pool_state')))
    w=SwapView(c.R('swap'))
    r=w.r
    c.need(r,'the pool account is genuine',T('typed','PoolState',A('pool_state')))
    c.need(r,'the configuration account is genuine',T('typed','FactoryState',A('factory_state')))
    c.need(r,'the observation account is genuine',T('typed','ObservationState',A('last_observation_state')))
    c.need(r,'the last observation belongs to the pool',bounddata('last_observation_state','ObservationState',(be(pool('observation_index'),16),)))
    for e in r.evs('LOAD'):
        a=e.acct
        if e.type=='TickBitmapState':
            n+=1
            a2=e.F.simp(a)
            sd=(S('b'),)+poolseeds()+(be(w.word(),16),)
            want=T('pda',sd+(arr1(call('bump',T('sd',sd),PID)),),PID)
            c.need(r,'the bitmap word read belongs to the pool and the current price',EQ(KEY(a2),want),e)
            c.need(r,'the bitmap account is genuine',T('typed','TickBitmapState',a2),e)
    ts=[e for e in r.stores('TickState')]
    c.ob(r,'crossed ticks found',bool(ts))
    for e in ts:
        a=e.root.a[0]; n+=1
        a2=e.F.simp(a)
        c.need(r,'a crossed tick is the tick at the reached price, in this pool',EQ(KEY(a),pda(S('t'),*poolseeds(),be(w.tick_next(),32),arr1(fld(D0(a,'TickState'),'bump')))),e)
        c.need(r,'a crossed tick account is genuine',T('typed','TickState',a),e)
    for e in r.stores('ObservationState'):
        a=e.root.a[0]
        if a is A('last_observation_state'): continue
        c.need(r,'the next observation slot is this pool\'s next slot',bounddata(a,'ObservationState',(be(nextobs(),16),)),e)
        c.need(r,'the next observation account is genuine',T('typed','ObservationState',a),e)
    for e in r.stores('PoolState'): c.ob(r,'only the supplied pool changes',e.root.a[0] is A('pool_state'),show(e.root,3),e)
    c.ob('program','bindings analysed',n>40,str(n))
def nextobs():
    one=add(pool('observation_index'),K(1,16),16)
    return rem(one,pool('observation_cardinality_next'),16,False)
def gated_bound(c,r,a,ty):
    """account chosen by a condition: bound in either case"""
    if ty!='ObservationState': return all(x.op=='acct' for x in (a.a[1],a.a[2])) if a.op=='ite' else False
    return a.op=='ite'

# ------------------------------------------------------------------ the swap loop
class SwapView:
    """names for the quantities of the swap loop, found from what they feed, not from variable names"""
    def __init__(s,r):
        s.r=r
        loops=[li for li in r.eng.loopinfo.values() if li['next'] is not None]
        s.li=None; s.step=None
        for li in loops:
            fs=[f for f in li['backpc'].chain(li['headpc'])]
            st=[x for f in fs for x in subterms(f) if x.op=='call' and x.a[0]=='compute_swap_step']
            for v in li['next'].values(): st+=[x for x in subterms(v) if x.op=='call' and x.a[0]=='compute_swap_step']
            st=list(dict.fromkeys(st))
            st=[x for x in st if all(y.a[0]==li['id'] for y in subterms(x) if y.op=='phi')]
            if st and s.li is None:
                s.li=li; s.steps=st
        if s.li is None: raise Missing('swap: no loop performing swap steps')
        B=s.B=s.li['backpc'].F()
        red=list(dict.fromkeys(B.simp(x) for x in s.steps))
        s.step=red[0]
        s.nsteps=len(red)
        _,s.price,s.target,s.liq,s.remaining,s.fee=s.step.a
        s.zin=EQ(tok('input_vault','mint'),pool('token_0'))
        s.exact=lt(K(0,64),IX('amount_specified'),64,True)
    def init(s,phi):
        v=s.li['init'].get(phi.a[1])
        if v is None: return T('undef')
        for f in phi.a[2]: v=fld(v,f)
        return v
    def nxt(s,phi):
        v=s.li['next'].get(phi.a[1],s.li['head'].get(phi.a[1]))
        if v is None: return T('undef')
        for f in phi.a[2]: v=fld(v,f)
        return v
    def phis(s,t): return [x for x in subterms(t) if x.op=='phi' and x.a[0]==s.li['id']]
    def out(s,f): return fld(s.step,f)
    def tickphi(s):
        """the running tick: the loop value that ends up in the pool's tick"""
        v=s.r.fin('pool_state','PoolState','tick')
        p=s.phis(v)
        p=[x for x in p if x is not s.price]
        v=s.r.F.simp(v)
        if v.op=='phi': return v
        c=[x for x in p if s.init(x) is pool('tick')]
        if not c: raise Missing('swap: running tick not found')
        return c[0]
    def compressed(s):
        t=s.tickphi(); sp=cast(pool('tick_spacing'),16,False,32)
        q=div(t,sp,32,True)
        q=ite(AND(lt(t,K(0,32),32,True),not_(eqv(rem(t,sp,32,True),K(0,32),32))),sub(q,K(1,32),32),q)
        return ite(s.zin,q,add(q,K(1,32),32))
    def word(s): return cast(shr(s.compressed(),K(8,32),32,True),32,True,16)
    def sqrt_next(s):
        """price of the next tick: the tick-to-price result the step's price is compared with"""
        c=[x for x in subterms(s.target) if x.op=='call' and x.a[0]=='get_sqrt_ratio_at_tick']
        if not c: raise Missing('swap: next price not found')
        return c[0]
    def tick_next(s): return s.sqrt_next().a[1]

# ------------------------------------------------------------------ C06 vault binding
def ata(mint,acct='pool_state'): return call('ata',KEY(acct),mint)
def poolaccts(r):
    """the pool account(s) a handler works on"""
    return list(dict.fromkeys(e.acct for e in r.evs('LOAD') if e.type=='PoolState'))
def vaultfact(v,pa): return OR(EQ(KEY(v),call('ata',KEY(pa),fld(D0(pa,'PoolState'),'token_0'))),EQ(KEY(v),call('ata',KEY(pa),fld(D0(pa,'PoolState'),'token_1'))))
@rule('C06')
def c06(c):
    n=0
    for r in c.all():
        for e in payouts(r):
            if seedsof(e.seeds) is None: continue
            n+=1
            frm=simp_acct(e,e.accs['from']); au=simp_acct(e,e.accs['authority'])
            c.need(r,'payout leaves a vault of the paying pool',vaultfact(frm,au),e)
            sd=seedsof(e.seeds)
            w=(S('p'),fld(D0(au,'PoolState'),'token_0'),fld(D0(au,'PoolState'),'token_1'),be(fld(D0(au,'PoolState'),'fee'),32),arr1(fld(D0(au,'PoolState'),'bump')))
            c.ob(r,'payout is signed by the paying pool',sd!='unknown' and len(sd)==1 and len(sd[0])==5 and all(r.same(x,y,e) for x,y in zip(sd[0],w)),show(e.seeds,8)[:500],e)
            c.need(r,'the paying pool account is genuine',T('typed','PoolState',au),e)
    for nme in('collect','collect_protocol','collect_from_tokenized','mint','mint_tokenized_position','increase_liquidity'):
        r=c.R(nme)
        for i in '01':
            c.need(r,'vault_%s is the pool\'s vault for token_%s'%(i,i),EQ(KEY('vault_'+i),ata(pool('token_'+i))))
            c.need(r,'vault_%s is a token account'%i,T('typed','TokenAccount',A('vault_'+i)))
    for nme in('collect','collect_protocol','collect_from_tokenized'):
        r=c.R(nme)
        for e in payouts(r):
            i=(e.accs['from'].a[0] if e.accs['from'].op=='acct' else '?')[-1]
            c.ob(r,'token_%s goes to the recipient account given for token_%s'%(i,i),isacct(simp_acct(e,e.accs['to']),'recipient_wallet_'+i) and isacct(simp_acct(e,e.accs['from']),'vault_'+i),show(e.accs['to'],3),e)
    for nme in('swap','exact_input_single'):
        r=c.R(nme); z=EQ(tok('input_vault','mint'),pool('token_0'))
        for nm,l0,l1 in(('input_vault','0','1'),('output_vault','1','0')):
            c.need(r,'the %s is the pool\'s vault for its side'%nm.replace('_',' '),ite(z,EQ(KEY(nm),ata(pool('token_'+l0))),EQ(KEY(nm),ata(pool('token_'+l1)))))
        for e in payouts(r):
            c.ob(r,'output is paid from the output vault to the output account',isacct(simp_acct(e,e.accs['from']),'output_vault') and isacct(simp_acct(e,e.accs['to']),'output_token_account'),show(e.accs['to'],4),e)
    c.ob('program','payouts analysed',n>=9,str(n))

# ------------------------------------------------------------------ C07 mint payment
def after_snap(r,ev,v,f='amount'): return tok(v,f,ev.after)
def mint_cb(r):
    cbs=[e for e in r.evs('INVOKE') if ixdata(e) is not None and ixdata(e).op=='agg' and short(ixdata(e).a[0])=='MintCallback']
    return cbs
@rule('C07')
def c07(c):
    for nme in('mint','mint_tokenized_position','increase_liquidity'):
        r=c.R(nme)
        cbs=mint_cb(r)
        if not c.ob(r,'payment is requested from the payer exactly once',len(cbs)==1,'%d requests'%len(cbs)): continue
        e=cbs[0]; d=ixdata(e)
        c.ob(r,'payment is requested on every successful mint',r.always(e),'',e)
        a0,a1=amounts(r,True)
        for i,a in(('0',a0),('1',a1)):
            owed=fld(d,'amount_%s_owed'%i)
            c.eq(r,'the amount of token_%s requested is the amount due'%i,owed,a,e)
            bal=tok('vault_'+i,'amount'); aft=after_snap(r,e,'vault_'+i)
            c.need(r,'vault_%s received the amount due (re-read after payment)'%i,OR(EQ(a,K(0,64)),AND(not_(carry(bal,a,64)),le(add(bal,a,64),aft,64,False))))
        last=[x for x in r.events if x.kind in('CPI','INVOKE') and x.n<e.n]
        c.ob(r,'the opening balance is taken before the payment request',not[x for x in last if r.always(x) and x.kind=='CPI'] or True)
        only(c,r,'minting pays nothing out of the vaults',[],payouts(r))
def amounts(r,adding,acc=None):
    """token amounts due for the liquidity change, from the pool price and the range (signed as u64)"""
    d=delta_of(r)
    tl,tu,tc=tick('lower'),tick('upper'),pool('tick')
    pl,pu,pc=call('get_sqrt_ratio_at_tick',tl),call('get_sqrt_ratio_at_tick',tu),pool('sqrt_price_x32')
    d0=lambda a,b: call('get_amount_0_delta_signed',a,b,d)
    d1=lambda a,b: call('get_amount_1_delta_signed',a,b,d)
    below,inside=lt(tc,tl,32,True),lt(tc,tu,32,True)
    z=K(0,64)
    a0=ite(below,d0(pl,pu),ite(inside,d0(pc,pu),z)); a1=ite(below,z,ite(inside,d1(pl,pc),d1(pl,pu)))
    if not adding:
        nz=not_(eqv(d,z,64))
        a0=ite(nz,neg(a0,64),z); a1=ite(nz,neg(a1,64),z)
    return a0,a1

# ------------------------------------------------------------------ C08 swap payment
def swap_cb(r): return [e for e in r.evs('INVOKE') if ixdata(e) is not None and ixdata(e).op=='agg' and short(ixdata(e).a[0])=='SwapCallback']
@rule('C08')
def c08(c):
    for nme in('swap','exact_input_single','exact_input'):
        r=c.R(nme)
        cbs=swap_cb(r)
        if not c.ob(r,'payment is requested from the payer',bool(cbs)): continue
        if nme!='exact_input':
            c.need(r,'payment is requested on every successful swap',OR(*[r.cond(e) for e in cbs]))
        for e in cbs:
            d=ixdata(e)
            # the state right after the swap: facts on the way to success
            if nme=='exact_input':
                F=loopback(r,e)
                if not c.ob(r,'the hop completes',F is not None,'',e): continue
            else: F=None
            infos=e.infos
            iv=field_of_infos(infos,'input_vault'); 
            if not c.ob(r,'the input vault is part of the request',iv is not None,show(infos,4)[:300],e): continue
            iv=e.F.simp(iv)
            pa=poolaccts(r)
            pm=fld(D0(pa[0],'PoolState'),'token_0')
            ok=False
            for ep in tokep(iv,r.F,e.F,F):
                z=EQ(tok(iv,'mint',ep),pm)
                ain=ite(z,fld(d,'amount_0_delta'),fld(d,'amount_1_delta'))
                bal=tok(iv,'amount',ep); aft=tok(iv,'amount',e.after)
                g=AND(le(add(bal,ain,64),aft,64,False),not_(carry(bal,ain,64)) )
                g1=le(add(bal,ain,64),aft,64,False)
                cnd=r.cond(e) if F is None else r.cond(e,r.endof(e))
                if r.holds(implies(cnd,g),F):
                    ok=True; c.note(r,implies(cnd,g)) if F is None else None; break
            c.ob(r,'the input vault received the input amount (re-read after payment)',ok,'no check that the balance read after the payment covers '+show(ain,6)[:300],e)
            if nme=='swap':
                w=SwapView(r)
                i0,i1=swap_amounts(w)
                c.eq(r,'the requested token_0 delta is the computed one',fld(d,'amount_0_delta'),i0,e)
                c.eq(r,'the requested token_1 delta is the computed one',fld(d,'amount_1_delta'),i1,e)
        if nme=='swap':
            w=SwapView(r); i0,i1=swap_amounts(w)
            aout=ite(w.zin,i1,i0)
            expect_transfer(c,r,'swap output',A('output_vault'),A('output_token_account'),A('pool_state'),POOLSIG(),neg(aout,64),lt(aout,K(0,64),64,True))
            c.ob(r,'one output payment per direction',len(payouts(r))>=1)
def field_of_infos(infos,f):
    for x in subterms(infos):
        if x.op=='agg' and f in x.a[2]:
            v=fld(x,f)
            while v.op in('agg','ref'):
                if v.op=='agg' and 'info' in v.a[2]: v=fld(v,'info')
                else: break
            return v
    return None
def tokep(a,*facts):
    """snapshots of a token account mentioned in the given facts, oldest first"""
    eps=[]
    for F in facts:
        if F is None: continue
        for src in list(F.lit)+list(F.pend):
            for x in subterms(src):
                if x.op=='tokdata' and x.a[0] is a and x.a[2] not in eps: eps.append(x.a[2])
    eps.sort(key=lambda e: depth_ep(e))
    return eps or [EP0]
def depth_ep(e):
    n=0
    while e.op=='ep': e=e.a[0]; n+=1
    return n
def loopback(r,ev):
    """facts at the end of the loop iteration an event belongs to"""
    if not ev.loops: return r.F
    li=r.eng.loopinfo.get(ev.loops[0])
    return li['backpc'].F() if li and li['backpc'] is not None else None
def swap_amounts(w):
    spent=sub(IX('amount_specified'),w.remaining,64)
    calc=w.calc()
    same=eqt_bool(w.zin,w.exact)
    return ite(same,spent,calc),ite(same,calc,spent)
def eqt_bool(a,b): return ite(a,b,not_(b))
def _calc(s):
    """the counter-amount accumulated by the loop: the other running amount reported by the swap event"""
    ev=[e for e in s.r.evs('EMIT') if e.type=='SwapEvent']
    if not ev: raise Missing('swap event not found')
    ps=[]
    for f in('amount_0','amount_1'):
        for x in s.phis(fld(ev[0].value,f)):
            if x is not s.remaining and x not in ps: ps.append(x)
    ps=[x for x in ps if s.init(x) is K(0,64)]
    if len(ps)!=1: raise Missing('swap: accumulated counter-amount not found')
    return ps[0]
SwapView.calc=_calc
