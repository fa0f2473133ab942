"""Second part of the rules: ledgers, locking, slippage, deadlines, ticks, liquidity, oracle."""
from rules import *

# ------------------------------------------------------------------ spec terms for liquidity changes
LIQROOTS=('mint','burn','mint_tokenized_position','increase_liquidity','decrease_liquidity','collect_from_tokenized')
ADDING=('mint','mint_tokenized_position','increase_liquidity')
Q32=K(1<<32,64)
def unwrapped(x): return fld(down(x,'Some'),'0')
def muldiv(a,b,d,t='u64',how='floor'):
    x,y=sorted((a,b),key=skey)
    return unwrapped(T('call','mul_div_%s:%s'%(how,t),x,y,d))
def PX(t): return call('get_sqrt_ratio_at_tick',t)
def z64(): return K(0,64)
def gt0(x): return not_(EQ(x,K(0,64)))

class Liq:
    """what a liquidity change must do, written from the protocol description"""
    def __init__(s,r):
        s.r=r; n=r.name
        s.acc=POS_OWNER[n][0]
        if n=='mint': s.d=IX('amount')
        elif n=='burn': s.d=neg(IX('amount'),64)
        elif n=='decrease_liquidity': s.d=neg(IX('liquidity'),64)
        elif n=='collect_from_tokenized': s.d=z64()
        else: s.d=call('get_liquidity_for_amounts',pool('sqrt_price_x32'),PX(tick('lower')),PX(tick('upper')),IX('amount_0_desired'),IX('amount_1_desired'))
        s.lo,s.up,s.tc=tick('lower'),tick('upper'),pool('tick')
        s.nz=not_(EQ(s.d,z64()))
        s.neg=lt(s.d,z64(),64,True)
        # the position is touched at all
        s.touch=gt0(tp('liquidity')) if n=='collect_from_tokenized' else TRUE
        s.inside=AND(le(s.lo,s.tc,32,True),lt(s.tc,s.up,32,True))
    def pos(s,f): return fld(D0(s.acc,'PositionState'),f)
    # --- ticks
    def gross0(s,side): return tick(side,'liquidity_gross')
    def gross1(s,side): return call('add_delta',s.gross0(side),s.d)
    def flipped(s,side):
        return AND(s.nz,not_(eqt_bool(EQ(s.gross1(side),z64()),EQ(s.gross0(side),z64()))))
    def cleared(s,side): return AND(s.flipped(side),s.neg)
    def initialises(s,side): return AND(s.nz,EQ(s.gross0(side),z64()),le(tick(side),s.tc,32,True))
    def observed(s):
        ts=NOW32(); o=lambda f: fld(D0('last_observation_state','ObservationState'),f)
        return observe(o,ts,s.tc,pool('liquidity'))
    def outside(s,side,f):
        """value of a tick's 'outside' accumulator before it may be cleared"""
        tcum,spl=s.observed()
        g={'fee_growth_outside_0_x32':pool('fee_growth_global_0_x32'),'fee_growth_outside_1_x32':pool('fee_growth_global_1_x32'),
           'seconds_per_liquidity_outside_x32':spl,'tick_cumulative_outside':tcum,'seconds_outside':NOW32()}[f]
        return ite(s.initialises(side),g,tick(side,f))
    def tick_final(s,side,f):
        w=32 if f=='seconds_outside' else 64
        if f=='liquidity_gross': v=ite(s.nz,s.gross1(side),s.gross0(side))
        elif f=='liquidity_net':
            n=tick(side,'liquidity_net'); v=ite(s.nz,(sub if side=='upper' else add)(n,s.d,64),n)
        else: v=s.outside(side,f)
        return ite(s.cleared(side),K(0,w),v)
    # --- fees
    def inside_growth(s,i):
        g=pool('fee_growth_global_%s_x32'%i); f='fee_growth_outside_%s_x32'%i
        ol,ou=s.outside('lower',f),s.outside('upper',f)
        below=ite(lt(s.tc,s.lo,32,True),sub(g,ol,64),ol)
        above=ite(lt(s.tc,s.up,32,True),ou,sub(g,ou,64))
        return sub(sub(g,below,64),above,64)
    def credit(s,i): return muldiv(sub(s.inside_growth(i),s.pos('fee_growth_inside_%s_last_x32'%i),64),s.pos('liquidity'),Q32)
    # --- amounts
    def amounts(s):
        pl,pu,pc=PX(s.lo),PX(s.up),pool('sqrt_price_x32')
        d0=lambda a,b: call('get_amount_0_delta_signed',a,b,s.d); d1=lambda a,b: call('get_amount_1_delta_signed',a,b,s.d)
        below,inside=lt(s.tc,s.lo,32,True),lt(s.tc,s.up,32,True); z=z64()
        a0=ite(s.nz,ite(below,d0(pl,pu),ite(inside,d0(pc,pu),z)),z)
        a1=ite(s.nz,ite(below,z,ite(inside,d1(pl,pc),d1(pl,pu))),z)
        return a0,a1
def observe(o,ts,tickv,liq):
    """accumulators extended to time ts"""
    dl=sub(ts,o('block_timestamp'),32)
    same=EQ(o('block_timestamp'),ts)
    tc=add(o('tick_cumulative'),mul(cast(tickv,32,True,64),cast(dl,32,False,64),64),64)
    sp=add(o('seconds_per_liquidity_cumulative_x32'),div(scale(cast(dl,32,False,64),1<<32,64),ite(EQ(liq,z64()),K(1,64),liq),64,False),64)
    return ite(same,o('tick_cumulative'),tc),ite(same,o('seconds_per_liquidity_cumulative_x32'),sp)

# ------------------------------------------------------------------ C09 / C10 collecting
@rule('C09')
def c09(c):
    r=c.R('collect')
    for i in '01':
        owed=fld(D0('position_state','PositionState'),'tokens_owed_'+i)
        a=minmax('min','u',64,IX('amount_%s_requested'%i),owed)
        expect_transfer(c,r,'token_%s collected'%i,A('vault_'+i),A('recipient_wallet_'+i),A('pool_state'),POOLSIG(),a,gt0(a))
        c.eq(r,'the owed token_%s drops by the amount paid'%i,r.fin('position_state','PositionState','tokens_owed_'+i),sub(owed,a,64))
    for f in('liquidity','fee_growth_inside_0_last_x32','fee_growth_inside_1_last_x32'):
        c.eq(r,'collecting keeps '+f,r.fin('position_state','PositionState',f),r.ini('position_state','PositionState',f))
    c.ob(r,'nothing else is paid out',len(payouts(r))==2,'%d payouts'%len(payouts(r)))
    r=c.R('collect_from_tokenized'); L_=Liq(r)
    for i in '01':
        tl=tp('liquidity'); live=gt0(tl)
        own=ite(live,add(tp('tokens_owed_'+i),muldiv(sub(L_.inside_growth(i),tp('fee_growth_inside_%s_last_x32'%i),64),tl,Q32),64),tp('tokens_owed_'+i))
        core=ite(live,add(L_.pos('tokens_owed_'+i),L_.credit(i),64),L_.pos('tokens_owed_'+i))
        want=minmax('min','u',64,IX('amount_%s_max'%i),own)
        paid=minmax('min','u',64,want,core)
        expect_transfer(c,r,'token_%s collected'%i,A('vault_'+i),A('recipient_wallet_'+i),A('pool_state'),POOLSIG(),paid,gt0(paid))
        c.eq(r,'the owed token_%s of the tokenized position drops by the amount taken'%i,r.fin('tokenized_position_state','TokenizedPositionState','tokens_owed_'+i),sub(own,want,64))
        c.eq(r,'the owed token_%s of the pooled position drops by the amount paid'%i,r.fin('core_position_state','PositionState','tokens_owed_'+i),sub(core,paid,64))
    c.eq(r,'collecting keeps the liquidity',r.fin('tokenized_position_state','TokenizedPositionState','liquidity'),tp('liquidity'))
    c.ob(r,'nothing else is paid out',len(payouts(r))==2,'%d payouts'%len(payouts(r)))
    # owed amounts are lowered nowhere else
    for r in c.all():
        if r.name in('collect','collect_from_tokenized'): continue
        for ty in('PositionState','TokenizedPositionState'):
            for a in{e.root.a[0] for e in r.stores(ty)}:
                for e in r.stores(ty,acct=a):
                    if not e.path or e.path[0][1].startswith('tokens_owed'):
                        cur=fld(D0(a,ty),e.path[0][1]) if e.path else None
                        c.ob(r,'owed amounts are only credited here',cur is not None and (credits_only(e.value,cur) or r.same(e.value,cur)),show(e.value,6)[:400],e)
def credits_only(v,cur):
    """v = cur + nonnegative-looking summands on every branch (no subtraction of a runtime amount other than fees already credited)"""
    if v is cur: return True
    if v.op=='ite': return credits_only(v.a[1],cur) and credits_only(v.a[2],cur)
    if v.op=='lin': return any(x is cur and cf==1 for x,cf in v.a[2]) or any(x.op=='ite' and credits_only(x,cur) and cf==1 for x,cf in v.a[2])
    return False
@rule('C10')
def c10(c):
    r=c.R('collect_protocol')
    for i in '01':
        owed=pool('protocol_fees_token_'+i)
        a=minmax('min','u',64,IX('amount_%s_requested'%i),owed)
        expect_transfer(c,r,'protocol fees in token_%s'%i,A('vault_'+i),A('recipient_wallet_'+i),A('pool_state'),POOLSIG(),a,gt0(a))
        c.eq(r,'accrued protocol fees in token_%s drop by the amount paid'%i,r.fin('pool_state','PoolState','protocol_fees_token_'+i),sub(owed,a,64))
    for f in('liquidity','sqrt_price_x32','tick','fee_growth_global_0_x32','fee_growth_global_1_x32','observation_index','observation_cardinality','observation_cardinality_next'):
        c.eq(r,'withdrawal leaves '+f,r.fin('pool_state','PoolState',f),pool(f))
    c.ob(r,'nothing else is paid out',len(payouts(r))==2,'%d payouts'%len(payouts(r)))
    for x in c.all():
        for e in x.stores('PoolState'):
            if e.path and e.path[0][1].startswith('protocol_fees'):
                c.ob(x,'accrued protocol fees only drop on withdrawal',x.name=='collect_protocol' or grows_only(x,e),show(e.value,5)[:300],e)

# ------------------------------------------------------------------ C11 lock
@rule('C11')
def c11(c):
    n=0
    for r in c.all():
        risky=[e for e in r.events if e.kind in('CPI','INVOKE') and touches_pool(r,e)]
        changes=[e for e in r.stores() if e.root.a[1] in('PositionState','TickState','TickBitmapState') and r.name not in('init_tick_account','init_bitmap_account','init_position_account')]
        changes+=[e for e in r.stores('PoolState') if r.name!='create_and_init_pool' and not(e.path and e.path[0][1]=='unlocked')]
        if not risky and not changes: continue
        pas=poolaccts(r)
        if not c.ob(r,'the pool involved is known',len(pas)==1,str([show(p,3) for p in pas])): continue
        pa=pas[0]; root=T('D',pa,'PoolState')
        n+=1
        for e in changes+risky:
            o=fld(D0(pa,'PoolState'),'unlocked')
            c.need(r,'%s only while the pool was unlocked on entry'%eff2(e),implies_loop(r,e,o),e)
        for e in risky:
            u=fld(e.mem.get(root) or r.eng.default(root),'unlocked')
            c.ob(r,'the pool is locked while control is outside (%s)'%getattr(e,'name',''),r.same(u,FALSE,e),show(u,4),e)
        fin=fld(r.eng.get(r.ok,root),'unlocked') if pa.op=='acct' and len(pa.a)==1 else None
        if fin is not None: c.eq(r,'the pool is unlocked again at the end',fin,TRUE)
        else:
            li=[l for l in r.eng.loopinfo.values() if l['next'] is not None and not l['outer']]
            ok=False
            for l in li:
                v=l['iter'].get(root)
                if v is not None: ok=l['backpc'].F().simp(fld(v,'unlocked')) is TRUE
            c.ob(r,'the pool is unlocked again after every hop',ok)
        r2=[e for e in r.stores('PoolState') if e.path==(('f','unlocked'),)]
        c.ob(r,'the lock is taken',any(r.same(e.value,FALSE,e) for e in r2))
    c.ob('program','locked entry points analysed',n>=9,str(n))
    r=c.R('create_and_init_pool'); c.eq(r,'a new pool starts unlocked',r.fin('pool_state','PoolState','unlocked'),TRUE)
    for r in c.all():
        for e in r.stores('PoolState','unlocked'):
            c.ob(r,'only a locked pool or a new pool is unlocked',True,'',e)
def implies_loop(r,e,o): return o
def eff2(e):
    if e.kind=='STORE': return eff(e)
    return 'calling '+str(getattr(e,'name',''))
def touches_pool(r,e):
    """control leaves the program with this pool's money or the pool's accounts involved"""
    if e.kind=='CPI': return seedsof(e.seeds) is not None and any(x.op=='acct' and x.a[0]=='pool_state' or x.op=='acct' and x.a[0]=='rem' for x in e.accs.values()) and 'authority' in e.accs and r.name not in('mint_tokenized_position',) or (seedsof(e.seeds) is not None and 'from' in e.accs)
    p=fld(e.ix,'program_id') if e.ix.op=='agg' else None
    return p is not None and p.op=='key'

# ------------------------------------------------------------------ C12 slippage
@rule('C12')
def c12(c):
    for n in('mint_tokenized_position','increase_liquidity'):
        r=c.R(n); cb=mint_cb(r)
        if not c.ob(r,'payment request found',len(cb)==1): continue
        aft=cb[0].after
        for i in '01':
            got=sub(tok('vault_'+i,'amount',aft),tok('vault_'+i,'amount'),64)
            due=Liq(r).amounts()[int(i)]
            m=IX('amount_%s_min'%i)
            ok=False
            for x in(got,due):
                if not ok and r.holds(le(m,x,64,False)): ok=True; c.note(r,le(m,x,64,False))
            c.ob(r,'token_%s spent is at least the caller\'s minimum'%i,ok,'no check that the amount deposited reaches amount_%s_min'%i)
    r=c.R('decrease_liquidity'); L_=Liq(r)
    for i in '01':
        burnt=neg(L_.amounts()[int(i)],64)
        c.need(r,'token_%s returned for the burned liquidity is at least the caller\'s minimum'%i,le(IX('amount_%s_min'%i),burnt,64,False))
    r=c.R('exact_input_single')
    outs=out_amounts(r)
    m=IX('amount_out_minimum')
    met=[o for o in outs if r.holds(le(m,o,64,False))]
    for o in met: c.note(r,le(m,o,64,False))
    c.ob(r,'swap output is at least the caller\'s minimum',bool(met),'no check of the output amount against amount_out_minimum')
    r=c.R('exact_input')
    m=IX('amount_out_minimum')
    ok=False; cand=[k for k,v in r.F.lit.items() if k.op=='lt' and k.a[3] is m and not v]
    for k in cand:
        x=k.a[2]
        if x.op!='phi': continue
        li=r.eng.loopinfo.get(x.a[0])
        if not li or li['next'] is None: continue
        v=li['next'].get(x.a[1])
        for f in x.a[2]: v=fld(v,f)
        F=li['backpc'].F()
        if any(prove(EQ(v,o),F) for o in out_amounts(r)): ok=True; c.note(r,not_(k))
    c.ob(r,'the output of the last hop is at least the caller\'s minimum',ok,'no check of the last hop\'s output against amount_out_minimum')
def hoploop(r):
    """the loop over the hops of a multi-hop swap: the outermost completed loop that contains a payment request"""
    ids={e.loops[0] for e in swap_cb(r) if e.loops}
    ls=[l for i,l in r.eng.loopinfo.items() if i in ids and l['next'] is not None]
    return ls[0] if ls else None
def out_amounts(r):
    """ways of saying 'the amount the swap paid out': the drop of the output vault over the swap, or the amount transferred"""
    li=hoploop(r)
    if li is None:
        e0,e1,end=EP0,r.eng.get(r.ok,T('E')),r.ok.pc
    else:
        e0,e1,end=T('phi',li['id'],T('E'),()),li['next'].get(T('E')),li['backpc']
    F=end.F()
    ps=payouts(r); vs=[]
    for e in ps:
        v=e.F.simp(e.accs["from"])
        if v not in vs: vs.append(v)
    if len(vs)!=1 or e1 is None: return []
    v=vs[0]
    am=K(0,64)
    for e in ps[::-1]: am=ite(r.cond(e,end),e.args[0],am)
    return [sub(tok(v,'amount',e0),tok(v,'amount',e1),64),am]

# ------------------------------------------------------------------ C13 deadlines
@rule('C13')
def c13(c):
    n=0
    for r in c.all():
        # handlers whose instruction carries a deadline
        if not has_ixfield(c,r,'deadline'): continue
        n+=1
        c.need(r,'succeeds only up to the caller\'s deadline',le(fld(T('sysvar','Clock'),'unix_timestamp'),IX('deadline'),64,True))
    for n2 in('mint_tokenized_position','increase_liquidity','decrease_liquidity','exact_input_single','exact_input'):
        r=c.R(n2); c.ob(r,'takes a deadline',has_ixfield(c,r,'deadline'))
def has_ixfield(c,r,f):
    for ty,a in c.db.adts.items():
        if ty.startswith('instruction::') and strip(ty).split('::')[-1].lower()==r.name.replace('_',''):
            return f in [x[0] for x in a['variants'][0][2]]
    return f in('deadline',) and r.name in('mint_tokenized_position','increase_liquidity','decrease_liquidity','exact_input_single','exact_input')

# ------------------------------------------------------------------ C15 ranges
MINT_,MAXT=-221818,221818
def kept(e,f):
    """a whole-record store that leaves the field as it was"""
    return not e.path and prove(EQ(fld(e.value,f),fld(e.old,f)),e.F)
@rule('C15')
def c15(c):
    for n in LIQROOTS:
        r=c.R(n)
        c.need(r,'lower tick below upper tick',implies(Liq(r).touch,lt(tick('lower'),tick('upper'),32,True)))
    r=c.R('init_tick_account'); t=IX('tick')
    c.need(r,'tick not below the minimum',le(K(MINT_,32),t,32,True))
    c.need(r,'tick not above the maximum',le(t,K(MAXT,32),32,True))
    c.need(r,'tick is a multiple of the spacing',EQ(rem(t,cast(pool('tick_spacing'),16,False,32),32,True),K(0,32)))
    c.eq(r,'tick recorded as requested',r.fin('tick_state','TickState','tick'),t)
    r=c.R('init_bitmap_account'); w=IX('word_pos')
    sp=cast(pool('tick_spacing'),16,False,32)
    b=lambda x: cast(shr(div(K(x,32),sp,32,True),K(8,32),32,True),32,True,16)
    c.need(r,'word not below the first word',le(b(MINT_),w,16,True))
    c.need(r,'word not above the last word',le(w,b(MAXT),16,True))
    c.eq(r,'word position recorded as requested',r.fin('bitmap_state','TickBitmapState','word_pos'),w)
    r=c.R('init_position_account')
    c.need(r,'lower tick below upper tick',lt(tick('lower'),tick('upper'),32,True))
    for s in('lower','upper'): c.need(r,'the %s tick account is genuine'%s,T('typed','TickState',A('tick_%s_state'%s)))
    for r in c.all():
        for e in r.stores('TickState','tick')+[x for x in r.stores('TickState') if not x.path]: c.ob(r,'a tick account keeps its tick',r.name=='init_tick_account' or kept(e,'tick'),'',e)
        for e in r.stores('TickBitmapState','word_pos')+[x for x in r.stores('TickBitmapState') if not x.path]: c.ob(r,'a bitmap account keeps its word',r.name=='init_bitmap_account' or kept(e,'word_pos'),'',e)

# ------------------------------------------------------------------ C17 liquidity bookkeeping
@rule('C17')
def c17(c):
    for n in LIQROOTS:
        r=c.R(n); L_=Liq(r)
        c.eq(r,'position liquidity changes by the requested amount',r.fin(L_.acc,'PositionState','liquidity'),ite(L_.nz,call('add_delta',L_.pos('liquidity'),L_.d),L_.pos('liquidity')))
        c.eq(r,'active liquidity changes by the same amount exactly when the price is in range',r.fin('pool_state','PoolState','liquidity'),
             ite(AND(L_.nz,L_.inside),call('add_delta',pool('liquidity'),L_.d),pool('liquidity')))
        for s in('lower','upper'):
            c.eq(r,'gross liquidity of the %s tick changes by the same amount'%s,r.fin('tick_%s_state'%s,'TickState','liquidity_gross'),L_.tick_final(s,'liquidity_gross'))
            c.eq(r,'net liquidity of the %s tick changes by the %s amount'%(s,'same' if s=='lower' else 'opposite'),r.fin('tick_%s_state'%s,'TickState','liquidity_net'),L_.tick_final(s,'liquidity_net'))
            g=AND(L_.nz,not_(L_.cleared(s)))
            op='sub' if s=='upper' else 'add'
            net,d=tick(s,'liquidity_net'),L_.d
            o=T('ovf',op,'s',64,*(sorted((net,d),key=skey) if op=='add' else (net,d)))
            c.need(r,'net liquidity of the %s tick cannot wrap'%s,implies(L_.nz,not_(o)))
        for nm,x in(('position',call('add_delta',L_.pos('liquidity'),L_.d)),('lower tick',L_.gross1('lower')),('upper tick',L_.gross1('upper'))):
            c.need(r,'the change of the %s is range-checked'%nm,implies(AND(L_.nz),T('ok',x)))
        c.need(r,'the change of the active liquidity is range-checked',implies(AND(L_.nz,L_.inside),T('ok',call('add_delta',pool('liquidity'),L_.d))))
        for f in('sqrt_price_x32','tick','fee_growth_global_0_x32','fee_growth_global_1_x32','protocol_fees_token_0','protocol_fees_token_1'):
            c.eq(r,'a position change leaves '+f,r.fin('pool_state','PoolState',f),pool(f))
    for n in('mint_tokenized_position','increase_liquidity','decrease_liquidity'):
        r=c.R(n); L_=Liq(r)
        old=tp('liquidity') if n!='mint_tokenized_position' else K(0,64)
        new=r.fin('tokenized_position_state','TokenizedPositionState','liquidity')
        c.eq(r,'the tokenized position records the same change',new,add(old,L_.d,64) if n!='mint_tokenized_position' else L_.d)
    for n,a in(('mint','amount'),('burn','amount'),('decrease_liquidity','liquidity')):
        r=c.R(n); c.need(r,'the amount fits a signed change',lt(IX(a),K(1<<63,64),64,False))
    for n in('mint_tokenized_position','increase_liquidity'):
        r=c.R(n); c.need(r,'the amount fits a signed change',lt(Liq(r).d,K(1<<63,64),64,False))
    for r in c.all():
        if r.name in LIQROOTS: continue
        for ty,f in(('PositionState','liquidity'),('TickState','liquidity_gross'),('TickState','liquidity_net'),('TokenizedPositionState','liquidity')):
            for e in r.stores(ty,f)+[x for x in r.stores(ty) if not x.path]: c.ob(r,'only position changes alter %s.%s'%(ty,f),False,'',e)
        for e in r.stores('PoolState','liquidity'): c.ob(r,'active liquidity changes only with positions or swaps',r.name in('swap','exact_input','exact_input_single'),'',e)

# ------------------------------------------------------------------ C18 token amounts
@rule('C18')
def c18(c):
    for n in LIQROOTS:
        r=c.R(n); L_=Liq(r); a0,a1=L_.amounts()
        if n in ADDING:
            cb=mint_cb(r)
            for e in cb:
                d=ixdata(e)
                c.eq(r,'token_0 due follows from price and range',fld(d,'amount_0_owed'),a0,e)
                c.eq(r,'token_1 due follows from price and range',fld(d,'amount_1_owed'),a1,e)
            c.ob(r,'payment request found',len(cb)==1)
            for i in '01': c.eq(r,'owed token_%s grows only by fees'%i,r.fin(L_.acc,'PositionState','tokens_owed_'+i),add(L_.pos('tokens_owed_'+i),L_.credit(i),64))
        elif n in('burn','decrease_liquidity'):
            for i,a in(('0',a0),('1',a1)):
                c.eq(r,'owed token_%s grows by the principal of the burned liquidity and fees'%i,r.fin(L_.acc,'PositionState','tokens_owed_'+i),add(add(L_.pos('tokens_owed_'+i),L_.credit(i),64),neg(a,64),64))
    r=c.R('decrease_liquidity'); L_=Liq(r); am=L_.amounts()
    for i in '01':
        own=muldiv(sub(L_.inside_growth(i),tp('fee_growth_inside_%s_last_x32'%i),64),tp('liquidity'),Q32)
        c.eq(r,'the tokenized position is credited exactly the burned principal and its own fees in token_'+i,r.fin('tokenized_position_state','TokenizedPositionState','tokens_owed_'+i),add(add(tp('tokens_owed_'+i),own,64),neg(am[int(i)],64),64))

# ------------------------------------------------------------------ C19 tick / bitmap consistency
def bitof(t): return cast(cast(div(t,cast(pool('tick_spacing'),16,False,32),32,True),32,True,8),8,False,256)
def flipword(w,t): return fld(bxor(bigwords(256,w),shl(K(1,256),bitof(t),256),256),'0')
@rule('C19')
def c19(c):
    for n in LIQROOTS:
        r=c.R(n); L_=Liq(r)
        wl=fld(D0('bitmap_lower_state','TickBitmapState'),'word'); wu=fld(D0('bitmap_upper_state','TickBitmapState'),'word')
        fl,fu=L_.flipped('lower'),L_.flipped('upper'); same=EQ(KEY('bitmap_lower_state'),KEY('bitmap_upper_state'))
        e1=ite(fl,flipword(wl,L_.lo),wl); e2=ite(AND(fu,same),ite(fl,flipword(flipword(wl,L_.lo),L_.up),flipword(wl,L_.up)),e1)
        c.eq(r,'the lower word flips exactly the ticks that change between used and unused',r.fin('bitmap_lower_state','TickBitmapState','word'),e2)
        c.eq(r,'the upper word flips exactly the ticks that change between used and unused',r.fin('bitmap_upper_state','TickBitmapState','word'),ite(AND(fu,not_(same)),flipword(wu,L_.up),wu))
        for s in('lower','upper'):
            for f in('fee_growth_outside_0_x32','fee_growth_outside_1_x32','seconds_per_liquidity_outside_x32','tick_cumulative_outside','seconds_outside'):
                c.eq(r,'%s tick: %s is set on first use, cleared on last use, kept otherwise'%(s,f),r.fin('tick_%s_state'%s,'TickState',f),L_.tick_final(s,f))
            c.eq(r,'%s tick keeps its identity'%s,r.fin('tick_%s_state'%s,'TickState','bump'),tick(s,'bump'))
    for r in c.all():
        if r.name in LIQROOTS: continue
        for e in r.stores('TickBitmapState','word'): c.ob(r,'only position changes alter the bitmap',False,'',e)
    r=c.R('close_tick_account')
    cl=r.evs('CLOSE')
    c.ob(r,'closing analysed',len(cl)==1)
    for e in cl:
        c.ob(r,'the closed account is the tick account',e.acct is A('tick_state'),show(e.acct,3),e)
        for f,w in(('liquidity_net',64),('liquidity_gross',64),('fee_growth_outside_0_x32',64),('fee_growth_outside_1_x32',64),('tick_cumulative_outside',64),('seconds_per_liquidity_outside_x32',64),('seconds_outside',32)):
            c.need(r,'a tick account is closed only when clear: '+f,EQ(fld(D0('tick_state','TickState'),f),K(0,w)))
        c.need(r,'the closed account is genuine',T('typed','TickState',A('tick_state')))
    for r in c.all():
        for e in r.evs('CLOSE'): c.ob(r,'accounts are closed only by the tick reclaim instruction',r.name=='close_tick_account','',e)

# ------------------------------------------------------------------ C21 / C22 fees of positions
@rule('C21')
def c21(c):
    for n in LIQROOTS:
        r=c.R(n); L_=Liq(r)
        for i in '01':
            g=L_.inside_growth(i); f='fee_growth_inside_%s_last_x32'%i
            c.eq(r,'the position snapshots the fee growth of its range (token_%s)'%i,r.fin(L_.acc,'PositionState',f),ite(L_.touch,g,L_.pos(f)))
        if n!='burn' and n!='mint':
            for i in '01':
                f='fee_growth_inside_%s_last_x32'%i
                old=tp(f); g=L_.inside_growth(i)
                c.eq(r,'the tokenized position snapshots the fee growth of its range (token_%s)'%i,r.fin('tokenized_position_state','TokenizedPositionState',f),ite(L_.touch,g,old))
        if n=='increase_liquidity':
            for i in '01':
                own=muldiv(sub(L_.inside_growth(i),tp('fee_growth_inside_%s_last_x32'%i),64),tp('liquidity'),Q32)
                c.eq(r,'fees since the last change are credited for the liquidity held before (token_%s)'%i,r.fin('tokenized_position_state','TokenizedPositionState','tokens_owed_'+i),add(tp('tokens_owed_'+i),own,64))
        if n in('mint','burn'):
            a0,a1=L_.amounts()
            for i,a in(('0',a0),('1',a1)):
                base=add(L_.pos('tokens_owed_'+i),L_.credit(i),64)
                c.eq(r,'fees since the last change are credited for the liquidity held before (token_%s)'%i,r.fin(L_.acc,'PositionState','tokens_owed_'+i),base if n=='mint' else add(base,neg(a,64),64))
    for n in('burn','collect_from_tokenized'):
        r=c.R(n); L_=Liq(r)
        c.need(r,'a position without liquidity cannot be poked',implies(AND(L_.touch,not_(L_.nz)),gt0(L_.pos('liquidity'))))
    for r in c.all():
        if r.name in LIQROOTS: continue
        for ty in('PositionState','TokenizedPositionState'):
            for e in r.stores(ty):
                if e.path and 'fee_growth' in e.path[0][1]: c.ob(r,'snapshots move only with fee credits',False,'',e)

# ------------------------------------------------------------------ C25 oracle
def obs(a,f): return fld(D0(a,'ObservationState'),f)
@rule('C25')
def c25(c):
    for n in('mint','burn','mint_tokenized_position','increase_liquidity','decrease_liquidity','swap','exact_input_single'):
        r=c.R(n); ts=NOW32()
        if n in('swap','exact_input_single'):
            w=SwapView(r); when=not_(EQ(r.fin('pool_state','PoolState','tick'),pool('tick')))
        else: L_=Liq(r); when=AND(L_.nz,L_.inside)
        last=lambda f: obs('last_observation_state',f)
        part=lt(div(last('block_timestamp'),K(14,32),32,False),div(ts,K(14,32),32,False),32,False)
        nxts=[a for a in dict.fromkeys(e.root.a[0] for e in r.stores('ObservationState')) if a is not A('last_observation_state')]
        if not c.ob(r,'the next slot is written',len(nxts)==1,str(len(nxts))): continue
        nx=nxts[0]
        tcum,spl=observe(last,ts,pool('tick'),pool('liquidity'))
        adv=AND(when,part)
        for f,v in(('block_timestamp',ts),('tick_cumulative',tcum),('seconds_per_liquidity_cumulative_x32',spl),('initialized',TRUE)):
            c.need(r,'a new slot continues from the latest observation with the state before the change: '+f,implies(adv,EQ(r.fin(nx,'ObservationState',f),v)))
            c.need(r,'the latest slot is extended with the state before the change: '+f,implies(AND(when,not_(part),not_(EQ(last('block_timestamp'),ts))),EQ(r.fin('last_observation_state','ObservationState',f),v)))
            c.need(r,'at most one observation per second: '+f,implies(EQ(last('block_timestamp'),ts),EQ(r.fin('last_observation_state','ObservationState',f),last(f))))
            c.need(r,'no observation unless price or active liquidity changes: '+f,implies(not_(when),AND(EQ(r.fin('last_observation_state','ObservationState',f),last(f)),EQ(r.fin(nx,'ObservationState',f),obs(nx,f)))))
            c.need(r,'the latest slot is kept when moving on: '+f,implies(adv,EQ(r.fin('last_observation_state','ObservationState',f),last(f))))
        for a in(A('last_observation_state'),nx):
            for f in('bump','index'): c.eq(r,'a slot keeps its '+f,r.fin(a,'ObservationState',f),obs(a,f))
        oi=r.fin('pool_state','PoolState','observation_index')
        c.need(r,'the pool points at the slot written',ite(adv,EQ(oi,obs(nx,'index')),OR(EQ(oi,pool('observation_index')),EQ(oi,last('index')))))
        card,cn=pool('observation_cardinality'),pool('observation_cardinality_next')
        grow=lambda idx: AND(lt(card,cn,16,False),EQ(idx,sub(card,K(1,16),16)))
        fc=r.fin('pool_state','PoolState','observation_cardinality')
        fresh=not_(EQ(last('block_timestamp'),ts))
        idx=ite(part,obs(nx,'index'),last('index'))
        c.need(r,'the populated length grows when the last populated slot is written',EQ(fc,ite(AND(when,fresh,grow(idx)),cn,card)))
        c.eq(r,'the allowed length is kept',r.fin('pool_state','PoolState','observation_cardinality_next'),cn)
    for r in c.all():
        for e in r.stores('ObservationState'):
            c.ob(r,'observations are written only by price or liquidity changes and set-up',r.name in('mint','burn','mint_tokenized_position','increase_liquidity','decrease_liquidity','collect_from_tokenized','swap','exact_input_single','exact_input','create_and_init_pool','increase_observation_cardinality_next'),'',e)
    r=c.R('create_and_init_pool')
    io='initial_observation_state'
    c.eq(r,'the first observation carries the creation time',r.fin(io,'ObservationState','block_timestamp'),NOW32())
    c.eq(r,'the first observation is usable',r.fin(io,'ObservationState','initialized'),TRUE)
    for f in('observation_cardinality','observation_cardinality_next'): c.eq(r,'a new pool has one observation slot: '+f,r.fin('pool_state','PoolState',f),K(1,16))
    for n in('swap','exact_input_single'): pass
