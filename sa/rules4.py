"""Fourth part of the rules: events, account creation, identity of records, external calls, position tokens, routing."""
from rules3 import *

# ------------------------------------------------------------------ C26 events
def tokdiff(r,i):
    """growth of a vault over the payment of a deposit"""
    cb=mint_cb(r)
    return sub(tok('vault_'+i,'amount',cb[0].after),tok('vault_'+i,'amount'),64) if len(cb)==1 else None
def expect_event(c,r,ty,when,fields,withstore=None):
    """withstore: changes made exactly when the event is due (their own conditions are checked elsewhere)"""
    es=[e for e in r.evs('EMIT') if e.type==ty]
    if not c.ob(r,ty+' is reported',bool(es)): return
    cs=[r.cond(e) for e in es]
    ok=r.holds(implies(OR(*cs),when)) and (r.holds(implies(when,OR(*cs))) or withstore is not None and any(r.holds(r.cond(e,st.pc),st) for e in es for st in withstore)) and all(r.holds(not_(AND(cs[i],cs[j]))) for i in range(len(cs)) for j in range(i))
    c.ob(r,ty+' is reported once, exactly when it happened',ok,'reported when '+show(OR(*cs),7)[:500],es[0])
    for e in es:
        for f,v in fields.items():
            if v is not None: c.eq(r,'%s tells the %s'%(ty,f),fld(e.value,f),v,e)
@rule('C26')
def c26(c):
    r=c.R('init_factory'); expect_event(c,r,'OwnerChanged',TRUE,dict(new_owner=KEY('owner')))
    r=c.R('set_owner'); expect_event(c,r,'OwnerChanged',TRUE,dict(old_owner=fld(D0('factory_state','FactoryState'),'owner'),new_owner=KEY('new_owner')))
    r=c.R('enable_fee_amount'); expect_event(c,r,'FeeAmountEnabled',TRUE,dict(fee=IX('fee'),tick_spacing=IX('tick_spacing')))
    r=c.R('set_fee_protocol'); expect_event(c,r,'SetFeeProtocolEvent',TRUE,dict(fee_protocol_old=fld(D0('factory_state','FactoryState'),'fee_protocol'),fee_protocol=IX('fee_protocol')))
    r=c.R('create_and_init_pool'); fs=lambda f: fld(D0('fee_state','FeeState'),f)
    expect_event(c,r,'PoolCreatedAndInitialized',TRUE,dict(token_0=KEY('token_0'),token_1=KEY('token_1'),fee=fs('fee'),tick_spacing=fs('tick_spacing'),pool_state=KEY('pool_state'),
        sqrt_price_x32=IX('sqrt_price_x32'),tick=r.fin('pool_state','PoolState','tick')))
    r=c.R('increase_observation_cardinality_next')
    expect_event(c,r,'IncreaseObservationCardinalityNext',TRUE,dict(observation_cardinality_next_old=pool('observation_cardinality_next'),observation_cardinality_next_new=r.fin('pool_state','PoolState','observation_cardinality_next')))
    r=c.R('collect_protocol')
    mm=lambda a,b: minmax('min','u',64,a,b)
    expect_event(c,r,'CollectProtocolEvent',TRUE,dict(pool_state=KEY('pool_state'),sender=KEY('owner'),recipient_wallet_0=KEY('recipient_wallet_0'),recipient_wallet_1=KEY('recipient_wallet_1'),
        **{'amount_'+i:mm(IX('amount_%s_requested'%i),pool('protocol_fees_token_'+i)) for i in'01'}))
    rng=dict(tick_lower=tick('lower'),tick_upper=tick('upper'))
    for n in ADDING:
        r=c.R(n); l=Liq(r); a0,a1=l.amounts()
        payer={'mint':'minter','mint_tokenized_position':'minter','increase_liquidity':'payer'}[n]
        expect_event(c,r,'MintEvent',TRUE,dict(pool_state=KEY('pool_state'),sender=KEY(payer),owner=KEY(POS_OWNER[n][1][0]),amount=l.d,amount_0=a0,amount_1=a1,**rng))
        if n!='mint':
            expect_event(c,r,'IncreaseLiquidityEvent',TRUE,dict(token_id=KEY('nft_mint') if n[0]=='m' else tp('mint'),liquidity=l.d,amount_0=tokdiff(r,'0'),amount_1=tokdiff(r,'1')))
    for n in('burn','decrease_liquidity','collect_from_tokenized'):
        r=c.R(n); l=Liq(r); a0,a1=l.amounts()
        expect_event(c,r,'BurnEvent',l.touch,dict(pool_state=KEY('pool_state'),owner=KEY(POS_OWNER[n][1][0]),amount=neg(l.d,64),amount_0=neg(a0,64),amount_1=neg(a1,64),**rng),r.stores('PositionState','fee_growth_inside_0_last_x32') if n[0]=='c' else None)
    r=c.R('decrease_liquidity'); a0,a1=Liq(r).amounts()
    expect_event(c,r,'DecreaseLiquidityEvent',TRUE,dict(token_id=tp('mint'),liquidity=IX('liquidity'),amount_0=neg(a0,64),amount_1=neg(a1,64)))
    r=c.R('collect')
    expect_event(c,r,'CollectEvent',TRUE,dict(pool_state=KEY('pool_state'),owner=KEY('owner'),**rng,
        **{'amount_'+i:mm(IX('amount_%s_requested'%i),r.ini('position_state','PositionState','tokens_owed_'+i)) for i in'01'}))
    r=c.R('collect_from_tokenized')
    paid=lambda i: [e.args[0] for e in payouts(r) if simp_acct(e,e.accs['from']) is A('vault_'+i)]
    own=lambda i: sub(owedbefore(r,i),r.fin('tokenized_position_state','TokenizedPositionState','tokens_owed_'+i),64)
    expect_event(c,r,'CollectTokenizedEvent',TRUE,dict(token_id=tp('mint'),recipient_wallet_0=KEY('recipient_wallet_0'),recipient_wallet_1=KEY('recipient_wallet_1'),amount_0=own('0'),amount_1=own('1')))
    expect_event(c,r,'CollectEvent',TRUE,dict(pool_state=KEY('pool_state'),owner=KEY('factory_state'),**rng,**{'amount_'+i:(paid(i)+[None])[0] for i in'01'}))
    for n in('swap','exact_input_single'):
        r=c.R(n)
        who='signer'
        f=lambda x: r.fin('pool_state','PoolState',x)
        zin=EQ(tok('input_vault','mint'),pool('token_0')); i,o=KEY('input_token_account'),KEY('output_token_account')
        d=[ixdata(e) for e in swap_cb(r)]
        expect_event(c,r,'SwapEvent',TRUE,dict(pool_state=KEY('pool_state'),sender=KEY(who),token_account_0=ite(zin,i,o),token_account_1=ite(zin,o,i),
            sqrt_price_x32=f('sqrt_price_x32'),liquidity=f('liquidity'),tick=f('tick')))
        for e in r.evs('EMIT'):
            if e.type=='SwapEvent':
                for j in'01':
                    c.ob(r,'SwapEvent tells the amount_%s settled'%j,bool(d) and all(r.same(fld(e.value,'amount_'+j),fld(x,'amount_%s_delta'%j),g) for x,g in zip(d,swap_cb(r))),'',e)
    r=c.R('exact_input'); cbs=swap_cb(r); es=[e for e in r.evs('EMIT') if e.type=='SwapEvent']
    c.ob(r,'every hop is reported',len(es)==1 and bool(cbs) and all(e.loops[:1]==x.loops[:1] for e in es for x in cbs))
    for e in es:
        for x in cbs:
            for j in'01': c.ob(r,'the hop\'s SwapEvent tells the amount_%s settled'%j,r.same(fld(e.value,'amount_'+j),fld(ixdata(x),'amount_%s_delta'%j),x),'',e)
def owedbefore(r,i):
    l=Liq(r); tl=tp('liquidity')
    return ite(gt0(tl),add(tp('tokens_owed_'+i),muldiv(sub(l.inside_growth(i),tp('fee_growth_inside_%s_last_x32'%i),64),tl,Q32),64),tp('tokens_owed_'+i))

# ------------------------------------------------------------------ C27 creation of records
CREATED={'init_factory':[('factory_state','FactoryState',())],
 'enable_fee_amount':[('fee_state','FeeState',(S('f'),be(IX('fee'),32)))],
 'create_and_init_pool':[('pool_state','PoolState',(S('p'),KEY('token_0'),KEY('token_1'),be(fld(D0('fee_state','FeeState'),'fee'),32))),
    ('initial_observation_state','ObservationState',(S('o'),KEY('token_0'),KEY('token_1'),be(fld(D0('fee_state','FeeState'),'fee'),32),be(K(0,16),16)))],
 'init_tick_account':[('tick_state','TickState',(S('t'),)+poolseeds()+(be(IX('tick'),32),))],
 'init_bitmap_account':[('bitmap_state','TickBitmapState',(S('b'),)+poolseeds()+(be(IX('word_pos'),16),))],
 'init_position_account':[('position_state','PositionState',(S('ps'),)+poolseeds()+(KEY('recipient'),be(tick('lower'),32),be(tick('upper'),32)))],
 'mint_tokenized_position':[('tokenized_position_state','TokenizedPositionState',(S('ps'),KEY('nft_mint')))]}
def creations(r): return [e for e in r.evs('INVOKE') if e.ix.op=='call' and e.ix.a[0].startswith('system_instruction::')]
def sysarg(e,i): return e.ix.a[1+i]
@rule('C27')
def c27(c):
    for r in c.all():
        want=CREATED.get(r.name,[])
        inits=r.evs('INIT')
        if r.name=='increase_observation_cardinality_next':
            for e in inits: obs_created(c,r,e)
            c.ob(r,'new observation slots are set up in the loop',len(inits)==1 and bool(inits[0].loops)); continue
        for e in inits: c.ob(r,'records are created only by their own instruction',any(e.acct is A(a) and e.type==t for a,t,_ in want),'%s %s'%(show(e.acct,3),e.type),e)
        for a,ty,seeds in want:
            es=[e for e in inits if e.acct is A(a) and e.type==ty]
            if not c.ob(r,'%s is created'%a,len(es)==1): continue
            e=es[0]
            c.ob(r,'%s is always created'%a,r.always(e),'',e)
            bump=r.fin(a,ty,'bump')
            c.need(r,'%s has its derived address'%a,EQ(KEY(a),pda(*(seeds+(arr1(bump),)))) )
            created_right(c,r,a,ty,A(a),seeds)
        for e in r.stores():
            if e.root.a[1] in('FactoryState','FeeState','PoolState','ObservationState','TickState','TickBitmapState','PositionState','TokenizedPositionState') and e.path and e.path[0][1]=='bump':
                c.ob(r,'the recorded bump is fixed at creation',any(e.root.a[0] is A(a) for a,_,_ in want),eff(e),e)
def size_of(c,ty):
    for k,a in c.db.adts.items():
        if k.split('::')[-1]==ty and a.get('local',True): return int(a['size'])
    return None
def created_right(c,r,a,ty,acct,seeds):
    size=size_of(c,ty)
    mine=[e for e in creations(r) if sysarg(e,1) is KEY(acct) and e.ix.a[0].endswith('create_account')]
    sp=[(sysarg(e,3),sysarg(e,4),e) for e in mine]
    grow=[e for e in creations(r) if sysarg(e,0) is KEY(acct)]
    for e in grow:
        if e.ix.a[0].endswith('::allocate'): c.ob(r,'%s: room for the whole record'%a,sysarg(e,1) is K(8+size,64),show(sysarg(e,1),3),e)
        if e.ix.a[0].endswith('::assign'): c.ob(r,'%s: owned by the program'%a,sysarg(e,1) is PID,show(sysarg(e,1),3),e)
    if not c.ob(r,'%s: a new account is requested'%a,bool(sp)): return
    for s_,o,e in sp:
        c.ob(r,'%s: room for the whole record'%a,s_ is K(8+size,64),'%s for a record of %s bytes'%(show(s_,3),size),e)
        c.ob(r,'%s: owned by the program'%a,o is PID,show(o,3),e)
def obs_created(c,r,e):
    ix=fld_of(r,e.acct,'index'); bump=fld_of(r,e.acct,'bump')
    if not c.ob(r,'a new slot records its index and bump',ix is not None and bump is not None): return
    c.need(r,'a new slot has the address of its index',EQ(KEY(e.acct),pda(*((S('o'),)+poolseeds()+(be(ix,16),arr1(bump))))),ev=[x for x in r.stores('ObservationState',acct=e.acct)][-1])
    created_right(c,r,'observation slot','ObservationState',e.acct,())
def fld_of(r,acct,f):
    st=r.stores('ObservationState',f,acct=acct)
    return st[-1].value if len(st)==1 else None

# ------------------------------------------------------------------ C33 calls to other programs and the program's signature
def recordseeds(e):
    s=seedsof(e.seeds)
    return s[0] if s and s!='unknown' and len(s)==1 else None
CALLS={'transfer','mint_to','set_authority','initialize_mint','create'}
@rule('C33')
def c33(c):
    n=0
    for r in c.all():
        for e in r.evs('CPI'):
            n+=1; nm=e.name.split('::')[-1]; sd=seedsof(e.seeds)
            c.ob(r,'calls only the known operations of the token programs',nm in CALLS and e.name.split('::')[0] in('token','associated_token'),e.name,e)
            if sd is not None:
                au=e.accs.get('authority') or e.accs.get('current_authority')
                if not c.ob(r,'a signed call names the address that signs',au is not None and sd!='unknown' and len(sd)==1,show(e.seeds,6)[:300],e): continue
                au=simp_acct(e,au)
                cand=[('PoolState',POOLSIG(au)),('FactoryState',FACTSIG(au))]
                k=[ty for ty,w in cand if len(w)==len(sd[0]) and all(r.same(x,y,e) for x,y in zip(sd[0],w))]
                if c.ob(r,'the signature is the one of a genuine pool or of the configuration',bool(k),show(e.seeds,9)[:500],e):
                    ok=r.holds(T('typed',k[0],au),e)
                    c.ob(r,'the signing account is a genuine %s'%k[0],ok,show(au,4),e)
                    if k[0]=='FactoryState': c.ob(r,'the configuration signs only for position tokens and their metadata',nm in('mint_to','set_authority'),e.name,e)
                    else: c.ob(r,'a pool signs only transfers',nm=='transfer',e.name,e)
            elif nm in('transfer','set_authority','mint_to'):
                au=simp_acct(e,e.accs.get('authority') or e.accs.get('current_authority'))
                c.need(r,'an unsigned %s is authorised by a signer of the transaction'%nm,signer(au),e)
        for e in r.evs('INVOKE'):
            n+=1; sd=recordseeds(e)
            if e.ix.op=='call' and e.ix.a[0].startswith('system_instruction::'):
                nm=e.ix.a[0].split('::')[-1]
                if nm in('create_account','transfer'):
                    p=sysarg(e,0)
                    p=p.a[0] if p.op=='key' else None
                    c.ob(r,'account rent is paid by a signer of the transaction',p is not None and r.holds(signer(p),e),show(e.ix,4)[:300],e)
                tgt={'create_account':1,'allocate':0,'assign':0}.get(nm)
                if tgt is None: c.ob(r,'only account-creating system calls are made',nm=='transfer' and seedsof(e.seeds) is None,e.ix.a[0],e); continue
                a=sysarg(e,tgt)
                if sd is None:
                    un=seedsof(e.seeds) in(None,())
                    c.ob(r,'a created account without derived address signs for itself',un and a.op=='key' and r.holds(signer(a.a[0]),None if not e.loops else e),show(e.ix,4)[:200],e)
                else:
                    c.need(r,'the signature is the one of the account being created',EQ(a,pda(*sd)),None if not e.loops else e)
            elif e.ix.op=='call':
                p=e.ix.a[1]
                c.ob(r,'only metadata instructions are sent besides',e.ix.a[0].endswith('create_metadata_accounts'),e.ix.a[0],e)
                c.need(r,'the metadata program is the real one',EQ(p,T('static','metaplex_token_metadata::ID')),e)
                c.ob(r,'signed as the configuration',sd is not None and all(r.same(x,y,e) for x,y in zip(sd,FACTSIG())) and len(sd)==1,show(e.seeds,6)[:200],e)
                c.need(r,'the signing configuration is genuine',T('typed','FactoryState',A('factory_state')),e)
            else:
                p=fld(e.ix,'program_id')
                c.ob(r,'a called-back program receives no signature of this program',e.seeds is None and p.op=='key',show(e.seeds,5) if e.seeds is not None else '',e)
                if p.op=='key' and r.name not in('mint','swap'):
                    c.need(r,'the manager and the router pay through this program\'s own callback',T('typed','program:CyclosCore',p.a[0]),e)
    c.ob('program','external calls found',n>=60,'%d'%n)

# ------------------------------------------------------------------ C34 the position token
@rule('C34')
def c34(c):
    minted=[]
    for r in c.all():
        for e in r.evs('CPI'):
            nm=e.name.split('::')[-1]
            if nm=='mint_to': minted.append((r,e))
            if nm in('mint_to','initialize_mint') : c.ob(r,'position tokens are minted only with a new position',r.name=='mint_tokenized_position',e.name,e)
            if nm=='set_authority': c.ob(r,'mint authority changes only when metadata is added',r.name=='add_metaplex_metadata','',e)
            if nm in('burn','freeze_account','approve','close_account'): c.ob(r,'position tokens are not otherwise managed',False,e.name,e)
    r=c.R('mint_tokenized_position')
    im=[e for e in r.evs('CPI') if e.name.endswith('initialize_mint')]
    if c.ob(r,'a new mint is set up',len(im)==1 and r.always(im[0])):
        e=im[0]
        c.ob(r,'the mint is the position\'s own',simp_acct(e,e.accs['mint']) is A('nft_mint'),'',e)
        c.eq(r,'the token is indivisible',e.args[0],K(0,8),e)
        c.eq(r,'the program holds the mint authority',e.args[1],KEY('factory_state'),e)
        c.ob(r,'nobody can freeze the token',e.args[2] is NONE or e.args[2].op=='agg' and e.args[2].a[1]=='None',show(e.args[2],3),e)
    cr=[e for e in creations(r) if sysarg(e,1) is KEY('nft_mint') and e.ix.a[0].endswith('create_account')]
    c.ob(r,'the mint account is new and belongs to the token program',len(cr)==1 and sysarg(cr[0],4) is KEY('token_program'))
    mt=[e for rr,e in minted if rr is r]
    if c.ob(r,'one mint call, on every success, outside loops',len(mt)==1 and not mt[0].loops and r.always(mt[0])):
        e=mt[0]
        c.eq(r,'exactly one token is minted',e.args[0],K(1,64),e)
        for k,a in(('mint','nft_mint'),('to','nft_account'),('authority','factory_state')):
            c.ob(r,'minted with the right %s'%k,simp_acct(e,e.accs[k]) is A(a),show(e.accs[k],3),e)
    at=[e for e in r.evs('CPI') if e.name.endswith('associated_token::create')]
    if c.ob(r,'the recipient\'s token account is created',len(at)==1 and r.always(at[0])):
        for k,a in(('authority','recipient'),('mint','nft_mint'),('associated_token','nft_account')): c.ob(r,'token account: right %s'%k,simp_acct(at[0],at[0].accs[k]) is A(a),show(at[0].accs[k],3),at[0])
    c.eq(r,'the position names its token',r.fin('tokenized_position_state','TokenizedPositionState','mint'),KEY('nft_mint'))
    r=c.R('add_metaplex_metadata')
    sa=[e for e in r.evs('CPI') if e.name.endswith('set_authority')]
    if c.ob(r,'adding metadata gives up the mint authority',len(sa)==1 and r.always(sa[0]) and not sa[0].loops):
        e=sa[0]
        c.ob(r,'for the position\'s mint',simp_acct(e,e.accs['account_or_mint']) is A('nft_mint'),'',e)
        c.ob(r,'the minting authority is removed for good',short(e.args[0].a[0])=='AuthorityType' and e.args[0].a[1]=='MintTokens' and e.args[1] is NONE,show(e.args[0],3)+' -> '+show(e.args[1],3),e)
    md=[e for e in r.evs('INVOKE') if e.ix.op=='call' and e.ix.a[0].endswith('create_metadata_accounts')]
    if c.ob(r,'metadata is created once',len(md)==1 and r.always(md[0])):
        a=md[0].ix.a[1:]
        c.ob(r,'metadata is for the position\'s mint, under the program\'s authority',a[1] is KEY('metadata_account') and a[2] is KEY('nft_mint') and a[3] is KEY('factory_state') and a[4] is KEY('payer') and a[5] is KEY('factory_state'),show(md[0].ix,3)[:400],md[0])
    tpb=fld(D0('tokenized_position_state','TokenizedPositionState'),'bump')
    c.need(r,'metadata is added only for a token of a recorded position',AND(T('typed','TokenizedPositionState',A('tokenized_position_state')),EQ(KEY('tokenized_position_state'),pda(S('ps'),KEY('nft_mint'),arr1(tpb)))),sa[0] if sa else None)
    c.ob('program','position tokens are minted at one place',len(minted)==1,'%d'%len(minted))

# ------------------------------------------------------------------ C35 observation capacity
@rule('C35')
def c35(c):
    r=c.R('increase_observation_cardinality_next')
    ini=r.evs('INIT')
    lid=next((e.loops[0] for e in ini if e.loops),None); li=r.eng.loopinfo.get(lid)
    if not c.ob(r,'slots are created in one loop',li is not None and li['next'] is not None and len(ini)==1): return
    e=ini[0]; B=li['backpc'].F()
    a=e.acct
    # the loop's counter: starts at zero, advances by one
    cnt=[]
    for loc,h in li['head'].items():
        if isinstance(h,Term):
            for x in subterms(h):
                if x.op=='phi' and x.a[0]==lid:
                    i=li['init'].get(x.a[1]); v=li['next'].get(x.a[1])
                    for f in x.a[2]: i=fld(i,f) if i is not None else None; v=fld(v,f) if v is not None else None
                    if i is not None and v is not None and i.op=='k' and i.a[0]==0 and v.op!='phi' and prove(EQ(v,add(x,K(1,64),64)),B) and x not in cnt: cnt.append(x)
    ix=fld_of(r,a,'index')
    old=pool('observation_cardinality_next')
    good=[x for x in cnt if ix is not None and r.same(ix,add(old,cast(x,64,False,16),16),e)] if ix is not None else []
    c.ob(r,'slots are numbered consecutively from the old capacity',bool(good) and not e.pc is None,'index %s'%(show(ix,6) if ix is not None else None),e)
    rest=r.eng.loopinfo
    c.ob(r,'a different account serves each slot',any(x in cnt for x in subterms(a)),show(a,4),e)
    c.ob(r,'one slot is created in every round',prove(r.cond(e,li['backpc']),B),'',e)
    ts=fld_of(r,a,'block_timestamp')
    c.ob(r,'a new slot carries a non-zero time stamp so that it counts as prepared',ts is K(1,32),show(ts,3) if ts is not None else 'none',e)
    for st in r.stores('ObservationState',acct=a):
        f=st.path[0][1] if st.path else '*'
        c.ob(r,'a new slot is otherwise empty',f in('bump','index','block_timestamp'),eff(st),st)
    fin=r.fin('pool_state','PoolState','observation_cardinality_next')
    c.ob(r,'the capacity grows by the number of slots created',any(r.same(fin,add(old,cast(x,64,False,16),16)) for x in cnt),show(fin,6))
    c.need(r,'the grown capacity fits its field',OR(*[not_(carry(old,cast(x,64,False,16),16)) for x in cnt] or [FALSE]))
    c.need(r,'as many slots as bumps were given',OR(*[not_(lt(x,len_ix(r,'observation_account_bumps'),64,False)) for x in cnt] or [FALSE]))
    for s in r.stores('PoolState'): c.ob(r,'nothing else of the pool changes',bool(s.path) and s.path[0][1] in('unlocked','observation_cardinality_next'),eff(s),s)
    for rr in c.all():
        if rr is r or rr.name=='create_and_init_pool': continue
        for s in rr.stores('PoolState','observation_cardinality_next'): c.ob(rr,'capacity grows only by its own instruction',False,eff(s),s)
        for s in rr.stores('PoolState','observation_cardinality'):
            v=s.value
            c.ob(rr,'the ring length is raised only to the prepared capacity',any(x.op=='fld' and x.a[-1]=='observation_cardinality_next' for x in subterms(v)),show(v,6)[:300],s)
def len_ix(r,f): return T('len',IX(f))

# ------------------------------------------------------------------ C38 router swaps
def swaploops(r):
    """(loop, step call) of every loop of the handler that performs swap steps"""
    out=[]
    for li in r.eng.loopinfo.values():
        if li['next'] is None: continue
        fs=[f for f in li['backpc'].chain(li['headpc'])]+[v for v in li['next'].values() if isinstance(v,Term)]
        B=li['backpc'].F()
        st=list(dict.fromkeys(B.simp(x) for f in fs for x in subterms(f) if x.op=='call' and x.a[0]=='compute_swap_step'))
        st=[x for x in st if x.a[1].op=='phi' and x.a[1].a[0]==li['id']]
        if st: out.append((li,st))
    return out
def at(d,phi):
    v=d.get(phi.a[1])
    if v is None: return T('undef')
    for f in phi.a[2]: v=fld(v,f)
    return v
def ctxf(infos,f):
    for x in subterms(infos):
        if x.op=='agg' and f in x.a[2]:
            v=fld(x,f)
            while v.op=='agg' and 'info' in v.a[2]: v=fld(v,'info')
            return v
    return T('undef')
def rem_(i): return T('acct','rem',i)
@rule('C38')
def c38(c):
    fn=[li['fn'] for li,_ in swaploops(c.R('swap'))]
    for n in('exact_input_single','exact_input'):
        r=c.R(n); ls=swaploops(r)
        if not c.ob(r,'the router swaps through the pool\'s swap code',len(ls)==1 and [ls[0][0]['fn']]==fn and len(ls[0][1])==1,'%d loops'%len(ls)): continue
        li,st=ls[0]; _,price,target,liq,remaining,fee=st[0].a; B=li['backpc'].F()
        hop=hoploop(r); cbs=swap_cb(r); H=cbs[0].F if cbs else None
        if not c.ob(r,'the router requests payment',bool(cbs)): continue
        f=lambda k,e=None: (e or cbs[0]).F.simp(ctxf((e or cbs[0]).infos,k))
        pa,iv,ov=f('pool_state'),f('input_vault'),f('output_vault')
        for e in cbs:
            c.ob(r,'every payment request is made for the same hop',f('pool_state',e) is pa and f('input_vault',e) is iv and f('output_vault',e) is ov,'',e)
            c.ob(r,'the payer of the hop is the signer',f('signer',e) is A('signer'),'',e)
        eps=tokep(iv,B); ep=eps[0]
        zin=EQ(tok(iv,'mint',ep),fld(D0(pa,'PoolState'),'token_0'))
        amt=at(li['init'],remaining)
        ext=ite(zin,K(MINP+1,64),K(MAXP-1,64))
        if n=='exact_input_single':
            c.ob(r,'swaps in the named pool and vaults',pa is A('pool_state') and iv is A('input_vault') and ov is A('output_vault'))
            c.ob(r,'the whole input amount is swapped',amt is IX('amount_in'),show(amt,5))
            lim=ite(EQ(LIMIT,K(0,64)),ext,LIMIT)
            for e in cbs: c.ob(r,'the input is taken from the named account and the output goes to the named account',f('input_token_account',e) is A('input_token_account') and f('output_token_account',e) is A('output_token_account'),'',e)
        else:
            lim=ext
            hb=hop['backpc'].F()
            if not c.ob(r,'the amount of a hop comes from the route',amt.op=='phi' and amt.a[0]==hop['id'],show(amt,4)): continue
            c.ob(r,'the first hop swaps the amount given',at(hop['init'],amt) is IX('amount_in'),show(at(hop['init'],amt),4))
            outs=out_amounts(r); nx=at(hop['next'],amt)
            c.ob(r,'each next hop swaps what the hop before paid out',any(prove(EQ(nx,o),hb) for o in outs),show(hb.simp(nx),6)[:400])
            ia=f('input_token_account'); oa=f('output_token_account')
            if c.ob(r,'the input account of a hop comes from the route',ia.op=='phi' and ia.a[0]==hop['id'],show(ia,4)):
                c.ob(r,'the first hop takes the input from the named account',at(hop['init'],ia) is A('input_token_account'),show(at(hop['init'],ia),4))
                # all hops but the last hand over
                cnt=[x for v in [hop['head'][k] for k in hop['head']] if isinstance(v,Term) for x in subterms(v) if x.op=='phi' and x.a[0]==hop['id'] and is_counter(hop,x,hb)]
                n_=len_ix(r,'additional_accounts_per_pool')
                nia=at(hop['next'],ia)
                ok=any(prove(implies(g,EQ(nia,oa)),hb) for x in cnt for g in(lt(add(x,K(1,64),64),n_,64,False),lt(x,sub(n_,K(1,64),64),64,False)))
                c.ob(r,'each next hop takes its input from the account the hop before paid into',ok,show(hb.simp(nia),6)[:400])
            base=pa.a[1] if pa.op=='acct' and len(pa.a)>1 else None
            if c.ob(r,'the pool of a hop is the next listed account',pa.op=='acct' and pa.a[0]=='rem' or pa.op=='rem',show(pa,4)):
                p=list(subterms(pa)); ph=[x for x in p if x.op=='phi']
                c.ob(r,'the listing starts with the first additional account',pa.op=='rem' or subst(pa.a[1],{x:at(hop['init'],x) for x in ph if x.a[0]==hop['id']}) is K(0,64),show(pa,6))
            c.ob(r,'as many hops as the route lists',r.holds(OR(*[not_(lt(x,len_ix(r,'additional_accounts_per_pool'),64,False)) for x in dict.fromkeys(x for v in hop['head'].values() if isinstance(v,Term) for x in subterms(v) if x.op=='phi' and x.a[0]==hop['id'] and is_counter(hop,x,hb))] or [FALSE])))
        px=[x for x in subterms(target) if x.op=='call' and x.a[0]=='get_sqrt_ratio_at_tick']
        if c.ob(r,'the next price is found',bool(px)):
            px=px[0]
            tgt=ite(zin,ite(lt(px,lim,64,False),lim,px),ite(lt(lim,px,64,False),lim,px))
            B=before_step(li)
            c.ob(r,'a hop without a price limit runs to the end of the price range only',all(prove(implies(g,EQ(target,tgt)),B) for g in(AND(x,y) for x in(zin,not_(zin)) for y in((TRUE,) if n=='exact_input' else (EQ(LIMIT,K(0,64)),not_(EQ(LIMIT,K(0,64))))))),show(B.simp(target),6)[:500])
        c.ob(r,'the hop swaps an exact input',prove(lt(K(0,64),amt,64,True),B))
def before_step(li):
    """facts of a loop round that do not depend on the outcome of its swap step"""
    pc=li['backpc']; top=pc
    while top.p is not None: top=top.p
    return Facts([f for f in pc.chain(top) if not any(x.op=='call' and x.a[0]=='compute_swap_step' for x in subterms(f))])
def is_counter(hop,x,F):
    i=at(hop['init'],x); v=at(hop['next'],x)
    return i.op=='k' and i.a[0]==0 and v.op not in('undef','phi') and prove(EQ(v,add(x,K(1,64),64)),F)

# ------------------------------------------------------------------ C39 liquidity recorded for a position token
@rule('C39')
def c39(c):
    n=0
    for r in c.all():
        st=r.stores('TokenizedPositionState','liquidity')
        for e in st:
            n+=1
            c.ob(r,'recorded liquidity changes only with its position',r.name in('mint_tokenized_position','increase_liquidity','decrease_liquidity'),eff(e),e)
    fin=lambda r: r.fin('tokenized_position_state','TokenizedPositionState','liquidity')
    core=lambda r: r.fin('core_position_state','PositionState','liquidity')
    for nme in('mint_tokenized_position','increase_liquidity','decrease_liquidity'):
        r=c.R(nme); l=Liq(r); old=tp('liquidity') if nme!='mint_tokenized_position' else z64()
        if nme=='decrease_liquidity':
            c.need(r,'no more liquidity is removed than the token holds',le(IX('liquidity'),old,64,False))
            c.eq(r,'the removed liquidity leaves the record',fin(r),sub(old,IX('liquidity'),64))
            c.eq(r,'the same liquidity leaves the pool position',l.d,neg(IX('liquidity'),64))
        else:
            c.eq(r,'the added liquidity enters the record',fin(r),add(old,l.d,64))
            c.need(r,'liquidity added is not negative',le(K(0,64),l.d,64,True))
        acct=l.acc
        c.ob(r,'the pool position is the program\'s own account for this range',acct=='core_position_state',str(acct))
        c.eq(r,'the pool position changes by the same amount',r.fin('core_position_state','PositionState','liquidity'),call('add_delta',D0F('core_position_state','liquidity'),l.d))
    r=c.R('mint_tokenized_position')
    T_=lambda f: r.fin('tokenized_position_state','TokenizedPositionState',f)
    c.eq(r,'the record names the pool',T_('pool_id'),KEY('pool_state'))
    c.eq(r,'the record keeps the lower tick',T_('tick_lower'),tick('lower'))
    c.eq(r,'the record keeps the upper tick',T_('tick_upper'),tick('upper'))
    for i in'01':
        c.ob(r,'a new record owes nothing in token_%s'%i,T_('tokens_owed_'+i) is tp('tokens_owed_'+i) or r.same(T_('tokens_owed_'+i),z64()),show(T_('tokens_owed_'+i),4))   # new accounts are zeroed
        c.eq(r,'a new record starts from the position\'s fee growth of token_%s'%i,T_('fee_growth_inside_%s_last_x32'%i),r.fin('core_position_state','PositionState','fee_growth_inside_%s_last_x32'%i))
    for rr in c.all():
        for f in('pool_id','tick_lower','tick_upper','mint'):
            for e in rr.stores('TokenizedPositionState',f): c.ob(rr,'what a position token stands for is fixed at creation',rr.name=='mint_tokenized_position',eff(e),e)
    c.ob('program','recorded liquidity is written',n>=3,'%d'%n)
def D0F(a,f): return fld(D0(a,'PositionState'),f)

# ------------------------------------------------------------------ C41 the program's own payment callbacks
def metafields(e):
    m=fld(e.ix,'accounts')
    m=m.a[1] if m.op=='call' and m.a[0]=='metas' else m
    if m.op!='agg': return None
    out=[]
    for v in m.a[3]:
        while v.op=='agg' and 'info' in v.a[2]: v=fld(v,'info')
        out.append(e.F.simp(v))
    return out
@rule('C41')
def c41(c):
    for nme,reqs in(('mint_callback',('mint',)+('mint_tokenized_position','increase_liquidity')),('swap_callback',('swap','exact_input_single','exact_input'))):
        r=c.R(nme); order=list(r.names)
        c.ob(r,'a payment callback only transfers',all(e.kind in('CPI','LOAD','RELOAD') for e in r.events),str([e.kind for e in r.events]))
        ts=transfers(r)
        pairs=[('0',IX('amount_0_owed'),gt0(IX('amount_0_owed'))),('1',IX('amount_1_owed'),gt0(IX('amount_1_owed')))] if nme[0]=='m' else [('',None,None)]
        c.ob(r,'one transfer per payment',len(ts)==len(pairs),'%d transfers'%len(ts))
        if nme[0]=='m':
            for i,amt,when in pairs:
                mine=[e for e in ts if simp_acct(e,e.accs['to']) is A('vault_'+i)]
                if not c.ob(r,'token_%s is paid into its vault'%i,len(mine)==1): continue
                e=mine[0]
                c.eq(r,'exactly the amount owed of token_%s is paid'%i,e.args[0],amt,e)
                c.ob(r,'token_%s is paid whenever some is owed'%i,r.holds(implies(when,r.cond(e))) and r.holds(implies(r.cond(e),when)),show(r.cond(e),5),e)
        else:
            a0,a1=IX('amount_0_delta'),IX('amount_1_delta')
            for e in ts:
                w0=lt(K(0,64),a0,64,True)
                c.ob(r,'a positive token_0 delta is paid in full',r.holds(implies(w0,EQ(e.args[0],a0)),e),show(e.args[0],5),e)
                c.ob(r,'otherwise the token_1 delta is paid in full',r.holds(implies(not_(w0),EQ(e.args[0],a1)),e),show(e.args[0],5),e)
                cnd=r.cond(e)
                m=[x for x in subterms(cnd) if x.op=='lt' and all(y.op=='fld' and y.a[-1]=='mint' for y in x.a[2:])]
                iv,ov=tok('input_vault','mint'),tok('output_vault','mint')
                lo=[x for x in m if x.a[2] is iv and x.a[3] is ov]; hi=[x for x in m if x.a[2] is ov and x.a[3] is iv]
                if c.ob(r,'the payment depends on which token the input is',bool(lo) and bool(hi),show(cnd,6)[:300],e):
                    c.ob(r,'token_0 is paid when the input is token_0',prove(implies(AND(w0,lo[0]),cnd),()),show(cnd,6)[:300],e)
                    c.ob(r,'token_1 is paid when the input is token_1',prove(implies(AND(not_(w0),hi[0]),cnd),()),show(cnd,6)[:300],e)
                c.ob(r,'paid into the input vault',simp_acct(e,e.accs['to']) is A('input_vault'),'',e)
        # who plays which part in the requests
        for q in reqs:
            rq=c.R(q)
            for x in(mint_cb(rq) if nme[0]=='m' else swap_cb(rq)):
                ms=metafields(x)
                if not c.ob(rq,'the request lists its accounts',ms is not None and len(ms)>=len(order),'',x): continue
                inf=x.infos.a[1] if x.infos.op=='call' else x.infos
                mp={n:ms[k] for k,n in enumerate(order)}
                for e in ts:
                    src=simp_acct(e,e.accs['from']); dst=simp_acct(e,e.accs['to']); au=simp_acct(e,e.accs['authority'])
                    if not c.ob(r,'the callback moves the accounts it is given',all(z.op=='acct' and z.a[0] in mp for z in(src,dst,au)),'',e): continue
                    s_,d_,p_=(mp[z.a[0]] for z in(src,dst,au))
                    if nme[0]=='m':
                        i=dst.a[0][-1]
                        c.ob(rq,'the callback pays token_%s from the payer\'s account into the vault'%i,d_ is A('vault_'+i) and s_ is A('token_account_'+i),'%s -> %s'%(show(s_,3),show(d_,3)),x)
                        c.ob(rq,'the payer authorises the payment',p_ is A({'mint':'minter','mint_tokenized_position':'minter','increase_liquidity':'payer'}[q]),show(p_,3),x)
                    else:
                        g=lambda k: x.F.simp(ctxf(x.infos,k))
                        c.ob(rq,'the callback pays from the input account into the input vault',d_ is g('input_vault') and s_ is g('input_token_account'),'%s -> %s'%(show(s_,3),show(d_,3)),x)
                        c.ob(rq,'the payer authorises the payment',p_ is A('signer'),show(p_,3),x)
