"""Sixth part of the rules: instructions refuse nothing beyond the stated reasons."""
from rules5 import *
# ------------------------------------------------------------------ C43 reasons for refusal
def outcome(t):
    """how a check outside the program's own comparisons ended (outcome of a call or library function, range of arithmetic)"""
    if t.op in('ok','typed'): return TRUE
    if t.op=='ovf': return FALSE
    if t.op=='fld' and t.a[-1] in('is_writable','executable'): return TRUE
    if t.op=='call' and str(t.a[0]).endswith('is_exempt'): return TRUE
    if t.op in('eq','lt'):
        if t.op=='eq' and config_only(t): return FALSE
        for i in(0,1) if t.op=='eq' else ():
            d=t.a[i]
            if hasattr(d,'op') and d.op=='discr' and d.a[0].op=='call' and 'mul_div' in d.a[0].a[0]: return TRUE
        xs=list(subterms(t))          # more accounts follow
        if any(x.op=='nacc' for x in xs) and not any(x.op in('call','ite','div','mul') for x in xs):
            return TRUE if t.op=='lt' and any(x.op=='nacc' for x in subterms(t.a[3])) else FALSE
def clear(t):
    m={}
    for x in subterms(t):
        v=outcome(x)
        if v is not None: m[x]=v
    return subst(t,m) if m else t
def reasons(F):
    for k,b in list(F.lit.items()): yield k if b else not_(k)
    for k in list(F.pend): yield k
def grounds(c):
    """what the other rules demand of each handler: the reasons it may refuse for"""
    old,obs=c.needs,c.obs; c.needs=[]
    for p in sorted(RULES):
        if p!='C43': c.obs=[]; RULES[p](c)
    got,c.needs,c.obs=c.needs,old,obs
    G={}
    for n,f,ev in got:
        r=c.R(n)
        if ev is not None and hasattr(ev,'pc'): f=implies(r.cond(ev),f)
        G.setdefault(n,[]).append(clear(f))
        G[n]+=[not_(x) for x in subterms(f) if x.op=='ovf' and x.a[:2]==('add','u')]
    return G
SIGNS=dict(add_metaplex_metadata='payer',burn='owner',collect='owner',collect_from_tokenized='owner_or_delegate',collect_protocol='owner',create_and_init_pool='pool_creator',
 decrease_liquidity='owner_or_delegate',enable_fee_amount='owner',exact_input='signer',exact_input_single='signer',increase_liquidity='payer',increase_observation_cardinality_next='payer',
 init_bitmap_account='signer',init_factory='owner',init_position_account='signer',init_tick_account='signer',mint='minter',mint_callback='minter',mint_tokenized_position='minter nft_mint',
 set_fee_protocol='owner',set_owner='owner',swap='signer',swap_callback='signer')
def stated(c,r):
    """reasons no other rule demands"""
    n=r.name
    for a in SIGNS.get(n,'').split(): yield signer(a)
    yield not_(EQ(pool('tick_spacing'),K(0,16))); yield not_(EQ(pool('observation_cardinality_next'),K(0,16)))
    if n not in('init_tick_account','init_bitmap_account','init_position_account'): yield pool('unlocked')
    if n=='collect_from_tokenized':
        yield OR(gt0(IX('amount_0_max')),gt0(IX('amount_1_max')))
        yield implies(gt0(tp('liquidity')),gt0(fld(D0('core_position_state','PositionState'),'liquidity')))
    if n=='decrease_liquidity': yield gt0(IX('liquidity'))
    if n=='exact_input_single':
        yield gt0(IX('amount_in')); yield lt(IX('amount_in'),K(1<<63,64),64,False)
        z=EQ(pool('token_0'),tok('input_vault','mint')); l=IX('sqrt_price_limit_x32'); p=pool('sqrt_price_x32')
        l=ite(EQ(l,K(0,64)),ite(z,K(MINP+1,64),K(MAXP-1,64)),l)
        yield ite(z,AND(lt(l,p,64,False),lt(K(MINP,64),l,64,False)),AND(lt(p,l,64,False),lt(l,K(MAXP,64),64,False)))
    for e in r.evs('LOAD'):
        a=e.acct
        if e.type=='ObservationState' and a.op=='acct' and n not in('create_and_init_pool','increase_observation_cardinality_next'):
            yield bounddata(a,e.type,(be(nextobs() if a.a[0]=='rem' else pool('observation_index'),16),))
        if e.type=='TickBitmapState' and a.op=='acct' and a.a[0] in('bitmap_lower_state','bitmap_upper_state'):
            yield bounddata(a,e.type,(be(floor_word(tick('lower' if 'lower' in a.a[0] else 'upper'),pool('tick_spacing')),16),))
    for li in r.eng.loopinfo.values():           # a loop ends when its condition no longer holds
        for h in loopconds(li): yield not_(h)
        yield from li.get('axioms',())
    yield from r.eng.drops
def loopconds(li):
    if li['backpc'] is None: return
    ch=[clear(f) for f in li['backpc'].chain(li['headpc'])]
    ch=[f for f in ch if f is not TRUE]
    if ch: yield ch[0]
def config_only(t):
    """depends on nothing but the pool's tick spacing, which is validated when the fee tier is enabled"""
    if any(x.op in('phi','call','key','pda','tokdata','arg') for x in subterms(t)): return False
    ls=[x for x in subterms(t) if x.op=='fld']
    return bool(ls) and all(x.a[-1]=='tick_spacing' for x in ls)
Z64=K(0,64)
@rule('C43')
def c43(c):
    G=grounds(c); n=0
    for r in c.all():
        pc=rootpc()
        for f in dict.fromkeys(G.get(r.name,[])+[clear(x) for x in stated(c,r)]): pc=pc.assume(f)
        F=pc.F()
        c.ob(r,'the stated reasons are consistent',not prove(FALSE,F,6000))
        for f in reasons(r.F):
            g=clear(f)
            if g is TRUE: continue
            n+=1
            # an option is either none or some
            exh=[or_(eqv(d,K(0,w),w),eqv(d,K(1,w),w)) for d,w in {(x.a[1],x.a[0]) for x in subterms(g) if x.op=='eq' and x.a[1].op=='discr'}]
            # an amount of 2^63 and more may be refused
            exh+=[ite(lt(x.a[3],Z64,64,True),not_(lt(Z64,x,64,True)),not_(lt(x,Z64,64,True))) for x in subterms(g) if x.op=='call' and x.a[0] in('get_amount_0_delta_signed','get_amount_1_delta_signed')]
            ok=prove(implies(conj(exh),g) if exh else g,F,6000)
            c.ob(r,'refuses only for a stated reason',ok,'' if ok else 'also refused unless '+show(g,7)[:600])
    c.ob('program','conditions of success analysed',n>=100,str(n))
