"""Third part of the rules: the swap loop, events, accounts, calls to other programs, routing."""
from rules2 import *

# ------------------------------------------------------------------ spec of one swap step, from the loop state
def clamp_tick(t):
    return ite(lt(t,K(MINT_,32),32,True),K(MINT_,32),ite(lt(K(MAXT,32),t,32,True),K(MAXT,32),t))
def bitspec(word,bit,lte):
    """next used tick in a 256-bit word at or left of `bit` (lte) or at or right of it: (relative position, found)"""
    one=shl(K(1,256),cast(bit,8,False,256),256)
    low=add(sub(one,K(1,256),256),one,256); high=bnot(sub(one,K(1,256),256),256)
    a=band(word,low,256); b=band(word,high,256)
    fa,fb=not_(EQ(a,K(0,256))),not_(EQ(b,K(0,256)))
    return ite(lte,ite(fa,call('most_significant_bit',a),K(0,8)),ite(fb,call('least_significant_bit',b),K(255,8))),ite(lte,fa,fb)
class Step:
    """the specified successor of every loop quantity"""
    def __init__(s,w):
        s.w=w; B=w.B
        s.reached=eqv(w.out('sqrt_ratio_next_x32'),w.sqrt_next(),64)
        s.fee=w.out('fee_amount')
        fp=fld(D0('factory_state','FactoryState'),'fee_protocol')
        on=not_(EQ(fp,K(0,8)))
        s.cut=ite(on,div(s.fee,cast(fp,8,False,64),64,False),K(0,64))
        s.lpfee=sub(s.fee,s.cut,64)
        # the bitmap word in use after (re)loading
        s.cachephi=None
        for loc,v in w.li['next'].items():
            h=w.li['head'].get(loc)
            if isinstance(v,Term) and isinstance(h,Term) and h.op=='phi' and any(x.op=='data' and x.a[1]=='TickBitmapState' for x in subterms(v)) and w.li['init'].get(loc) is not None:
                i=w.li['init'][loc]
                if i.op=='agg' and i.a[1]=='None': s.cachephi=h; s.cachenext=v
        if s.cachephi is None: raise Missing('swap: bitmap cache not found')
        c=s.cachenext
        s.cached=eqv(discr(c,{'None':0,'Some':1}),K(1,64),64)
        bm=fld(down(c,'Some'),'0')
        s.bit=cast(w.compressed(),32,True,8)
        nb,found=bitspec(bigwords(256,fld(bm,'word')),s.bit,w.zin)
        s.rel=ite(s.cached,nb,ite(w.zin,K(0,8),K(255,8)))
        s.found=ite(s.cached,found,FALSE)
        s.bm=bm
        t=mul(add(scale(cast(w.word(),16,True,32),256,32),cast(s.rel,8,False,32),32),cast(pool('tick_spacing'),16,False,32),32)
        s.tick_next=clamp_tick(t)
    def crossed(s):
        ts=[e for e in s.w.r.stores('TickState')]
        return ts
LIMIT=IX('sqrt_price_limit_x32')
def limitprice(w): return LIMIT

# ------------------------------------------------------------------ C16 price limit
@rule('C16')
def c16(c):
    """The price limit is required on the right side of the price and inside the price range, the amount is non-zero,
    the loop stops at the limit, and every step aims at the nearer of the limit and the next tick's price."""
    r=c.R('swap'); w=SwapView(r); B=w.B; L_=LIMIT; p=pool('sqrt_price_x32')
    c.need(r,'the amount is not zero',not_(EQ(IX('amount_specified'),K(0,64))))
    c.need(r,'selling token_0: the limit is below the price',implies(w.zin,lt(L_,p,64,False)))
    c.need(r,'selling token_0: the limit is above the minimum price',implies(w.zin,lt(K(MINP,64),L_,64,False)))
    c.need(r,'selling token_1: the limit is above the price',implies(not_(w.zin),lt(p,L_,64,False)))
    c.need(r,'selling token_1: the limit is below the maximum price',implies(not_(w.zin),lt(L_,K(MAXP,64),64,False)))
    c.eq(r,'the walk starts at the pool price',w.init(w.price),p,w.li['headpc'])
    c.eq(r,'the walk starts with the whole amount',w.init(w.remaining),IX('amount_specified'),w.li['headpc'])
    c.ob(r,'a step is made only while some amount remains',prove(not_(EQ(w.remaining,K(0,64))),B))
    c.ob(r,'a step is made only while the limit is not reached',prove(not_(eqv(w.price,L_,64)),B))
    px=w.sqrt_next()
    tgt=ite(w.zin,ite(lt(px,L_,64,False),L_,px),ite(lt(L_,px,64,False),L_,px))
    c.ob(r,'a step aims at the next tick but never beyond the limit',prove(EQ(w.target,tgt),B),show(w.target,6)[:400])
    c.ob(r,'the price moves to where the step ended',prove(EQ(w.nxt(w.price),w.out('sqrt_ratio_next_x32')),B))
    c.eq(r,'the pool price is where the walk ended',r.fin('pool_state','PoolState','sqrt_price_x32'),w.price)
    c.need(r,'the walk ends only when nothing remains or the limit is reached',OR(EQ(w.remaining,K(0,64)),eqv(w.price,L_,64)))
MINP=65537;MAXP=281472331703918

# ------------------------------------------------------------------ C20 tick walk
@rule('C20')
def c20(c):
    """Each step of the swap loop looks for the next used tick in the word of the current tick, and when its price is
    reached crosses exactly that tick: outside accumulators are mirrored, active liquidity moves by the net liquidity."""
    r=c.R('swap'); w=SwapView(r); st=Step(w); B=w.B
    c.ob(r,'the walk starts at the pool tick',prove(EQ(w.init(w.tickphi()),pool('tick')),w.li['headpc'].F()))
    c.ob(r,'the walk starts with the pool liquidity',prove(EQ(w.init(w.liq),pool('liquidity')),w.li['headpc'].F()))
    for nm,x in(('a used tick is in the word',AND(st.cached,st.found)),('no used tick is in the word',AND(st.cached,not_(st.found))),('the word has no account',not_(st.cached))):
        for zn,z in(('selling token_0',w.zin),('selling token_1',not_(w.zin))):
            c.ob(r,'the next tick is the nearest used one in the word, else the word border (%s, %s)'%(nm,zn),prove(implies(AND(z,x),EQ(w.tick_next(),st.tick_next)),B))
    # the cached word is the word of the current position
    pos=fld(st.bm,'word_pos')
    loads=[e for e in r.evs('LOAD') if e.type=='TickBitmapState']
    old=st.cachephi; oldw=fld(fld(down(old,'Some'),'0'),'word_pos')
    keep=AND(eqv(discr(old,{'None':0,'Some':1}),K(1,64),64),EQ(oldw,w.word()))
    c.ob(r,'a cached word is kept only for its own position',prove(implies(keep,EQ(st.cachenext,old)),B) and prove(implies(not_(keep),OR(not_(st.cached),*[EQ(st.bm,T('data',x,'TickBitmapState')) for x in dict.fromkeys(e.F.simp(e.acct) for e in loads)])),B))
    c.ob(r,'the word is loaded from an account in the loop',bool(loads))
    # crossing
    same=[e for e in r.stores('TickState')]
    nets=[]
    nl=w.nxt(w.liq)
    accts=list(dict.fromkeys(B.simp(e.root.a[0]) for e in same))
    if c.ob(r,'exactly one tick can be crossed per step',len(accts)==1,'%d accounts'%len(accts)):
        a=accts[0]; D=lambda f: fld(T('data',a,'TickState'),f)
        net=ite(w.zin,neg(D('liquidity_net'),64),D('liquidity_net'))
        cross=AND(st.reached,st.found)
        c.ob(r,'active liquidity changes by the net liquidity of the crossed tick (opposite when moving down)',prove(implies(cross,EQ(nl,call('add_delta',w.liq,net))),B))
        c.ob(r,'the change of the active liquidity is range-checked',prove(implies(cross,T('ok',call('add_delta',w.liq,net))),B))
        c.ob(r,'active liquidity is kept when no used tick is reached',prove(implies(not_(cross),EQ(nl,w.liq)),B))
        g=w.nxt(growthphi(w))
        last=lambda f: obs('last_observation_state',f)
        tcum,spl=observe(last,NOW32(),pool('tick'),pool('liquidity'))
        want={'fee_growth_outside_0_x32':sub(ite(w.zin,g,pool('fee_growth_global_0_x32')),D('fee_growth_outside_0_x32'),64),
              'fee_growth_outside_1_x32':sub(ite(w.zin,pool('fee_growth_global_1_x32'),g),D('fee_growth_outside_1_x32'),64),
              'tick_cumulative_outside':None,'seconds_per_liquidity_outside_x32':None,
              'seconds_outside':sub(NOW32(),D('seconds_outside'),32)}
        byf={}
        for e in same:
            if e.path: byf.setdefault(e.path[0][1],[]).append(e)
            else: byf.setdefault('*',[]).append(e)
        c.ob(r,'only the outside accumulators of a crossed tick change',set(byf)<=set(want),str(sorted(byf)))
        # final content of the crossed tick at the end of the step
        fin=None
        for loc,v in w.li['iter'].items():
            if loc.op=='D' and B.simp(loc.a[0]) is a and loc.a[1]=='TickState': fin=v
        for f,v in want.items():
            es=byf.get(f,[])
            if not c.ob(r,'a crossed tick mirrors %s'%f,bool(es)): continue
            when=OR(*[r.cond(e,w.li['backpc']) for e in es])
            c.ob(r,'a tick is crossed exactly when a used tick is reached: %s'%f,prove(implies(when,cross),B) and prove(implies(cross,when),B))
            if v is None:
                oracle_cross(c,r,w,cross,f,[add(e.value,D(f),64) for e in es],tcum if f.startswith('tick') else spl); continue
            for e in es: c.ob(r,'the mirrored value is current growth minus the old one: %s'%f,e.pc is not None and (r.same(e.value,v,e) or prove(implies(cross,EQ(e.value,v)),B)),show(B.simp(e.value),6)[:400],e)
        t=w.tickphi()
        c.ob(r,'the running tick follows the crossed tick',prove(implies(st.reached,EQ(w.nxt(t),ite(w.zin,sub(w.tick_next(),K(1,32),32),w.tick_next()))),B))
        moved=not_(eqv(w.out('sqrt_ratio_next_x32'),w.price,64))
        tk=call('get_tick_at_sqrt_ratio',w.out('sqrt_ratio_next_x32'))
        c.ob(r,'between ticks the running tick is the tick of the price',prove(implies(AND(not_(st.reached),moved),EQ(w.nxt(t),tk)),B))
        c.ob(r,'the running tick stays when the price stays',prove(implies(AND(not_(st.reached),not_(moved)),EQ(w.nxt(t),t)),B))
    for e in r.stores('TickState'): c.ob(r,'ticks change only inside the walk',bool(e.loops),'',e)
    c.eq(r,'the pool tick is where the walk ended',r.fin('pool_state','PoolState','tick'),w.tickphi())
    c.eq(r,'the pool liquidity is where the walk ended',r.fin('pool_state','PoolState','liquidity'),w.liq)
def growthphi(w):
    """the running fee growth of the input side: what the pool's fee growth becomes"""
    v=w.r.F.simp(w.r.fin('pool_state','PoolState','fee_growth_global_0_x32'))
    ps=[x for x in w.phis(v) if prove(EQ(w.init(x),ite(w.zin,pool('fee_growth_global_0_x32'),pool('fee_growth_global_1_x32'))),w.li['headpc'].F())]
    if len(set(ps))!=1: raise Missing('swap: running fee growth not found')
    return ps[0]
def optpath(x,P):
    """the fields followed from the payload of the option P to x, if x is such a place"""
    path=[]
    while x.op=='fld': path.append(x.a[1]); x=x.a[0]
    return tuple(reversed(path)) if path and x.op=='down' and x.a[0] is P and x.a[1]=='Some' else None
def optfld(v,path):
    v=down(v,'Some')
    if v is None: return T('undef')
    for f in path: v=fld(v,f)
    return v
def oracle_cross(c,r,w,cross,f,cums,val):
    """the accumulator used when crossing is the observation extended to now, computed once and then kept:
    'flag set => kept value is that accumulator' is an invariant of the loop, and under it the value used is right"""
    B=w.B
    for cum in cums:
        sc=B.simp(cum); ph=w.phis(sc)
        # pairs of "already computed" and the value kept: a flag beside a value, or an option that holds it
        guards=[(lambda g,F=x: g(F)) if w.init(x) is FALSE else (lambda g,F=x: not_(g(F))) for x in ph if w.init(x) is FALSE or w.init(x) is TRUE]
        opts=set(x.a[0] for x in subterms(sc) if x.op=='discr' and x.a[0] in ph)
        kept=[x for x in ph if w.init(x) is not FALSE and w.init(x) is not TRUE and x not in opts]
        pairs=[(G,lambda g,X=X: g(X)) for G in guards for X in kept]
        for P in opts:
            ps=set(optpath(x,P) for x in subterms(sc))-{None}
            for path in sorted(ps):
                if any(q!=path and q[:len(path)]==path for q in ps): continue
                pairs.append((lambda g,P=P: eqv(discr(g(P),{'None':0,'Some':1}),K(1,64),64),lambda g,P=P,path=path: optfld(g(P),path)))
        now=lambda x:x
        inv=[implies(G(now),EQ(X(now),val)) for G,X in pairs]
        ok=all(G(w.init) is FALSE for G,X in pairs)
        ok=ok and all(prove(implies(G(w.nxt),EQ(X(w.nxt),val)),B,extra=inv) for G,X in pairs)
        ok=ok and prove(implies(cross,EQ(cum,val)),B,extra=inv)
        c.ob(r,'the mirrored value is the observation extended to now minus the old one: %s'%f,ok,show(B.simp(cum),6)[:400])

# ------------------------------------------------------------------ C23 fee split
@rule('C23')
def c23(c):
    """The fee of every step is split between the protocol (fee/share) and the liquidity providers (the rest, per unit of
    active liquidity, rounded down); the running totals end up in the pool on the input side only."""
    r=c.R('swap'); w=SwapView(r); st=Step(w); B=w.B
    g=growthphi(w)
    grown=add(g,muldiv(st.lpfee,Q32,w.liq),64)
    liq=not_(EQ(w.liq,K(0,64)))
    c.ob(r,'fee growth rises by the providers\' fee per unit of active liquidity',prove(implies(liq,EQ(w.nxt(g),grown)),B),show(B.simp(w.nxt(g)),6)[:500])
    c.ob(r,'fee growth stays without active liquidity',prove(implies(not_(liq),EQ(w.nxt(g),g)),B))
    pf=protophi(w)
    c.ob(r,'the protocol share starts at zero',prove(EQ(w.init(pf),K(0,64)),w.li['headpc'].F()))
    c.ob(r,'the protocol takes its share of every step\'s fee',prove(EQ(w.nxt(pf),add(pf,st.cut,64)),B),show(B.simp(w.nxt(pf)),6)[:500])
    c.ob(r,'the fee rate used is the pool\'s',w.fee is pool('fee'),show(w.fee,4))
    fin=lambda f: r.fin('pool_state','PoolState',f)
    for i,z in(('0',w.zin),('1',not_(w.zin))):
        f='fee_growth_global_%s_x32'%i
        c.need(r,'the running fee growth becomes the pool\'s (token_%s in)'%i,implies(z,EQ(fin(f),g)))
        c.need(r,'the output side earns no fees (token_%s out)'%i,implies(not_(z),EQ(fin(f),pool(f))))
        f='protocol_fees_token_'+i
        c.need(r,'the protocol share accrues to the pool (token_%s in)'%i,implies(z,EQ(fin(f),add(pool(f),pf,64))))
        c.need(r,'no protocol share on the output side (token_%s out)'%i,implies(not_(z),EQ(fin(f),pool(f))))
    for x in c.all():
        if x.name in('swap','exact_input','exact_input_single'): continue
        for f in('fee_growth_global_0_x32','fee_growth_global_1_x32'):
            for e in x.stores('PoolState',f): c.ob(x,'only swaps raise fee growth',x.name=='create_and_init_pool','',e)
def protophi(w):
    ps=[]
    for i in '01':
        v=w.r.F.simp(w.r.fin('pool_state','PoolState','protocol_fees_token_'+i))
        ps+=[x for x in w.phis(v) if x not in ps]
    if len(ps)!=1: raise Missing('swap: running protocol share not found')
    return ps[0]

# ------------------------------------------------------------------ C24 swap ledger
@rule('C24')
def c24(c):
    """Running totals of a swap: what a step consumes and pays moves the two totals with range checks, and the reported and
    settled amounts are those totals on the right token."""
    r=c.R('swap'); w=SwapView(r); B=w.B
    cal=w.calc(); n=w.nxt
    i_,o_,f_=w.out('amount_in'),w.out('amount_out'),w.out('fee_amount')
    paid=add(i_,f_,64)
    c.ob(r,'the counter-amount starts at zero',prove(EQ(w.init(cal),K(0,64)),w.li['headpc'].F()))
    c.ob(r,'exact input: the amount left drops by what the step takes with its fee',prove(implies(w.exact,EQ(n(w.remaining),sub(w.remaining,paid,64))),B))
    c.ob(r,'exact input: the output adds up',prove(implies(w.exact,EQ(n(cal),sub(cal,o_,64))),B))
    c.ob(r,'exact output: the amount left drops by what the step pays',prove(implies(not_(w.exact),EQ(n(w.remaining),add(w.remaining,o_,64))),B))
    c.ob(r,'exact output: the input with its fee adds up',prove(implies(not_(w.exact),EQ(n(cal),add(cal,paid,64))),B))
    small=lambda x: lt(x,K(1<<63,64),64,False)
    c.ob(r,'step amounts fit signed totals',prove(AND(small(paid),small(o_)),B))
    c.ob(r,'what a step takes with its fee cannot wrap',prove(not_(carry(i_,f_,64)),B))
    c.ob(r,'the output total cannot wrap',prove(implies(w.exact,not_(T('ovf','sub','s',64,cal,o_))),B))
    c.ob(r,'the input total cannot wrap',prove(implies(not_(w.exact),not_(T('ovf','add','s',64,*sorted((cal,paid),key=skey)))),B))
    i0,i1=swap_amounts(w)
    for e in swap_cb(r):
        d=ixdata(e)
        c.eq(r,'settled token_0 amount',fld(d,'amount_0_delta'),i0,e); c.eq(r,'settled token_1 amount',fld(d,'amount_1_delta'),i1,e)
    evs=[e for e in r.evs('EMIT') if e.type=='SwapEvent']
    c.ob(r,'the swap is reported once',len(evs)==1 and r.always(evs[0]) if evs else False)
    for e in evs:
        c.eq(r,'reported token_0 amount',fld(e.value,'amount_0'),i0,e); c.eq(r,'reported token_1 amount',fld(e.value,'amount_1'),i1,e)
    for f in('token_0','token_1','fee','tick_spacing','bump','observation_cardinality_next'):
        c.eq(r,'a swap leaves '+f,r.fin('pool_state','PoolState',f),pool(f))
