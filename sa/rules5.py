"""Fifth part of the rules: the library functions, each against a reference formula.

The other rules treat these functions as named operations; what the operations
compute is decided here, function by function, for arbitrary arguments: the
value of every path that returns must be the reference value, and the checks
the reference needs (non-zero divisor, result in range) must lie on the path."""
from rules4 import *
from interp import rootpc
a_=[T('arg',i) for i in range(6)]
LB='libraries::'
U64M='<u64 as libraries::full_math::MulDiv>::'; BIGM='<libraries::big_num::U128 as libraries::full_math::MulDiv>::'
U64D='<u64 as libraries::unsafe_math::UnsafeMathTrait>::'; BIGD='<libraries::big_num::U128 as libraries::unsafe_math::UnsafeMathTrait>::'
def zx(t,a,b): return cast(t,a,False,b)
def lit(t): return Some(t)
class LibF:
    """a library function under analysis"""
    def __init__(s,c,key):
        s.c=c; s.key=key; s.r=c.lib(key); s.name=key
        c.ob(s,'returns a value on some path',bool(s.r.ok),'%d exits'%len(s.r.outs))
    def value(s,label,want,extra=()):
        for st,v in zip(s.r.ok,s.r.vals):
            F=st.pc.F(); ok=v is want or prove(eqt(v,want),F,20000,extra)
            s.c.ob(s,label,ok,'' if ok else 'computes %s   required %s'%(show(v,9)[:700],show(want,9)[:700]))
    def fields(s,label,want):
        for st,v in zip(s.r.ok,s.r.vals):
            F=st.pc.F()
            for f,w in want.items():
                g=fld(v,f); ok=g is w or prove(eqt(g,w),F,20000)
                s.c.ob(s,label%f,ok,'' if ok else 'computes %s   required %s'%(show(g,8)[:700],show(w,8)[:700]))
    def fact(s,label,g):
        for st in s.r.ok:
            ok=prove(g,st.pc.F(),20000)
            s.c.ob(s,label,ok,'' if ok else 'not implied by the checks on the way: '+show(g,8)[:600])
    def only(s,label,g):
        """checks on the arguments themselves let every argument satisfying g pass"""
        for st in s.r.ok:
            G=st.pc.F()
            for t in [k if b else not_(k) for k,b in G.lit.items()]+list(G.pend):
                if any(x.op in('call','ok','ovf','div','rem','mul','shr','shl') for x in subterms(t)): continue
                ok=prove(implies(g,t),rootpc().F(),20000)
                s.c.ob(s,label,ok,'' if ok else 'also rejected unless '+show(t,6)[:300])

# ------------------------------------------------------------------ full-width products
def quot(a,b,d,w,up):
    n=mul(zx(a,w,2*w),zx(b,w,2*w),2*w)
    if up: n=add(n,zx(sub(d,K(1,w),w),w,2*w),2*w)
    return div(n,zx(d,w,2*w),2*w,False)
def boxed(q,w):
    return ite(lt(q,K(1<<w,2*w),2*w,False),Some(zx(q,2*w,w)),NONE)
def lib_muldiv(c):
    for pre,w,ty in((U64M,64,'u64'),(BIGM,128,'U128')):
        a=a_[:3] if w==64 else [T('arg',i,128) for i in range(3)]
        for up,n in((False,'floor'),(True,'ceil')):
            f=LibF(c,pre+'mul_div_'+n)
            f.value('the product is formed in double width, divided rounding %s, and reported only when it fits'%('up' if up else 'down'),boxed(quot(a[0],a[1],a[2],w,up),w))
            f.fact('a zero divisor is rejected',not_(EQ(a[2],K(0,w)))); f.only('only a zero divisor is rejected',not_(EQ(a[2],K(0,w))))
def lib_divup(c):
    for pre,w in((U64D,64),(BIGD,128)):
        a=a_[:2] if w==64 else [T('arg',i,128) for i in range(2)]
        f=LibF(c,pre+'div_rounding_up')
        q,r=div(a[0],a[1],w,False),rem(a[0],a[1],w,False)
        f.value('one is added to the quotient exactly when a remainder is left',ite(EQ(r,K(0,w)),q,add(q,K(1,w),w)))
def lib_bits(c):
    x=T('arg',0,256)
    f=LibF(c,LB+'bit_math::most_significant_bit')
    f.value('255 less the number of leading zeros',sub(K(255,8),zx(call('lz:256',x),32,8),8)); f.fact('zero is rejected',not_(EQ(x,K(0,256)))); f.only('only zero is rejected',not_(EQ(x,K(0,256))))
    f=LibF(c,LB+'bit_math::least_significant_bit')
    f.value('the number of trailing zeros',zx(call('tz:256',x),32,8)); f.fact('zero is rejected',not_(EQ(x,K(0,256)))); f.only('only zero is rejected',not_(EQ(x,K(0,256))))
def lib_adddelta(c):
    x,y=a_[:2]
    f=LibF(c,LB+'liquidity_math::add_delta')
    f.value('the sum of liquidity and change',Ok(add(x,y,64)))
    ng=lt(y,K(0,64),64,True); r=ite(ng,lt(add(x,y,64),x,64,False),le(x,add(x,y,64),64,False))
    f.fact('a result below zero or above 64 bits is rejected',r); f.only('every other change is accepted',r)

# ------------------------------------------------------------------ token amounts between two prices
def hi(a,b): return minmax('max','u',64,a,b)
def lo(a,b): return minmax('min','u',64,a,b)
def wide(x): return zx(x,64,128)
def scaled(l): return shl(wide(l),K(32,128),128)
def divup(x,y): return call('div_rounding_up',x,y)
def amt0(a,b,l,up):
    m=muldiv(scaled(l),wide(sub(hi(a,b),lo(a,b),64)),wide(hi(a,b)),'U128','ceil' if up else 'floor')
    return zx(divup(m,wide(lo(a,b))) if up else div(m,wide(lo(a,b)),128,False),128,64)
def amt1(a,b,l,up): return muldiv(sub(hi(a,b),lo(a,b),64),l,Q32,'u64','ceil' if up else 'floor')
def lib_delta(c):
    a,b,l,up=a_[:4]
    P=LB+'sqrt_price_math::'
    f=LibF(c,P+'get_amount_0_delta_unsigned')
    f.value('token_0 between two prices is liquidity*2^32*(upper-lower)/upper/lower, each division rounded as asked',ite(up,amt0(a,b,l,True),amt0(a,b,l,False)))
    f.fact('a zero price is rejected',not_(EQ(lo(a,b),K(0,64))))
    f=LibF(c,P+'get_amount_1_delta_unsigned')
    f.value('token_1 between two prices is liquidity*(upper-lower)/2^32, rounded as asked',ite(up,amt1(a,b,l,True),amt1(a,b,l,False)))
    for i in'01':
        f=LibF(c,P+'get_amount_%s_delta_signed'%i)
        un=lambda x,u: call('get_amount_%s_delta_unsigned'%i,a,b,x,u)
        f.value('liquidity added costs the amount rounded up; liquidity removed frees the amount rounded down, negated',ite(lt(l,K(0,64),64,True),neg(un(neg(l,64),FALSE),64),un(l,TRUE)))

# ------------------------------------------------------------------ next price
def lib_next(c):
    P=LB+'sqrt_price_math::'
    p,l,x,zin=a_[:4]
    ok=AND(not_(EQ(p,K(0,64))),not_(EQ(l,K(0,64))))
    up=lambda add_: call('get_next_sqrt_price_from_amount_0_rounding_up',p,l,x,add_)
    dn=lambda add_: call('get_next_sqrt_price_from_amount_1_rounding_down',p,l,x,add_)
    f=LibF(c,P+'get_next_sqrt_price_from_input')
    f.value('an input of token_0 lowers the price (rounded up), of token_1 raises it (rounded down)',ite(zin,up(TRUE),dn(TRUE))); f.fact('zero price or liquidity is rejected',ok); f.only('no other price or liquidity is rejected',ok)
    f=LibF(c,P+'get_next_sqrt_price_from_output')
    f.value('an output of token_1 lowers the price (rounded down), of token_0 raises it (rounded up)',ite(zin,dn(FALSE),up(FALSE))); f.fact('zero price or liquidity is rejected',ok); f.only('no other price or liquidity is rejected',ok)
    plus=a_[3]
    # amount 1: p +- amount*2^32/l
    f=LibF(c,P+'get_next_sqrt_price_from_amount_1_rounding_down')
    small=lt(x,K(1<<32,64),64,False); sh=shl(x,K(32,64),64)
    qa=ite(small,div(sh,l,64,False),muldiv(x,Q32,l)); qs=ite(small,call('div_rounding_up',sh,l),muldiv(x,Q32,l,'u64','ceil'))
    f.value('the price moves by amount*2^32/liquidity: down by the quotient rounded up, up by the quotient rounded down',ite(plus,add(p,qa,64),sub(p,qs,64)))
    f.fact('raising the price beyond 64 bits is rejected',implies(plus,not_(carry(p,qa,64))))
    f.fact('the price stays above zero',implies(not_(plus),lt(qs,p,64,False)))
    # amount 0: l*2^32*p/(l*2^32 +- amount*p)
    f=LibF(c,P+'get_next_sqrt_price_from_amount_0_rounding_up')
    n=scaled(l); pr=mul(x,p,64); wpr=wide(pr)
    ovf=T('ovf','mul','u',64,*sorted((x,p),key=skey))
    exact=lambda d: zx(muldiv(n,wide(p),d,'U128','ceil'),128,64)
    rough=zx(divup(n,add(div(n,wide(p),128,False),wide(x),128)),128,64)
    d=add(n,wpr,128); wrap=carry(n,wpr,128)
    use=AND(not_(ovf),not_(lt(d,n,128,False)))
    f.value('the price after an amount of token_0 is liquidity*2^32*price/(liquidity*2^32 plus or minus amount*price), rounded up; when the product does not fit it is liquidity*2^32/(liquidity*2^32/price+amount), rounded up; nothing moves for a zero amount',
        ite(EQ(x,K(0,64)),p,ite(plus,ite(use,exact(d),rough),exact(sub(n,wpr,128)))))
    f.fact('taking out token_0 is rejected when the product does not fit or the reserve would not last',implies(AND(not_(plus),not_(EQ(x,K(0,64)))),AND(not_(ovf),lt(wpr,n,128,False))))

# ------------------------------------------------------------------ one step of a swap
def lib_step(c):
    p,tg,l,am,fee=a_[:5]
    f=LibF(c,LB+'swap_math::compute_swap_step')
    d0=lambda x,y,u: call('get_amount_0_delta_unsigned',x,y,l,u)
    d1=lambda x,y,u: call('get_amount_1_delta_unsigned',x,y,l,u)
    z=not_(lt(p,tg,64,False)); ein=not_(lt(am,K(0,64),64,True))
    M6=K(1000000,64); kept=zx(sub(K(1000000,32),fee,32),32,64)
    less=muldiv(am,kept,M6); out=neg(am,64)
    fi=ite(z,d0(p,tg,TRUE),d1(p,tg,TRUE)); fo=ite(z,d1(p,tg,FALSE),d0(p,tg,FALSE))
    reach=ite(ein,le(fi,less,64,False),le(fo,out,64,False))
    nx=ite(reach,tg,ite(ein,call('get_next_sqrt_price_from_input',p,l,less,z),call('get_next_sqrt_price_from_output',p,l,out,z)))
    ain=ite(z,d0(p,nx,TRUE),d1(p,nx,TRUE)); aout=ite(z,d1(p,nx,FALSE),d0(p,nx,FALSE))
    aout=ite(ein,aout,lo(aout,out))
    cut=muldiv(ain,zx(fee,32,64),kept,'u64','ceil')
    ff=ite(AND(ein,not_(eqv(nx,tg,64))),sub(am,ain,64),cut)
    f.fields('%s of a step is the reference value',dict(sqrt_ratio_next_x32=nx,amount_in=ain,amount_out=aout,fee_amount=ff))

# ------------------------------------------------------------------ liquidity for amounts
def lib_liq(c):
    P=LB+'liquidity_amounts::'
    a,b,x=a_[:3]; w=lambda: sub(hi(a,b),lo(a,b),64)
    LibF(c,P+'get_liquidity_for_amount_0').value('liquidity for token_0 is amount*(upper*lower/2^32)/(upper-lower), rounded down',muldiv(x,muldiv(a,b,Q32),w()))
    LibF(c,P+'get_liquidity_for_amount_1').value('liquidity for token_1 is amount*2^32/(upper-lower), rounded down',muldiv(x,Q32,w()))
    p,a,b,x,y=a_[:5]
    l0=lambda s,t: call('get_liquidity_for_amount_0',s,t,x); l1=lambda s,t: call('get_liquidity_for_amount_1',s,t,y)
    H,L_=hi(a,b),lo(a,b)
    LibF(c,P+'get_liquidity_for_amounts').value('below the range only token_0 counts, above it only token_1, inside the smaller of the two at the current price',
        ite(le(p,L_,64,False),l0(L_,H),ite(lt(p,H,64,False),lo(l0(p,H),l1(L_,p)),l1(L_,H))),
        extra=(lt(L_,H,64,False),))      # equal bounds divide by zero on every branch

LIBGROUPS=dict(muldiv=lib_muldiv,divup=lib_divup,bits=lib_bits,adddelta=lib_adddelta,delta=lib_delta,next=lib_next,step=lib_step,liq=lib_liq)

# ------------------------------------------------------------------ ticks and prices
from decimal import Decimal as Dec, getcontext
getcontext().prec=60
MAXT=221818; LN=lambda x: Dec(x).ln()
ROOT=Dec('1.0001').sqrt(); KAPPA=LN(2)/LN(ROOT)      # ticks per doubling of the square root price
def bitfactors(c,f,t,absx):
    """the product of one constant per set bit of |tick|: {bit: constant} or None"""
    got={}
    while not isk(t):
        hit=False
        if t.op=='ite':
            for k in range(20):
                if k in got: continue
                b0=eqv(band(absx,K(1<<k,32),32),K(0,32),32)
                if t.a[0] is b0 or t.a[0] is not_(b0):
                    hit=True; skip,take=(t.a[1],t.a[2]) if t.a[0] is b0 else (t.a[2],t.a[1])
                    cst=None
                    if isk(skip) and isk(take) and kv(skip)==1<<64: cst=kv(take)
                    else:
                        for v,n in ((take,None),):
                            if v.op=='div' and isk(v.a[3]) and kv(v.a[3])==1<<64:
                                cc,parts=(v.a[2].a[1],v.a[2].a[2]) if v.a[2].op=='lin' else (1,())
                                if cc==0 and len(parts)==1 and scale(skip,parts[0][1],128) is v.a[2]: cst=parts[0][1]
                                elif cc==0 and len(parts)==1 and parts[0][0] is skip: cst=parts[0][1]
                    if cst is None: return None
                    got[k]=cst; t=skip; break
        if not hit: return None
    return got if kv(t)==1<<64 else None
def lib_price(c):
    """get_sqrt_ratio_at_tick; returns the relative error shown for it, for the inverse"""
    t=a_[0]; f=LibF(c,LB+'tick_math::get_sqrt_ratio_at_tick')
    absx=ite(lt(t,K(0,32),32,True),neg(t,32),t)
    g=not_(lt(K(MAXT,32),absx,32,False)); f.fact('ticks beyond the bounds are rejected',g); f.only('every tick within the bounds has a price',g)
    f.E=None
    for st,v in zip(f.r.ok,f.r.vals):
        F=st.pc.F(); x=fld(v,'0')
        # x = top 32 bits of the ratio, plus one when any lower bit is set
        R_=None
        for y in sorted(subterms(x),key=skey):
            if y.op=='ite' and y.a[0] in(lt(K(0,32),t,32,True),not_(lt(K(0,32),t,32,True))):
                q=div(y,K(1<<32,128),128,False); r=rem(y,K(1<<32,128),128,False)
                want=add(cast(q,128,False,64),cast(not_(eqv(r,K(0,128),128)),1,False,64),64)
                if want is x or prove(eqt(x,want),F,4000): R_=y; break
        if not c.ob(f,'the price is the 64-bit ratio rounded up to 32 fractional bits',R_ is not None,show(x,6)[:600]): continue
        posv,negv=(R_.a[1],R_.a[2]) if R_.a[0] is lt(K(0,32),t,32,True) else (R_.a[2],R_.a[1])
        inv=div(K(-1,128),negv,128,False)
        c.ob(f,'for positive ticks the ratio is inverted',posv is inv or prove(eqt(posv,inv),F,4000),show(posv,5)[:300])
        g=bitfactors(c,f,negv,absx)
        if not c.ob(f,'the ratio is the product of one constant for each set bit of |tick|, cut to 64 bits after each factor',g is not None and set(g)==set(range(18)),'bits found: %s'%sorted(g or ())): continue
        dev={k:abs(Dec(n)/Dec(2)**64*ROOT**(1<<k)-1) for k,n in g.items()}
        worst=max(dev,key=dev.get)
        E=(sum(dev.values())+19*Dec(2)**-47)*(1+Dec(2)**-20)          # constants, and one unit cut off of at least 2^48 per factor
        c.ob(f,'each constant is 2^64/1.0001^(2^bit/2) to a relative error below 2^-38',max(dev.values())<Dec(2)**-38,'bit %d: relative error 2^%.1f'%(worst,float(LN(dev[worst]+Dec(2)**-99)/LN(2))))
        # smallest ratio 2^48: prices of adjacent ticks differ by more than one unit even after rounding
        unit=(ROOT-1-3*E)*Dec(65536)
        c.ob(f,'the price grows strictly with the tick',unit>1,'adjacent prices differ by at least %.2f units'%float(unit))
        f.E=E
        for tk,pr in((-MAXT,MINP),(MAXT,MAXP),(0,1<<32)):
            z=subst(x,{t:K(tk,32)})
            c.ob(f,'the price at tick %d is %d'%(tk,pr),isk(z) and kv(z)==pr,show(z,4)[:200])
    return f.E
def log_ref(p,n,msb,ub):
    """log2 of p as Q.16 with n fractional bits, by repeated squaring"""
    w=lambda x,a=8,b=64: cast(x,a,False,b)
    lg=shl(sub(w(msb),K(32,64),64),K(16,64),64)
    r=ite(lt(msb,K(32,8),8,False),shl(p,sub(K(31,8),msb,8),64),shr(p,sub(msb,K(31,8),8),64,False))
    for k in range(n):
        r=shr(mul(r,r,64),K(31,64),64,False)
        b=cast(shr(r,K(32,64),64,False),64,False,8)
        lg=bor(lg,shl(w(b),K(15-k,64),64),64)
        if k<n-1: r=shr(r,b,64,False)
    return lg
def msb_chain(p):
    r=p; m=K(0,8)
    for k in(5,4,3,2,1,0):
        f=shl(cast(not_(lt(r,K(1<<(1<<k),64),64,False)),1,False,8),K(k,8),8)
        m=bor(m,f,8)
        if k: r=shr(r,f,64,False)
    return m
def lib_tick(c):
    p=a_[0]; f=LibF(c,LB+'tick_math::get_tick_at_sqrt_ratio')
    g=AND(not_(lt(p,K(MINP,64),64,False)),lt(p,K(MAXP,64),64,False))
    f.fact('prices outside the protocol range are rejected',g); f.only('every price within the range has a tick',g)
    E=c.price_err
    for st,v in zip(f.r.ok,f.r.vals):
        F=st.pc.F(); x=fld(v,'0')
        # candidates floor((M*log + d)/2^32)
        cand={}
        for y in subterms(x):
            if y.op=='trunc' and y.a[:2]==(64,32) and y.a[2].op=='shr' and y.a[2].a[0]=='s' and isk(y.a[2].a[3]) and kv(y.a[2].a[3])==32:
                z=y.a[2].a[2]
                if z.op=='lin' and len(z.a[2])==1: cand[y]=(z.a[2][0][0],z.a[2][0][1],sgn(z.a[1],64))
        ok=len(cand)==2 and len({(l.id,m) for l,m,_ in cand.values()})==1
        if not c.ob(f,'two candidate ticks are taken around the scaled logarithm of the price',ok,'%d candidates'%len(cand)): continue
        (lo_t,lo_v),(hi_t,hi_v)=sorted(cand.items(),key=lambda kv_:kv_[1][2])
        lg,M,_=lo_v; d0,d1=Dec(-lo_v[2])/2**32,Dec(hi_v[2])/2**32
        want=ite(eqv(lo_t,hi_t,32),lo_t,ite(le(call('get_sqrt_ratio_at_tick',hi_t),p,64,False),hi_t,lo_t))
        c.ob(f,'the higher candidate is the tick exactly when its price does not exceed the given one, else the lower',x is want or prove(eqt(x,want),F,6000),show(x,4)[:300])
        n=None
        msbs=[msb_chain(p),sub(K(63,8),cast(call('lz:64',p),32,False,8),8),cast(sub(K(63,32),call('lz:64',p),32),32,False,8)]
        for k in range(10,17):
            for m in msbs:
                z=log_ref(p,k,m,None)
                if z is lg: n=k
            if n: break
        if not n:
            for m in msbs:
                if n is None and prove(eqt(lg,log_ref(p,14,m,None)),F,3000): n=14
        if not c.ob(f,'the logarithm is found from the highest bit and repeated squaring',n is not None,show(lg,5)[:500]): continue
        if E is None: c.ob(f,'prices of ticks are accurate',False); continue
        Mq=Dec(M)/2**16; eta=E/(ROOT.ln())*2
        skew=16*abs(Mq-KAPPA)
        cut=(Dec(2)**-n+3*Dec('1.4427')*Dec(2)**-31*(1+Dec(2)**-20))*Mq     # bits not computed, and what truncation loses
        c.ob(f,'the lower candidate never exceeds the tick of the price',d0>=skew+eta,'offset %.6f, error up to %.6f'%(float(d0),float(skew+eta)))
        c.ob(f,'the higher candidate is never below the tick of the price',d1>=skew+eta+cut,'offset %.6f, error up to %.6f'%(float(d1),float(skew+eta+cut)))
        c.ob(f,'the two candidates are at most one tick apart',d0+d1<1,'apart by %.6f'%float(d0+d1))
def lib_tickmath(c):
    c.price_err=lib_price(c); lib_tick(c)
LIBGROUPS['tick']=lib_tickmath

# ------------------------------------------------------------------ amounts for liquidity (views)
def lib_amounts(c):
    P=LB+'liquidity_amounts::'
    a,b,l=a_[:3]
    m=muldiv(scaled(l),wide(sub(hi(a,b),lo(a,b),64)),wide(hi(a,b)),'U128')
    LibF(c,P+'get_amount_0_for_liquidity').value('token_0 for liquidity is liquidity*2^32*(upper-lower)/upper/lower, rounded down',zx(div(m,wide(lo(a,b)),128,False),128,64))
    LibF(c,P+'get_amount_1_for_liquidity').value('token_1 for liquidity is liquidity*(upper-lower)/2^32, rounded down',muldiv(l,sub(hi(a,b),lo(a,b),64),Q32))
    p,a,b,l=a_[:4]; H,L_=hi(a,b),lo(a,b)
    f0=lambda x,y: call('get_amount_0_for_liquidity',x,y,l); f1=lambda x,y: call('get_amount_1_for_liquidity',x,y,l)
    LibF(c,P+'get_amounts_for_liquidity').value('below the range liquidity is token_0, above it token_1, inside both, split at the current price',
        ite(le(p,L_,64,False),tup(f0(L_,H),z64()),ite(lt(p,H,64,False),tup(f0(p,H),f1(L_,p)),tup(z64(),f1(L_,H)))))
LIBGROUPS['amounts']=lib_amounts

@rule('C30')
def c30(c): lib_step(c); lib_next(c)
@rule('C31')
def c31(c): lib_delta(c); lib_liq(c); lib_amounts(c); lib_adddelta(c)
@rule('C32')
def c32(c): lib_muldiv(c); lib_divup(c); lib_bits(c)
@rule('C36')
def c36(c): lib_tickmath(c)

# ------------------------------------------------------------------ C22 range snapshots
@rule('C22')
def c22(c):
    f=LibF(c,'states::pool::PoolState::snapshot_cumulatives_inside')
    P,lw,up,ob=a_[:4]
    t=fld(P,'tick'); lo_,up_=fld(lw,'tick'),fld(up,'tick')
    tc,sp=observe(lambda x: fld(ob,x),NOW32(),t,fld(P,'liquidity'))
    below=lt(t,lo_,32,True); inside=lt(t,up_,32,True)
    def want(x,now,w):
        a,b=fld(lw,x),fld(up,x)
        return ite(below,sub(a,b,w),ite(inside,sub(sub(now,a,w),b,w),sub(b,a,w)))
    f.fields('%s is the growth inside the range',dict(tick_cumulative_inside=want('tick_cumulative_outside',tc,64),
        seconds_per_liquidity_inside_x32=want('seconds_per_liquidity_outside_x32',sp,64),seconds_inside=want('seconds_outside',NOW32(),32)))

def iteleaves(v): return iteleaves(v.a[1])|iteleaves(v.a[2]) if v.op=='ite' else {v}
# ------------------------------------------------------------------ C28 records are read only when genuine
RECORDS=('FactoryState','FeeState','PoolState','ObservationState','TickState','TickBitmapState','PositionState','TokenizedPositionState')
@rule('C28')
def c28(c):
    n=0
    for r in c.all():
        for e in r.evs('LOAD'):
            a=base(e.acct)
            if e.type not in RECORDS: c.ob(r,'only known record types are loaded',False,e.type,e); continue
            n+=1
            if e.how=='load_init':
                mine=[x for x in creations(r) if x.ix.a[0].endswith('create_account') and sysarg(x,1) is KEY(a)]
                c.ob(r,'a record is set up only in an account created by the same instruction',bool(mine),show(a,3),e)
            else: c.need(r,'a %s is read only from an account of the program marked as one'%e.type,T('typed',e.type,a),e)
        for e in r.stores():
            a,ty=e.root.a[:2]
            if ty in RECORDS: c.ob(r,'records are changed only through a checked loader',any(x.type==ty and (a in iteleaves(base(x.acct)) or x.loops) and x.how!='load' for x in r.evs('LOAD')),eff(e),e)
    for k,f in data_uses(c.db): c.ob(k,'the bytes of an account are not read or written past the record loaders',False,f)
    c.ob('program','record accesses analysed',n>=250,str(n))
def data_uses(db):
    """calls that give access to an account's bytes, in any function but the framework's own"""
    import json
    for k in sorted(db.fns):
        if k.startswith('__private') or '__idl' in k: continue
        for m in sorted(set(re.findall(r'"path": "([^"]*(?:AccountInfo[^"]*::try_borrow(?:_mut)?_data|cell::RefCell[^"]*::(?:try_)?borrow(?:_mut)?))"',json.dumps(db.fns[k])))): yield k,m

# ------------------------------------------------------------------ C29 lamports
@rule('C29')
def c29(c):
    for r in c.all():
        cr=creations(r)
        for e in cr:
            k=e.ix.a[0].split('::')[-1]
            if k=='create_account':
                c.ob(r,'a new account is funded with exactly the rent minimum of its size',sysarg(e,2).op=='call' and sysarg(e,2).a[0].endswith('minimum_balance') and sysarg(e,2).a[-1] is sysarg(e,3),show(sysarg(e,2),4),e)
                signer_pays(c,r,e)
            elif k=='transfer':
                mk=[x for x in cr if x.ix.a[0].endswith('create_account') and sysarg(x,1) is sysarg(e,1)]
                if c.ob(r,'lamports move only into an account being created',bool(mk),show(sysarg(e,1),3),e):
                    mb=sysarg(mk[0],2); have=[y for y in subterms(sysarg(e,2)) if y.op=='call' and y.a[0].endswith('AccountInfo::lamports')]
                    need_=ite(EQ(mb,K(0,64)),K(1,64),mb)
                    ok=any(r.same(sysarg(e,2),ite(lt(need_,h,64,False),K(0,64),sub(need_,h,64)),e) and KEY(h.a[1]) is sysarg(e,1) for h in have)
                    c.ob(r,'only what is missing to the rent minimum is paid',ok,show(sysarg(e,2),6)[:400],e)
                signer_pays(c,r,e)
        for e in r.evs('CLOSE'):
            c.ob(r,'the rent of a closed tick goes to the named recipient',r.name=='close_tick_account' and e.dest is A('recipient'),show(e.dest,3),e)
            c.need(r,'the recipient is another account',not_(EQ(KEY(e.acct),KEY(e.dest))),e)
        for u in list(r.eng.unknown):
            c.ob(r,'lamports are touched in no other way','lamports' not in u,u)
    for k,f in lamport_uses(c.db): c.ob(k,'lamports are touched in no other way',False,f)
def signer_pays(c,r,e):
    p=[x for x in r.names if KEY(x) is sysarg(e,0)]
    c.ob(r,'rent is paid by a signer of the transaction',bool(p) and r.holds(fld(A(p[0]),'is_signer'),e),show(sysarg(e,0),3),e)
def lamport_uses(db):
    """calls that give write access to an account's lamports, in any function the handlers reach"""
    import json
    for k in sorted(db.fns):
        f=db.fns[k]
        s=json.dumps(f)
        for m in set(re.findall(r'(try_borrow_mut_lamports|lamports_mut|AccountInfo[^"]{0,40}::(?:realloc|assign)|sub_lamports|add_lamports)\b',s)): yield k,m
ATTACH=dict(C14=[lib_tickmath],C16=[lib_step],C17=[lib_adddelta],C18=[lib_delta,lib_liq],C20=[lib_bits,lib_adddelta],C21=[lib_muldiv],C23=[lib_muldiv],C24=[lib_step])
def attach(pid,libs):
    f=RULES[pid]
    def both(c):
        f(c)
        for g in libs: g(c)
    RULES[pid]=both
for _p,_l in ATTACH.items(): attach(_p,_l)
