"""Hash-consed value-number terms with algebraic normal forms.

Every value the dataflow engine computes is a Term.  Two syntactically
different programs that compute the same value mostly meet in one Term,
because the constructors normalise (linear integer sums modulo 2^w, ordered
comparisons, gated merges, struct updates).  `Facts` is a set of assumed
boolean terms with unit propagation; `prove` decides whether the facts imply a
goal by propagating them and splitting on the gates that remain in the terms.
"""
import sys
sys.setrecursionlimit(200000)

class Term:
    __slots__=('op','a','id','h','__weakref__','w','_sz')
    def __repr__(self): return show(self,6)
_tab={}
_cnt=[0]
def T(op,*a):
    k=(op,a)
    t=_tab.get(k)
    if t is None:
        t=Term(); t.op=op; t.a=a; _cnt[0]+=1; t.id=_cnt[0]; t._sz=None
        t.h=None
        _tab[k]=t
    return t

def skey(t):
    """structural, run-independent ordering key (hash of the structure)"""
    if not isinstance(t,Term):
        return t if isinstance(t,(int,str)) else (tuple(skey(x) for x in t) if isinstance(t,tuple) else repr(t))
    if t.h is None:
        import hashlib
        h=hashlib.md5()
        h.update(t.op.encode())
        for x in t.a: h.update(b'|'+repr(skey(x)).encode())
        t.h=h.hexdigest()
    return t.h

def isT(x,op=None): return isinstance(x,Term) and (op is None or x.op==op)

# ---------------------------------------------------------------- constants
def K(n,w):           # integer constant of width w
    return T('k',n & ((1<<w)-1),w)
TRUE=T('k',1,1); FALSE=T('k',0,1)
UNIT=T('unit')
def isk(t): return t.op=='k'
def kv(t): return t.a[0]
def sgn(n,w): return n-(1<<w) if n>=(1<<(w-1)) else n

_wid={'u8':8,'i8':8,'u16':16,'i16':16,'u32':32,'i32':32,'u64':64,'i64':64,'u128':128,'i128':128,'usize':64,'isize':64,'bool':1,'char':32}
def width(ty): return _wid.get(ty)
def signed(ty): return ty in('i8','i16','i32','i64','i128','isize')

# ---------------------------------------------------------------- width of a term
def wof(t):
    o=t.op
    if o=='k': return t.a[1]
    if o in('lin','mul','shl','and','or','xor'): return t.a[0]
    if o in('div','rem','shr','min','max','trunc'): return t.a[1]
    if o=='ext_': return t.a[2]
    if o=='ite': return wof(t.a[1]) or wof(t.a[2])
    if o=='arg' and len(t.a)>1: return t.a[1]
    return None

# ---------------------------------------------------------------- linear forms
def _lin_parts(t,w):
    if t.op=='k': return t.a[0],{}
    if t.op=='lin' and t.a[0]==w: return t.a[1],dict(t.a[2])
    return 0,{t:1}
def _mk_lin(w,c,d):
    M=1<<w
    c%=M
    it=[(k,v%M) for k,v in d.items() if v%M]
    for k,v in it:                       # x - (x/y)*y is the remainder
        x=y=None
        if k.op=='mul':
            for p,q in((k.a[1],k.a[2]),(k.a[2],k.a[1])):
                if p.op=='div' and p.a[3] is q: x,y,sg=p.a[2],q,p.a[0]; n=v
        elif k.op=='div' and k.a[1]==w and isk(k.a[3]):
            y=k.a[3]; sg=k.a[0]; yv=sgn(kv(y),w) if sg=='s' else kv(y); sv=sgn(v,w)
            if yv>0 and sv%yv==0: x,n=k.a[2],(sv//yv)%M
        if x is not None and n in(1,M-1) and x.op!='lin' and d.get(x,0)%M==(-n)%M:
            e=dict(it); del e[k]; del e[x]; r=rem(x,y,w,sg=='s'); e[r]=e.get(r,0)-n
            return _mk_lin(w,c,e)
    if not it: return K(c,w)
    if len(it)==1 and c==0 and it[0][1]==1: return it[0][0]
    it.sort(key=lambda kv_:skey(kv_[0]))
    return T('lin',w,c,tuple(it))
def add(a,b,w):
    ca,da=_lin_parts(a,w); cb,db=_lin_parts(b,w)
    d=dict(da)
    for k,v in db.items(): d[k]=d.get(k,0)+v
    return _mk_lin(w,ca+cb,d)
def scale(a,n,w):
    c,d=_lin_parts(a,w)
    return _mk_lin(w,c*n,{k:v*n for k,v in d.items()})
def sub(a,b,w): return add(a,scale(b,-1,w),w)
def neg(a,w): return scale(a,-1,w)
def bigwords(w,v):
    """big integer put together from 64-bit words"""
    n=w//64
    if v.op=='agg' and len(v.a[3])==n:
        ws=v.a[3]
        if all(isk(x) for x in ws): return K(sum(kv(x)<<(64*i) for i,x in enumerate(ws)),w)
        x0=ws[0]
        if x0.op=='idx' and x0.a[0].op=='fld' and x0.a[0].a[1]=='0':
            x=x0.a[0].a[0]; m=0
            while m<n and ws[m].op=='idx' and ws[m].a[0] is x0.a[0] and isk(ws[m].a[1]) and kv(ws[m].a[1])==m: m+=1
            k=wof(x)
            if k and all(isk(y) and kv(y)==0 for y in ws[m:]) and (m*64==k or m==n<k//64):
                return x if k==w else cast(x,k,False,w)
    return T('call','bigwords',K(w,16),v)
def mul(a,b,w):
    if isk(a): return scale(b,kv(a),w)
    if isk(b): return scale(a,kv(b),w)
    x,y=sorted((a,b),key=skey)
    return T('mul',w,x,y)

def div(a,b,w,s):
    if isk(b) and kv(b)==1: return a
    if isk(a) and kv(a)==0 and not isk(b): return a        # a divisor of zero panics before
    if isk(a) and isk(b) and kv(b):
        if s:
            x,y=sgn(kv(a),w),sgn(kv(b),w); q=abs(x)//abs(y)
            return K(q if (x<0)==(y<0) else -q,w)
        return K(kv(a)//kv(b),w)
    return T('div','s' if s else 'u',w,a,b)
def rem(a,b,w,s):
    if isk(a) and isk(b) and kv(b):
        if s:
            x,y=sgn(kv(a),w),sgn(kv(b),w); r=abs(x)%abs(y)
            return K(-r if x<0 else r,w)
        return K(kv(a)%kv(b),w)
    return T('rem','s' if s else 'u',w,a,b)
def shl(a,b,w):
    if isk(b): return scale(a,1<<(kv(b)%w),w)
    return T('shl',w,a,b)
def shr(a,b,w,s):
    if isk(b):
        n=kv(b)%w
        if n==0: return a
        if isk(a):
            return K((sgn(kv(a),w) if s else kv(a))>>n,w)
        if not s: return div(a,K(1<<n,w),w,False)
    return T('shr','s' if s else 'u',w,a,b)
def band(a,b,w):
    if w==1: return and_(a,b)
    for x,y in((a,b),(b,a)):
        if isk(y):
            n=kv(y)
            if n==0: return K(0,w)
            if n==(1<<w)-1: return x
            if isk(x): return K(kv(x)&n,w)
            if (n&(n+1))==0: return rem(x,K(n+1,w),w,False)
    x,y=sorted((a,b),key=skey)
    return T('and',w,x,y)
def bor(a,b,w):
    if w==1: return or_(a,b)
    if isk(a) and isk(b): return K(kv(a)|kv(b),w)
    if isk(a) and kv(a)==0: return b
    if isk(b) and kv(b)==0: return a
    for x,y in((a,b),(b,a)):          # 2^n | (2^n - 1): disjoint
        if x.op=='lin' and x.a[0]==w and y.op=='shl' and isk(y.a[1]) and kv(y.a[1])==1 and add(x,K(1,w),w) is y: return add(x,y,w)
    x,y=sorted((a,b),key=skey)
    return T('or',w,x,y)
def bxor(a,b,w):
    if w==1: return ite(a,not_(b),b)
    if isk(a) and isk(b): return K(kv(a)^kv(b),w)
    if a is b: return K(0,w)
    x,y=sorted((a,b),key=skey)
    return T('xor',w,x,y)
def bnot(a,w):
    if w==1: return not_(a)
    # !x = -x-1
    return sub(K(-1,w),a,w)

def cast(a,w0,s0,w1):
    if w0==w1: return a
    if w1>w0:
        if isk(a): return K(sgn(kv(a),w0) if (s0 and w0>1) else kv(a),w1)
        if a.op=='ite' and isk(a.a[1]) and isk(a.a[2]):
            return ite(a.a[0],cast(a.a[1],w0,s0,w1),cast(a.a[2],w0,s0,w1))
        if a.op=='ext_' and not s0 and a.a[0]=='z': return T('ext_','z',a.a[1],w1,a.a[3])
        return T('ext_','s' if s0 else 'z',w0,w1,a)
    # truncation is a ring homomorphism
    if isk(a): return K(kv(a),w1)
    if a.op=='lin':
        c=K(a.a[1],w1)
        for t,v in a.a[2]: c=add(c,scale(cast(t,w0,s0,w1),v,w1),w1)
        return c
    if a.op=='ext_':
        if a.a[1]==w1: return a.a[3]
        if a.a[1]<w1: return T('ext_',a.a[0],a.a[1],w1,a.a[3])
        return cast(a.a[3],a.a[1],a.a[0]=='s',w1)
    if a.op=='rem' and isk(a.a[3]):
        n=kv(a.a[3])
        if n and (n&(n-1))==0 and n>=(1<<w1): return cast(a.a[2],w0,s0,w1)
    if a.op=='ite': return ite(a.a[0],cast(a.a[1],w0,s0,w1),cast(a.a[2],w0,s0,w1))
    return T('trunc',w0,w1,a)

# ---------------------------------------------------------------- booleans
def not_(a):
    o=a.op
    if o=='k': return FALSE if a.a[0] else TRUE
    if o=='not': return a.a[0]
    if o=='ite': return ite(a.a[0],not_(a.a[1]),not_(a.a[2]))
    return T('not',a)
def and_(a,b): return ite(a,b,FALSE)
def or_(a,b): return ite(a,TRUE,b)
def conj(xs):
    r=TRUE
    for x in reversed(list(xs)): r=and_(x,r)
    return r
def implies(a,b): return ite(a,b,TRUE)

def kleaf(x,d=4):
    """a merge with a constant among its cases"""
    return any(isk(y) or (d and y.op=='ite' and kleaf(y,d-1)) for y in x.a[1:])
def eqv(a,b,w=None):
    """equality of scalars/keys; w = integer width when known"""
    if a is b: return TRUE
    if isk(a) and isk(b): return TRUE if kv(a)==kv(b) else FALSE
    if (a.op=='ref' and isk(b)) or (b.op=='ref' and isk(a)): return FALSE      # references are not null
    if w==1 or (isk(a) and a.a[1]==1) or (isk(b) and b.a[1]==1):
        if isk(a): a,b=b,a
        if isk(b): return a if kv(b) else not_(a)
        return ite(a,b,not_(b))
    for x,y in((a,b),(b,a)):
        if isk(y) and kv(y)==0 and x.op=='or': return and_(eqv(x.a[1],K(0,x.a[0]),x.a[0]),eqv(x.a[2],K(0,x.a[0]),x.a[0]))
        if isk(y) and x.op=='ite' and kleaf(x):
            return ite(x.a[0],eqv(x.a[1],y,w),eqv(x.a[2],y,w))
        if isk(y) and x.op=='ite' and 'lin' in(x.a[1].op,x.a[2].op) and 'rem' in(x.a[1].op,x.a[2].op):
            e1,e2=eqv(x.a[1],y,w),eqv(x.a[2],y,w)
            if isk(e1) or isk(e2): return ite(x.a[0],e1,e2)
        if isk(y) and x.op=='rem' and x.a[0]=='u' and isk(x.a[3]) and kv(x.a[3])==2 and kv(y)<2:
            q=x.a[2]      # one bit of a number, shifted down to be looked at
            if q.op=='div' and q.a[0]=='u' and isk(q.a[3]) and kv(q.a[3])&(kv(q.a[3])-1)==0 and kv(q.a[3]):
                b0=eqv(band(q.a[2],q.a[3],x.a[1]),K(0,x.a[1]),x.a[1])
                return not_(b0) if kv(y) else b0
        if isk(y) and kv(y)==0 and x.op=='div' and x.a[0]=='u' and isk(x.a[3]) and kv(x.a[3]): return lt(x.a[2],x.a[3],x.a[1],False)
        if isk(y) and x.op=='ext_':
            w0=x.a[1]; n=kv(y)
            lo=K(n,w0)
            if cast(lo,w0,x.a[0]=='s',x.a[2]) is K(n,x.a[2]): return eqv(x.a[3],lo,w0)
            return FALSE
    if w is None: w=wof(a) or wof(b)
    if w and w>1:
        d=sub(a,b,w)
        if isk(d): return TRUE if kv(d)==0 else FALSE
        if d.op!='lin': return T('eq',w,d,K(0,w))
        c,parts=d.a[1],d.a[2]
        if c==0 and len(parts)==2:          # a remainder is smaller than the divisor
            for (x,cx),(y,cy) in(parts,parts[::-1]):
                if x.op=='rem' and x.a[1]==w and x.a[3] is y and cx in(1,(1<<w)-1) and cy in(1,(1<<w)-1) and (x.a[0]=='s' or cx!=cy): return FALSE
        # sign normalisation: first coefficient in lower half
        if parts[0][1]>=(1<<(w-1)):
            d=neg(d,w); c,parts=(d.a[1],d.a[2]) if d.op=='lin' else (0,((d,1),))
        if d.op!='lin': return T('eq',w,d,K(0,w))
        if len(parts)==1 and parts[0][1]==1: return T('eq',w,parts[0][0],K(-c,w))
        return T('eq',w,d,K(0,w))
    if a.op in('str','bytes') and b.op in('str','bytes') and a is not b: return FALSE
    x,y=sorted((a,b),key=skey)
    return T('eqk',x,y)

def seedtext(x):
    """bytes written out one by one are the string of these bytes"""
    if x.op=='agg' and x.a[0]=='arr' and x.a[3] and all(isk(y) for y in x.a[3]): return T('str',bytes(kv(y) for y in x.a[3]).decode('latin1'))
    return x
def carry(a,b,w):
    """does the unsigned sum of a and b leave w bits"""
    if w==1: return and_(a,b)
    for x,y in((a,b),(b,a)):
        if isk(x): return FALSE if kv(x)==0 else not_(lt(y,K((1<<w)-kv(x),w),w,False))
        n=minus(x,w)
        if n is not None: return and_(not_(eqv(n,K(0,w),w)),not_(lt(y,n,w,False)))
    return T('ovf','add','u',w,*sorted((a,b),key=skey))
def minus(x,w):
    """n where x is -n"""
    return x.a[2][0][0] if x.op=='lin' and x.a[0]==w and x.a[1]==0 and len(x.a[2])==1 and x.a[2][0][1]==(1<<w)-1 else None
def lt(a,b,w,s):
    """a < b"""
    if a is b: return FALSE
    if w==1: return and_(not_(a),b)
    if isk(a) and isk(b):
        x,y=(sgn(kv(a),w),sgn(kv(b),w)) if s else (kv(a),kv(b))
        return TRUE if x<y else FALSE
    lo=-(1<<(w-1)) if s else 0
    hi=(1<<(w-1))-1 if s else (1<<w)-1
    val=lambda t: sgn(kv(t),w) if s else kv(t)
    if isk(a):                      # c < b   ==  not (b < c+1)
        c=val(a)
        if c==hi: return FALSE
        return not_(lt(b,K(c+1,w),w,s))
    if isk(b):
        c=val(b)
        if c==lo: return FALSE
        if c==lo+1: return eqv(a,K(lo,w),w)
        if c==0 and a.op=='rem' and a.a[0]=='s' and a.a[1]==w: return and_(lt(a.a[2],b,w,True),not_(eqv(a,b,w)))   # a remainder has the sign of the dividend
        if a.op=='ext_':
            w0=a.a[1]; s0=a.a[0]=='s'
            l0,h0=(-(1<<(w0-1)),(1<<(w0-1))-1) if s0 else (0,(1<<w0)-1)
            if s or not s0:
                if c>h0: return TRUE
                if c<=l0: return FALSE
                return lt(a.a[3],K(c,w0),w0,s0)
    if a.op=='ite' and (isk(a.a[1]) and isk(a.a[2])):
        return ite(a.a[0],lt(a.a[1],b,w,s),lt(a.a[2],b,w,s))
    if b.op=='ite' and (isk(b.a[1]) and isk(b.a[2])):
        return ite(b.a[0],lt(a,b.a[1],w,s),lt(a,b.a[2],w,s))
    if a.op=='ext_' and b.op=='ext_' and a.a[:3]==b.a[:3] and (s or a.a[0]=='z'):
        return lt(a.a[3],b.a[3],a.a[1],a.a[0]=='s')
    for x,y in((a,b),(b,a)):        # the sum of two smaller numbers in a wider type
        p=widesum(x,w,s)
        if p is None: continue
        p,q,w0=p; o=carry(p,q,w0); m=add(p,q,w0)
        z=y.a[3] if y.op=='ext_' and y.a[:2]==('z',w0) else K(kv(y),w0) if isk(y) and 0<=val(y)<1<<w0 else None
        if z is not None: return and_(not_(o),lt(m,z,w0,False)) if x is a else or_(o,lt(z,m,w0,False))
        if isk(y) and x is a and val(y)==1<<w0: return not_(o)
    if not s:
        if satsub(a): return and_(not_(eqv(b,K(0,w),w)),or_(a.a[0],lt(a.a[2],b,w,False)))
        if satsub(b): return and_(not_(b.a[0]),lt(a,b.a[2],w,False))
        # b+d < b: the sum does not fit; a < -n: a+n fits and n is not zero
        if a.op=='lin' and a.a[0]==w and not isk(b):
            d=sub(a,b,w)
            if (len(d.a[2]) if d.op=='lin' else 1)<len(a.a[2]) and not isk(d): return carry(b,d,w)
        n=minus(b,w)
        if n is not None: return and_(not_(eqv(n,K(0,w),w)),not_(carry(a,n,w)))
    sg='s' if s else 'u'
    if b.op=='min' and b.a[:2]==(sg,w) and a in mmleaves(b): return FALSE
    if a.op=='max' and a.a[:2]==(sg,w) and b in mmleaves(a): return FALSE
    return T('lt','s' if s else 'u',w,a,b)
def widesum(x,w,s):
    """p,q,w0 where x is the sum of two w0-bit numbers and cannot leave w bits"""
    if x.op!='lin' or x.a[0]!=w: return None
    c,ps=x.a[1],x.a[2]
    if not 1<=len(ps)<=2 or any(n!=1 or t.op!='ext_' or t.a[0]!='z' for t,n in ps) or len({t.a[1] for t,n in ps})>1: return None
    w0=ps[0][0].a[1]
    if w<w0+1+s: return None
    if len(ps)==2: return (ps[0][0].a[3],ps[1][0].a[3],w0) if c==0 else None
    return (ps[0][0].a[3],K(c,w0),w0) if c<1<<w0 else None
def satsub(t):
    """is t a difference, or zero where that would be negative"""
    return t.op=='ite' and isk(t.a[1]) and kv(t.a[1])==0 and t.a[2].op=='lin' and t.a[0].op=='lt'
def mmleaves(t):
    x,y=t.a[2],t.a[3]
    return (mmleaves(x) if x.op==t.op and x.a[:2]==t.a[:2] else [x])+[y]
def le(a,b,w,s): return not_(lt(b,a,w,s))

def ite(c,a,b):
    if c.op=='k': return a if c.a[0] else b
    if a is b: return a
    if c.op=='not': return ite(c.a[0],b,a)
    if a.op=='ite' and a.a[0] is c: return ite(c,a.a[1],b)
    if b.op=='ite' and b.a[0] is c: return ite(c,a,b.a[2])
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return T('not',c) if c.op!='ite' else not_(c)
    if c is a: return ite(c,TRUE,b)
    if c is b: return ite(c,a,FALSE)
    if c.op=='ite':
        # gate that is itself a conjunction/disjunction: expose the atoms
        c0,c1,c2=c.a
        return ite(c0,ite(c1,a,b),ite(c2,a,b))
    oa,ob=a.op,b.op
    if oa=='agg' and ob=='agg' and a.a[0]==b.a[0] and a.a[1]==b.a[1] and len(a.a[3])==len(b.a[3]):
        return T('agg',a.a[0],a.a[1],a.a[2],tuple(ite(c,x,y) for x,y in zip(a.a[3],b.a[3])))
    if oa=='slice' and ob=='slice' and a.a[0] is b.a[0]: return T('slice',a.a[0],ite(c,a.a[1],b.a[1]),ite(c,a.a[2],b.a[2]))
    if oa=='rec' or ob=='rec':
        ba=a.a[0] if oa=='rec' else a
        bb=b.a[0] if ob=='rec' else b
        if ba is bb:
            da=dict(a.a[1]) if oa=='rec' else {}
            db=dict(b.a[1]) if ob=='rec' else {}
            u={}
            for f in list(da)+[x for x in db if x not in da]:
                u[f]=ite(c,da.get(f) or fld(ba,f),db.get(f) or fld(ba,f))
            return mkrec(ba,u)
    if c.op=='lt':
        s,w,x,y=c.a
        if a is x and b is y: return minmax('min',s,w,x,y)
        if a is y and b is x: return minmax('max',s,w,x,y)
        # the saturating-with-constant normalisation of lt moves constants by one
    if c.op=='eq' and isk(c.a[2]):
        # ite(x==k, k, x) -> x ; ite(x==k, A, B) with A = B[x:=k] is left to prove
        if a is c.a[2] and b is c.a[1]: return b
        if kv(c.a[2])==0 and isk(a) and kv(a)==0 and b.op=='rem' and b.a[3] is not a and eqv(b.a[2],b.a[3],b.a[1]) is c: return b    # x == m ? 0 : x % m
    return T('ite',c,a,b)
def minmax(op,s,w,x,y):
    """minimum/maximum of any number of operands: flattened, deduplicated, constants folded, canonically ordered"""
    ls=[]
    def flat(t):
        if t.op==op and t.a[0]==s and t.a[1]==w: flat(t.a[2]); flat(t.a[3])
        elif t not in ls: ls.append(t)
    flat(x); flat(y)
    val=lambda t: sgn(kv(t),w) if s=='s' else kv(t)
    ks=[t for t in ls if isk(t)]
    if ks:
        k=(min if op=='min' else max)(ks,key=val); ls=[t for t in ls if not isk(t)]
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if s=='s' else (0,(1<<w)-1)
        if val(k)==(lo if op=='min' else hi): return k
        if val(k)!=(hi if op=='min' else lo): ls.append(k)
        if not ls: return k
    ls.sort(key=skey)
    r=ls[0]
    for t in ls[1:]: r=T(op,s,w,r,t)
    return r

# ---------------------------------------------------------------- structs
def mkagg(ty,var,names,vals): return T('agg',ty,var,tuple(names),tuple(vals))
def mkrec(base,upd):
    if base.op=='agg' and base.a[2]:
        v=list(base.a[3]); n=base.a[2]
        for f,x in upd.items(): v[n.index(f)]=x
        return mkagg(base.a[0],base.a[1],n,v)
    if base.op=='rec':
        d=dict(base.a[1]); d.update(upd); return mkrec(base.a[0],d)
    u={f:x for f,x in upd.items() if not (x.op=='fld' and x.a[0] is base and x.a[1]==f)}
    if not u: return base
    return T('rec',base,tuple(sorted(u.items())))
# the library functions whose result does not depend on the order of two arguments (each is shown to be so by the library rules)
SYMM={n:(0,1) for n in ('get_amount_0_delta_unsigned','get_amount_1_delta_unsigned','get_amount_0_delta_signed','get_amount_1_delta_signed',
    'get_liquidity_for_amount_0','get_liquidity_for_amount_1','get_amount_0_for_liquidity','get_amount_1_for_liquidity')}
SYMM['get_liquidity_for_amounts']=(1,2)
def canon(name,args):
    args=list(args)
    ij=(0,1) if name.startswith('mul_div') else SYMM.get(name)
    if ij and len(args)>ij[1]:
        i,j=ij; x,y=args[i],args[j]
        if x.op in('min','max') and y.op in('min','max') and x.op!=y.op and x.a==y.a: args[i],args[j]=x.a[2],x.a[3]   # max*min is the plain product
        args[i],args[j]=sorted((args[i],args[j]),key=skey)
    return args
def fld(t,f):
    if f=='0' and t.op=='k' and t.a[1]>=128: return T('agg','arr','',(),tuple(K(t.a[0]>>(64*i),64) for i in range(t.a[1]//64)))
    o=t.op
    if o=='agg':
        n=t.a[2]
        if f in n: return t.a[3][n.index(f)]
        return T('fld',t,f)
    if o=='rec':
        for k,v in t.a[1]:
            if k==f: return v
        return fld(t.a[0],f)
    if o=='ite': return ite(t.a[0],fld(t.a[1],f),fld(t.a[2],f))
    if o=='slice' and f in('start','len'): return t.a[1] if f=='start' else t.a[2]
    if o in('undef','ref'): return t       # field of a Box = the pointer itself
    return T('fld',t,f)
def setfld(t,f,v):
    if t.op=='agg' and f in t.a[2]:
        i=t.a[2].index(f); l=list(t.a[3]); l[i]=v
        return mkagg(t.a[0],t.a[1],t.a[2],l)
    if t.op=='ite':
        return ite(t.a[0],setfld(t.a[1],f,v),setfld(t.a[2],f,v))
    return mkrec(t,{f:v})
def down(t,var):
    """downcast to enum variant: branches of other variants are impossible here"""
    if t.op=='ite':
        a,b=down(t.a[1],var),down(t.a[2],var)
        if a is None: return b
        if b is None: return a
        return ite(t.a[0],a,b)
    if t.op=='agg':
        return t if t.a[1]==var else None
    return T('down',t,var)
def discr(t,vmap):
    """vmap: variant name -> discriminant int"""
    if t.op=='agg': return K(vmap.get(t.a[1],0),64)
    if t.op=='ite': return ite(t.a[0],discr(t.a[1],vmap),discr(t.a[2],vmap))
    return T('discr',t)

def idx(t,i):
    if t.op=='agg' and t.a[0]=='arr' and isk(i):
        n=kv(i)
        if n<len(t.a[3]): return t.a[3][n]
    if t.op=='rep':
        return t.a[0]
    if t.op=='ite': return ite(t.a[0],idx(t.a[1],i),idx(t.a[2],i))
    if t.op=='upd':
        if t.a[1] is i: return t.a[2]
        if isk(i) and isk(t.a[1]): return idx(t.a[0],i)
    return T('idx',t,i)

# ---------------------------------------------------------------- printing
def show(t,d=8):
    if not isinstance(t,Term): return str(t)
    o,a=t.op,t.a
    if d<=0: return '..'
    r=lambda x: show(x,d-1)
    if o=='k':
        n,w=a
        return str(sgn(n,w)) if w>1 and n>=(1<<(w-1)) and n>(1<<w)-(1<<20) else (['false','true'][n] if w==1 else str(n))
    if o=='lin':
        w,c,ps=a; s=[]
        for x,v in ps:
            v=sgn(v,w)
            s.append(('%+d*'%v if abs(v)!=1 else '+' if v>0 else '-')+r(x))
        if c: s.append('%+d'%sgn(c,w))
        return '('+''.join(s).lstrip('+')+')'
    if o=='fld': return r(a[0])+'.'+str(a[1])
    if o=='ite': return 'if(%s ? %s : %s)'%(r(a[0]),r(a[1]),r(a[2]))
    if o=='not': return '!'+r(a[0])
    if o=='lt': return '(%s <%s %s)'%(r(a[2]),a[0],r(a[3]))
    if o=='eq': return '(%s == %s)'%(r(a[1]),r(a[2]))
    if o=='eqk': return '(%s == %s)'%(r(a[0]),r(a[1]))
    if o in('min','max'): return '%s(%s,%s)'%(o,r(a[2]),r(a[3]))
    if o=='acct': return '@'+('.'.join(map(str,[show(x,d-1) if isinstance(x,Term) else x for x in a])))
    if o=='key': return 'key(%s)'%r(a[0])
    if o=='data': return '%s<%s>'%(r(a[0]),a[1])
    if o=='agg': return '%s%s{%s}'%(str(a[0]).split('::')[-1],('::'+str(a[1])) if a[1] not in(None,'') else '',', '.join('%s:%s'%(n,r(v)) for n,v in zip(a[2] or range(len(a[3])),a[3])))
    if o=='rec': return '%s{..%s}'%(r(a[0]),', '.join('%s:%s'%(n,r(v)) for n,v in a[1]))
    if o=='call': return '%s(%s)'%(a[0],', '.join(r(x) if isinstance(x,Term) else str(x) for x in a[1:]))
    if o=='ext_': return '%sext%d(%s)'%(a[0],a[2],r(a[3]))
    if o=='trunc': return 'trunc%d(%s)'%(a[1],r(a[2]))
    if o=='str': return repr(a[0])
    return '%s(%s)'%(o,', '.join(r(x) if isinstance(x,Term) else (str(x) if not isinstance(x,tuple) else '('+', '.join(r(y) if isinstance(y,Term) else str(y) for y in x)+')') for x in a))

# ---------------------------------------------------------------- rebuilding under assumptions
def rebuild(t,f):
    """apply f to the term children and rebuild through the normalising constructors"""
    o,a=t.op,t.a
    if o in('k','str','bytes','unit','phi','ext','acct0','undef'): return t
    if o=='ite': return ite(f(a[0]),f(a[1]),f(a[2]))
    if o=='not': return not_(f(a[0]))
    if o=='lin':
        w=a[0]; r=K(a[1],w)
        for x,v in a[2]: r=add(r,scale(f(x),v,w),w)
        return r
    if o=='mul': return mul(f(a[1]),f(a[2]),a[0])
    if o=='div': return div(f(a[2]),f(a[3]),a[1],a[0]=='s')
    if o=='rem': return rem(f(a[2]),f(a[3]),a[1],a[0]=='s')
    if o=='shl': return shl(f(a[1]),f(a[2]),a[0])
    if o=='shr': return shr(f(a[2]),f(a[3]),a[1],a[0]=='s')
    if o=='eq': return eqv(f(a[1]),f(a[2]),a[0])
    if o=='eqk': return eqv(f(a[0]),f(a[1]))
    if o=='lt': return lt(f(a[2]),f(a[3]),a[1],a[0]=='s')
    if o in('min','max'):
        return minmax(o,a[0],a[1],f(a[2]),f(a[3]))
    if o=='fld': return fld(f(a[0]),a[1])
    if o=='rec': return mkrec(f(a[0]),{k:f(v) for k,v in a[1]})
    if o=='agg': return mkagg(a[0],a[1],a[2],[f(v) for v in a[3]])
    if o=='idx': return idx(f(a[0]),f(a[1]))
    if o=='down':
        r=down(f(a[0]),a[1]); return r if r is not None else T('undef')
    if o=='ext_': return cast(f(a[3]),a[1],a[0]=='s',a[2])
    if o=='trunc': return cast(f(a[2]),a[0],False,a[1])
    def g(x):
        if isinstance(x,Term): return f(x)
        if isinstance(x,tuple): return tuple(g(y) for y in x)
        return x
    a=[g(x) for x in a]
    # commutative operations keep their operands in canonical order
    if o=='call' and isinstance(a[0],str):
        a[1:]=canon(a[0],a[1:])
        if a[0]=='add_delta':                                               # decided by C22
            if isk(a[2]) and kv(a[2])==0: return a[1]
            if isk(a[1]) and kv(a[1])==0: return a[2]
    elif o=='ok' and len(a)==1 and t.a[0].op=='call' and t.a[0].a[0]=='add_delta':
        x,d=f(t.a[0].a[1]),f(t.a[0].a[2])
        if isk(d) and kv(d)==0: return TRUE
        if isk(x) and kv(x)==0: return not_(lt(d,K(0,64),64,True))
        return T('ok',T('call',*t.a[0].a[:1],*canon('add_delta',[x,d])))      # the value is known, that it exists is not
    elif o=='ovf' and a[0]=='add' and a[1]=='u': return carry(a[3],a[4],a[2])
    elif o=='ovf' and a[0] in('add','mul'): a[3:5]=sorted(a[3:5],key=skey)
    elif o in('and','or','xor') and len(a)==3 and isinstance(a[0],int):
        return {'and':band,'or':bor,'xor':bxor}[o](a[1],a[2],a[0])
    return T(o,*a)

def children(t):
    def walk(x):
        if isinstance(x,Term): yield x
        elif isinstance(x,tuple):
            for y in x: yield from walk(y)
    for x in t.a: yield from walk(x)
def subterms(t):
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        st.extend(children(x))
def subst(t,m):
    memo={}
    def f(x):
        if x in m: return m[x]
        r=memo.get(x.id)
        if r is None:
            r=rebuild(x,f); memo[x.id]=r
        return r
    return f(t)

# ---------------------------------------------------------------- facts
class Facts:
    """conjunction of boolean terms with unit propagation"""
    __slots__=('lit','pend','bad','memo','bnd','eqs','dead')
    def __init__(s,facts=()):
        s.lit={}; s.pend=[]; s.dead=set(); s.bad=False; s.memo={}; s.bnd={}; s.eqs={}
        s.assume_all(facts)
    def copy(s):
        n=Facts.__new__(Facts); n.lit=dict(s.lit); n.dead=set(s.dead); n.pend=list(s.pend); n.bad=s.bad; n.memo={}; n.bnd=dict(s.bnd); n.eqs=dict(s.eqs)
        return n
    # -- value of an atom under the facts
    def val(s,t):
        v=s.lit.get(t)
        if v is not None: return v
        o=t.op
        if o=='lt':
            sg,w,a,b=t.a
            if isk(b):
                lo,hi,ne=s.range(a,w,sg)
                c=sgn(kv(b),w) if sg=='s' else kv(b)
                if hi<c: return True
                if lo>=c: return False
            if s.lit.get(T('lt',sg,w,b,a)): return False
            e=s.lit.get(eqv(a,b,w))
            if e: return False
            # constants on both sides known through ranges
            la,ha,_=s.range(a,w,sg); lb,hb,_=s.range(b,w,sg)
            if ha<lb: return True
            if la>=hb: return False
            # one-step transitivity
            for (sg2,w2,x,y) in s.lts(a,sg,w):
                if y is b: return True
                if s.lit.get(T('lt',sg,w,b,y)) is False and y is not b: return True   # a<y<=b
            for (x) in s.les(a,sg,w):                      # a<=x
                if s.lit.get(T('lt',sg,w,x,b)): return True
            # falsity: b<=a through one step
            for y in s.les(b,sg,w):                        # b<=y
                if s.lit.get(T('lt',sg,w,a,y)) is False or y is a: return False
                if s.lit.get(T('lt',sg,w,y,a)): return False
            if sg=='u' and s.wsum(a,b,w): return False
        elif o=='eq':
            w,a,b=t.a
            if isk(b):
                for sg in('u','s'):
                    lo,hi,ne=s.range(a,w,sg)
                    c=sgn(kv(b),w) if sg=='s' else kv(b)
                    if c<lo or c>hi: return False
                    if lo==hi==c: return True
                if a.op=='lin':
                    # x-y==0 with x<y known
                    ps=a.a[2]
                    if len(ps)==2 and a.a[1]==0 and kv(b)==0 and {ps[0][1],ps[1][1]}=={1,(1<<w)-1}:
                        x,y=ps[0][0],ps[1][0]
                        for sg in('u','s'):
                            if s.lit.get(T('lt',sg,w,x,y)) or s.lit.get(T('lt',sg,w,y,x)): return False
                            if s.lit.get(T('lt',sg,w,x,y)) is False and s.lit.get(T('lt',sg,w,y,x)) is False: return True
        elif o=='ovf' and t.a[0]=='add' and t.a[1]=='u':
            w=t.a[2]
            if s.range(t.a[3],w,'u')[1]+s.range(t.a[4],w,'u')[1]<1<<w: return False
            for y,z in(t.a[3:],t.a[:2:-1]):
                for k,v in s.lit.items():
                    if v is False and k.op=='lt' and k.a[3] is z and k.a[0]=='u' and k.a[1]==w and k.a[2].op=='lin' and any(p is y and n==(1<<w)-1 for p,n in k.a[2].a[2]) and s.notlt(add(k.a[2],y,w),y,w): return False
        elif o=='ovf' and t.a[0] in('add','sub') and t.a[1]=='s':
            # x-y overflows exactly where x+(-y) does, unless y is the smallest number
            op,_,w,x,y=t.a
            for p,q in((x,y),(y,x)) if op=='add' else ((x,y),):
                n=neg(q,w)
                v=s.lit.get(T('ovf','sub','s',w,p,n) if op=='add' else T('ovf','add','s',w,*sorted((p,n),key=skey)))
                if v is not None and (s.range(q,w,'s')[0]>-(1<<(w-1)) or s.range(n,w,'s')[0]>-(1<<(w-1))): return v
        return None
    def wsum(s,a,b,w):
        """a<b refuted: y<=x and z<=x-y together say the same as: y+z fits and y+z<=x"""
        if b.op=='lin':
            for k,v in s.lit.items():
                if v is False and k.op=='lt' and k.a[0]=='u' and k.a[1]==w and k.a[2].op=='lin':
                    y=sub(b,k.a[3],w)
                    if add(k.a[2],y,w) is a and s.notlt(a,y,w): return True
        if a.op=='lin':
            for y,n in a.a[2]:
                if n==(1<<w)-1 and s.lit.get(carry(y,b,w)) is False and s.notlt(add(a,y,w),add(y,b,w),w): return True
        for q in [k.a[3] for k,v in s.lit.items() if v is False and k.op=='lt' and k.a[2] is a and k.a[0]=='u' and k.a[1]==w and k.a[3].op=='lin']:
            if s.lit.get(carry(b,sub(q,b,w),w)) is False: return True
        return False
    def notlt(s,a,b,w):
        t=lt(a,b,w,False)
        return t is FALSE or s.lit.get(t) is False or t.op=='not' and s.lit.get(t.a[0]) is True
    def lts(s,a,sg,w):
        return [k.a for k,v in s.lit.items() if v and k.op=='lt' and k.a[2] is a and k.a[0]==sg and k.a[1]==w]
    def les(s,a,sg,w):
        r=[k.a[2] for k,v in s.lit.items() if v is False and k.op=='lt' and k.a[3] is a and k.a[0]==sg and k.a[1]==w]
        r+=[k.a[3] for k,v in s.lit.items() if v and k.op=='lt' and k.a[2] is a and k.a[0]==sg and k.a[1]==w]
        return r
    def range(s,a,w,sg):
        r=s.bnd.get((a,w,sg))
        if r: return r
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if sg=='s' else (0,(1<<w)-1)
        if isk(a):
            c=sgn(kv(a),w) if sg=='s' else kv(a); return (c,c,())
        if a.op=='ext_':
            w0=a.a[1]
            if a.a[0]=='z': lo,hi=max(lo,0),min(hi,(1<<w0)-1)
            elif sg=='s': lo,hi=-(1<<(w0-1)),(1<<(w0-1))-1
        elif a.op=='rem' and isk(a.a[3]) and a.a[0]=='u' and sg=='u':
            hi=min(hi,kv(a.a[3])-1)
        elif sg=='s' and a.op=='lin':
            n=minus(a,w)
            if n is not None:
                l,h,_=s.range(n,w,'s')
                if l>lo: lo,hi=-h,-l
        if a.op=='lin' and a.a[1]==0 and len(a.a[2])==2 and a.a[2][0][1]==1==a.a[2][1][1]:
            p,q=a.a[2][0][0],a.a[2][1][0]
            if s.lit.get(T('ovf','add',sg,w,*sorted((p,q),key=skey))) is False:
                (l,h,_),(l2,h2,_)=s.range(p,w,sg),s.range(q,w,sg)
                lo,hi=max(lo,l+l2),min(hi,h+h2)
            elif sg=='u' and s.lit.get(T('ovf','add','s',w,*sorted((p,q),key=skey))) is False and min(s.range(p,w,'s')[0],s.range(q,w,'s')[0])>=0:
                hi=min(hi,(1<<(w-1))-1)
        return (lo,hi,())
    def _bound(s,a,w,sg,lo=None,hi=None):
        l,h,n=s.range(a,w,sg)
        if lo is not None and lo>l: l=lo
        if hi is not None and hi<h: h=hi
        s.bnd[(a,w,sg)]=(l,h,n)
        if l>h: s.bad=True; return
        # a range inside the non-negative half reads the same under both signs
        if l>=0 and h<(1<<(w-1)):
            o='u' if sg=='s' else 's'
            l2,h2,n2=s.range(a,w,o)
            if l>l2 or h<h2:
                s.bnd[(a,w,o)]=(max(l,l2),min(h,h2),n2)
                if max(l,l2)>min(h,h2): s.bad=True
    def simp(s,t):
        m=s.memo
        r=m.get(t)
        if r is not None: return r
        r=s._simp(t)
        m[t]=r
        return r
    def _simp(s,t):
        o=t.op
        if o in('k','str','bytes','unit','phi','ext') or (o in('acct','key','data') and len(t.a)<2 and not(isT(t.a[0]) and t.a[0].op=='acct' and len(t.a[0].a)>1)) or (o=='data' and len(t.a[0].a)<2):
            if o=='phi' and t in s.lit: return TRUE if s.lit[t] else FALSE
            return s.eqs.get(t,t) if s.eqs else t
        if o=='ite':
            c=s.simp(t.a[0])
            if c is TRUE: return s.simp(t.a[1])
            if c is FALSE: return s.simp(t.a[2])
            return ite(c,s.simp(t.a[1]),s.simp(t.a[2]))
        r=rebuild(t,s.simp)
        if r is not t and r.op=='ite': return s.simp(r)
        if s.eqs and r in s.eqs: return s.eqs[r]
        if r.op in('lt','eq','eqk','fld','call','ok','not','isw','flag','arg','discr','ovf','typed','signer','idx','ext','gate'):
            if r.op=='not':
                v=s.val(r.a[0]); v=None if v is None else (not v)
            else: v=s.val(r)
            if v is True: return TRUE
            if v is False: return FALSE
        if r.op in('min','max'):
            sg,w,x,y=r.a
            if isk(x) or isk(y):
                lx,hx,_=s.range(x,w,sg); ly,hy,_=s.range(y,w,sg)
                if hx<=ly: return x if r.op=='min' else y
                if hy<=lx: return y if r.op=='min' else x
            v=s.val(T('lt',sg,w,x,y)) if not(isk(x) or isk(y)) else None
            v2=s.val(T('lt',sg,w,y,x)) if v is None and not(isk(x) or isk(y)) else None
            if v is not None or v2 is not None:
                xl = v if v is not None else (not v2)
                return (x if xl else y) if r.op=='min' else (y if xl else x)
        return r
    def assume_all(s,fs):
        for f in fs: s.assume(f)
    def assume(s,f):
        work=[f]
        while work and not s.bad:
            f=work.pop()
            f=f[0] if isinstance(f,tuple) else s.simp(f)
            if f is TRUE: continue
            if f is FALSE: s.bad=True; return
            o=f.op
            if o=='ite':
                c,a,b=f.a
                if b is FALSE: work+= [a,c]; continue
                if a is FALSE: work+= [b,not_(c)]; continue
                s.pend.append(f); continue
            at,v=(f.a[0],False) if o=='not' else (f,True)
            s.lit[at]=v; s.memo={}
            if at.op=='lt':
                sg,w,a,b=at.a
                if isk(b):
                    c=sgn(kv(b),w) if sg=='s' else kv(b)
                    s._bound(a,w,sg,hi=c-1) if v else s._bound(a,w,sg,lo=c)
                else:
                    la,ha,_=s.range(a,w,sg); lb,hb,_=s.range(b,w,sg)
                    if v:
                        s._bound(a,w,sg,hi=hb-1); s._bound(b,w,sg,lo=la+1)
                    else:
                        s._bound(a,w,sg,lo=lb); s._bound(b,w,sg,hi=ha)
                        if s.lit.get(T('lt',sg,w,b,a)) is False: work.append((eqv(a,b,w),))
                        elif s.lit.get(eqv(a,b,w)) is False and T('lt',sg,w,b,a) not in s.lit: work.append((T('lt',sg,w,b,a),))
            elif at.op=='eq' and isk(at.a[2]):
                w=at.a[0]
                if not v and at.a[1].op=='lin':          # different, and one not above the other
                    for k in [k for k,x in s.lit.items() if x is False and k.op=='lt' and k.a[1]==w and T('lt',k.a[0],w,k.a[3],k.a[2]) not in s.lit and eqv(k.a[2],k.a[3],w) is at]: work.append((T('lt',k.a[0],w,k.a[3],k.a[2]),))
                if v:
                    for sg in('u','s'):
                        c=sgn(kv(at.a[2]),w) if sg=='s' else kv(at.a[2])
                        s._bound(at.a[1],w,sg,lo=c,hi=c)
                    a=at.a[1]
                    if a.op=='lin':
                        # solve for one atom: x = k - rest
                        for x,cf in a.a[2]:
                            if cf in(1,(1<<w)-1) and x.op!='phi' and x.op!='ite':
                                rest=sub(a,scale(x,cf,w),w)
                                val=sub(at.a[2],rest,w)
                                if cf!=1: val=neg(val,w)
                                if x not in list(subterms(val)):
                                    s.eqs[x]=val; break
                    else: s.eqs[a]=at.a[2]
                else:
                    for sg in('u','s'):
                        c=sgn(kv(at.a[2]),w) if sg=='s' else kv(at.a[2])
                        l,h,_=s.range(at.a[1],w,sg)
                        if l==c: s._bound(at.a[1],w,sg,lo=c+1)
                        if h==c: s._bound(at.a[1],w,sg,hi=c-1)
            elif at.op=='eqk' and v:
                x,y=at.a
                if x.op in('str','bytes','pda','call') : x,y=y,x
                xs=skey(x)
                # orient: replace the structurally larger term by the other
                if tsize(x)<tsize(y) and x not in set(subterms(y)): pass
                if y not in set(subterms(x)): s.eqs[y]=s.eqs.get(x,x)
                elif x not in set(subterms(y)): s.eqs[x]=s.eqs.get(y,y)
                s.eqs={k:v2 for k,v2 in s.eqs.items()}
            s.memo={}
            # re-examine pending disjunctions
            p=s.pend; s.pend=[]
            for q in p:
                q2=s.simp(q)
                if q2 is q: s.pend.append(q)
                else: work.append(q2)
    def holds(s,t):
        return s.simp(t) is TRUE
    def refresh(s):
        """re-simplify the literals under what was learned since they were recorded; True if anything new came out"""
        new=False
        for at,v in list(s.lit.items()):
            if s.bad: return True
            if at.op in('unit','k'): continue
            if v and at.op=='lt' and at.a[0]=='u' and s.wsum(at.a[2],at.a[3],at.a[1]): s.bad=True; return True
            r=rebuild(at,s.simp)
            if r is at: continue
            if r in s.lit:
                if s.lit[r]!=v: s.bad=True; return True
                continue
            if r.op=='k':
                if bool(r.a[0])!=v: s.bad=True; return True
                continue
            del s.lit[at]
            s.assume(r if v else not_(r)); new=True
        return new

_szm={}
def tsize(t):
    r=t._sz
    if r is None:
        r=1+sum(tsize(c) for c in children(t))
        if r>10**9: r=10**9
        t._sz=r
    return r

def gates(t,limit=4000):
    """atoms used as ite conditions in t, outermost first"""
    seen=set(); out=[]; q=[t]; n=0
    while q and n<limit:
        x=q.pop(0); n+=1
        if x.id in seen: continue
        seen.add(x.id)
        if x.op=='ite':
            c=x.a[0]
            if c.op=='not': c=c.a[0]
            if c not in out: out.append(c)
        q.extend(children(x))
    return out

_gm={}
def gated(t):
    r=_gm.get(t.id)
    if r is None:
        r=t.op=='ite' or any(gated(c) for c in children(t)); _gm[t.id]=r
    return r
class Budget(Exception): pass

LEAF=[]                  # debugging: where the last failing proof got stuck
def prove(goal,facts,budget=4000,extra=()):
    """True iff facts (Facts or iterable) imply goal; splits on gates."""
    F=facts.copy() if isinstance(facts,Facts) else Facts(facts)
    for e in extra: F.assume(e)
    cnt=[budget]; inner=False
    def go(F,goal,d,fresh=False):
        if F.bad: return True
        g=F.simp(goal)
        if g is TRUE: return True
        cnt[0]-=1
        if cnt[0]<0: raise Budget()
        # choose split
        if g is FALSE:
            cand=[]
        else:
            gg=g.a[0] if g.op=='not' else g
            cand=gates(g)
            if not cand and gg.op=='eq': cand=gates(gg)
        rel=None
        if not cand:
            # facts recorded earlier may say more under what is assumed by now
            if not fresh and F.refresh(): return go(F,goal,d,True)
            # disjunctive facts and gated literals: those sharing most with the goal first
            gs=set(x.id for x in subterms(g) if x.op!='k') if g is not FALSE else None
            best=None
            for p in F.pend:
                sc=len([1 for x in subterms(p) if gs is not None and x.id in gs])
                if best is None or sc>best[0]: best=(sc,p.a[0])
            if gs is not None:
                for at in F.lit:
                    if at.op in('lt','eq','eqk') and gated(at) and at not in F.dead:
                        sc=len([1 for x in subterms(at) if x.id in gs])
                        if sc>=2 and(best is None or sc>best[0]):
                            q=[y for y in gates(at) if not isk(F.simp(y))]
                            if q: best=(sc,q[0])
                            else: F.dead.add(at)
            if best is None: LEAF[:]=[g,F]; return False
            c=best[1]; c=c.a[0] if c.op=='not' else c
            cand=[c]
            if d>24: LEAF[:]=[g,F]; return False
        c=cand[0]
        for _ in range(8):            # a gate that has gates itself: those first
            if not inner or not gated(c): break
            c=next(x for x in gates(c))
        for v in(True,False):
            F2=F.copy(); F2.assume(c if v else not_(c))
            if not go(F2,g,d+1): return False
        return True
    try:
        if go(F,goal,0): return True
    except Budget: pass
    if goal is FALSE: return False
    cnt[0]=budget; inner=True
    try: return go(F,goal,0)
    except Budget: return False

def equiv(a,b,facts=(),w=None):
    if a is b: return True
    return prove(eqt(a,b,w),facts)
def eqt(a,b,w=None):
    """equality as a boolean term for any two terms"""
    if a is b: return TRUE
    if w: return eqv(a,b,w)
    ww=wof(a) or wof(b)
    if a.op=='ite': return ite(a.a[0],eqt(a.a[1],b),eqt(a.a[2],b))
    if b.op=='ite': return ite(b.a[0],eqt(a,b.a[1]),eqt(a,b.a[2]))
    if ww: return eqv(a,b,ww)
    return eqv(a,b)
