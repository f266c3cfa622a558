"""C12: permutation encodings and their application, element-wise contracts over the IR of /repo's templates.

Ghost functions (defined by recursion over the pivot sequence stored in array a at base b):
  sw(a,b,k,x)   = a[b+k] if x==k, k if x==a[b+k], x otherwise
  T(a,b,s,k,x)  : the permutation after the transpositions s, s+1, ..., k-1:   T(s,x)=x, T(k+1,x)=T(k,sw(k,x))
  D(a,b,k,e,x)  : after e-1, e-2, ..., k:                                      D(e,x)=x, D(k,x)=D(k+1,sw(k,x))
D(s,e,.) is the inverse of T(s,e,.) (lemma, proved by induction)."""
from arr import *
_T=z3.Function('T',I1,IS,IS,IS,IS,IS)
_D=z3.Function('D',I1,IS,IS,IS,IS,IS)
def T(a,*x): return _T(a,*[sm(i) if z3.is_expr(i) else z3.IntVal(i) for i in x])
def D(a,*x): return _D(a,*[sm(i) if z3.is_expr(i) else z3.IntVal(i) for i in x])
def sw(a,b,k,x): return z3.If(x==k,sel(a,b+k),z3.If(x==sel(a,b+k),k,x))
X,Y,K_,B_,S_=z3.Ints('x y k! b! s!')
AA=z3.Const('a!',I1); VV,JJ=z3.Ints('v! j!')
def T0(a,b,s): return z3.ForAll([X],T(a,b,s,s,X)==X,patterns=[T(a,b,s,s,X)])
def D0(a,b,e): return z3.ForAll([X],D(a,b,e,e,X)==X,patterns=[D(a,b,e,e,X)])
def Ts(a,b,s,k): return z3.ForAll([X],z3.Implies(k>=s,T(a,b,s,k+1,X)==T(a,b,s,k,sw(a,b,k,X))),patterns=[T(a,b,s,k+1,X)])
def Ds(a,b,e,k): return z3.ForAll([X],z3.Implies(k<e,D(a,b,k,e,X)==D(a,b,k+1,e,sw(a,b,k,X))),patterns=[D(a,b,k,e,X)])
# the permutation after k steps depends only on the entries before k (lemma, proved by induction on k below)
TFRAME=z3.ForAll([AA,JJ,VV,B_,S_,K_,X],z3.Implies(z3.And(S_<=K_,JJ>=B_+K_),T(z3.Store(AA,JJ,VV),B_,S_,K_,X)==T(AA,B_,S_,K_,X)),patterns=[T(z3.Store(AA,JJ,VV),B_,S_,K_,X)])
def rng(lo,hi,body,pat=None): return z3.ForAll([X],z3.Implies(z3.And(lo<=X,X<hi),body(X)),**(dict(patterns=[pat(X)]) if pat else {}))
def rngv(v,lo,hi,body):
    """for all lo<=x<hi: body(x), triggered by the accesses to v (quantified over the absolute index)"""
    x=X-v.b[0]; return z3.ForAll([X],z3.Implies(z3.And(lo<=x,x<hi),body(x)),patterns=[sel(v.a,X)])
def lemmas():
    """base case and inductive step of the frame lemma"""
    out=[]
    a=z3.Const('a',I1); b,s,k,j,v=z3.Ints('b s k j v'); a2=z3.Store(a,j,v)
    def pv(name,hyp,goal):
        so=z3.Solver(); so.set('timeout',20000); so.add(*hyp); so.add(z3.Not(goal)); out.append((name,so.check()==z3.unsat))
    pv('frame lemma, base case',[T0(a,b,s),T0(a2,b,s)],z3.ForAll([X],T(a2,b,s,s,X)==T(a,b,s,s,X)))
    pv('frame lemma, step',[s<=k,j>=b+k+1,z3.ForAll([X],T(a2,b,s,k,X)==T(a,b,s,k,X)),Ts(a,b,s,k),Ts(a2,b,s,k)],z3.ForAll([X],T(a2,b,s,k+1,X)==T(a,b,s,k+1,X)))
    # T(s,e,.) maps [s0,H) to itself when the pivots stay in range
    H=z3.Int('H'); R=lambda f: z3.ForAll([X],z3.Implies(z3.And(0<=X,X<H),z3.And(0<=f(X),f(X)<H)))
    pv('range lemma, step',[R(lambda x:T(a,b,s,k,x)),0<=k,k<H,0<=sel(a,b+k),sel(a,b+k)<H,s<=k,Ts(a,b,s,k)],R(lambda x:T(a,b,s,k+1,x)))
    pv('range lemma (descending), step',[R(lambda x:D(a,b,k+1,s,x)),0<=k,k<H,0<=sel(a,b+k),sel(a,b+k)<H,k<s,Ds(a,b,s,k)],R(lambda x:D(a,b,k,s,x)))
    J=lambda f: z3.ForAll([X,Y],z3.Implies(z3.And(0<=X,X<H,0<=Y,Y<H,X!=Y),f(X)!=f(Y)))
    pv('injectivity lemma, step',[R(lambda x:T(a,b,s,k,x)),J(lambda x:T(a,b,s,k,x)),0<=k,k<H,0<=sel(a,b+k),sel(a,b+k)<H,s<=k,Ts(a,b,s,k)],J(lambda x:T(a,b,s,k+1,x)))
    return out
# ------------------------------------------------------------------ library
LA=ALib()
LA.regex+= [r for r in L.regex if 'Givaro' in r[0].pattern]
class ANew:
    trusted=True; name='FFLAS::fflas_new'; params=[]
    def apply(s,ex,st,args,I,dem):
        ints=[a for a in args if isinstance(a,Poly)]
        isF=isinstance(args[0],Ptr)
        dims=(ints[:2] if len(ints)>=3 else ints[:1]) if isF else (ints[:1] if len(ints)<=2 else ints[:2])
        for d in dims: ex.obligation(st.path.le(ZERO,d) or ex.prove(st,z(d)>=0),'allocation',f'allocation size {d} may be negative')
        nmx='heap.'+(I.res or 'x')
        if re.search(r'fflas_new<unsigned long',dem): return [(st,ex.new_z(st,nmx,8,'i',None,None,dims[0] if len(dims)==1 else dims[0]*dims[1]))]
        e=esz_of(dem)
        if len(dims)==2: return [(st,ex.new_z(st,nmx,e,'m',dims[1],dims[0],dims[1]))]
        return [(st,ex.new_z(st,nmx,e,'e',None,None,dims[0]))]
LA.addre(r'^FFLAS::fflas_new$',lambda m,bn,dem,g: ANew())
class ADelete:
    trusted=True; name='FFLAS::fflas_delete'; params=[]
    def apply(s,ex,st,args,I,dem):
        for p in args:
            if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),ZArr):
                o=st.mem[p.obj]
                ex.obligation(o.fresh and not o.freed and p.off.is_zero(),'free',f'fflas_delete of {p} which is not a live fflas_new block')
                n=o.copy(); n.freed=True; st.mem[p.obj]=n
        return [(st,None)]
LA.addre(r'^FFLAS::fflas_delete$',lambda m,bn,dem,g: ADelete())
class FSwap:
    trusted=False; name='FFLAS::fswap'; params=[]; props=('C07',)
    def apply(s,ex,st,args,I,dem):
        F,n,x,ix,y,iy=args[:6]; n=P_(n)
        ex.obligation(st.path.le(ZERO,n) or ex.prove(st,z(n)>=0),'dimension',f'fswap length {n} may be negative')
        VX=ex.vec(st,x,ix,n); VY=ex.vec(st,y,iy,n)
        t=st.fork() 
        gx=lambda k: ex.vget(t,VX,k); gy=lambda k: ex.vget(t,VY,k)
        ex.vput(st,VX,n,gy); ex.vput(st,VY,n,gx)
        return [(st,None)]
LA.addre(r'^FFLAS::fswap$',lambda m,bn,dem,g: FSwap())
class FAssign:
    trusted=False; name='FFLAS::fassign'; params=[]; props=('C07',)
    def apply(s,ex,st,args,I,dem):
        ints=[a for a in args if isinstance(a,Poly)]
        for d in ints: ex.obligation(st.path.le(ZERO,d) or ex.prove(st,z(d)>=0),'dimension',f'fassign dimension {d} may be negative')
        if len(args)>=7 and isinstance(args[3],Ptr): # (F,m,n,B,ldb,A,lda): A <- B
            F,m,n,b,ldb,a,lda=args[:7]; ex.mcopy(st,a,P_(lda),b,P_(ldb),P_(m),P_(n)); return [(st,None)]
        F,n,y,iy,x,ix=args[:6]; ex.vcopy(st,x,P_(ix),y,P_(iy),P_(n),False); return [(st,None)]
LA.addre(r'^FFLAS::fassign$',lambda m,bn,dem,g: FAssign())
def cur(S,v): return v.at(S.mem[v.p.obj].a)
def pivots_ok(a,lo,hi,H): return rngv(a,lo,hi,lambda x: z3.And(0<=a(x),a(x)<H))
def isperm(a,N):
    return [('values in range',rngv(a,z3.IntVal(0),N,lambda x: z3.And(0<=a(x),a(x)<N))),
            ('injective',(lambda x,y: z3.ForAll([X,Y],z3.Implies(z3.And(0<=x,x<N,0<=y,y<N,X!=Y),sel(a.a,X)!=sel(a.a,Y)),patterns=[z3.MultiPattern(sel(a.a,X),sel(a.a,Y))]))(X-a.b[0],Y-a.b[0]))]
NIL=lambda c:[]
# ---- LAPACKPerm2MathPerm
def lp_inv(c,lc):
    m=c.old['MathP']; l=c.old['LapackP']; N=c.v('N'); out=[]
    for n in lc.ints:
        out.append(Cand(f'MathP is the identity before {n}',lambda V,S,n=n: rngv(cur(S,m),z3.IntVal(0),z(V[n]),lambda x: cur(S,m)(x)==x),quant=True,req=True))
        out.append(Cand(f'MathP is the permutation after {n} transpositions',lambda V,S,n=n: rngv(cur(S,m),z3.IntVal(0),N,lambda x: cur(S,m)(x)==T(l.a,l.b[0],0,z(V[n]),x)),
              lambda V,S,n=n:[T0(l.a,l.b[0],z3.IntVal(0)),Ts(l.a,l.b[0],z3.IntVal(0),z(V[n]))],quant=True,req=True))
    return out
LA.con('FFPACK::LAPACKPerm2MathPerm','MathP:P LapackP:P N:n',
   pre=lambda c:[('pivots below N',pivots_ok(c.old['LapackP'],z3.IntVal(0),c.v('N'),c.v('N')))],
   mods={'MathP':lambda c,x: z3.And(0<=x,x<c.v('N'))},
   post=lambda c:[('MathP describes the same permutation as the pivot sequence',rngv(c.new['MathP'],z3.IntVal(0),c.v('N'),lambda x:c.new['MathP'](x)==T(c.old['LapackP'].a,c.old['LapackP'].b[0],0,c.v('N'),x)))],
   invs=lp_inv,shape={'MathP':lambda c:(c.a['N'],),'LapackP':lambda c:(c.a['N'],)},sizes={'MathP':lambda c:(c.a['N'],),'LapackP':lambda c:(c.a['N'],)},props=('C12',))
# ---- composePermutationsMLM : MathP1 <- MathP1 . diag(I_R,P2)
def mlm_inv(c,lc):
    m=c.old['MathP1']; p=c.old['P2']; N=c.v('N'); R=c.v('R'); out=[]
    for n in lc.ints:
        for s,nm_ in ((R,'R'),(z3.IntVal(0),'0')):
            out.append(Cand(f'composition after {n}-{nm_} transpositions',lambda V,S,n=n,s=s: rng(R,N,lambda x: cur(S,m)(x)==m(R+T(p.a,p.b[0],0,z(V[n])-s,x-R)),lambda x:cur(S,m)(x)),
              lambda V,S,n=n,s=s:[T0(p.a,p.b[0],z3.IntVal(0)),Ts(p.a,p.b[0],z3.IntVal(0),z(V[n])-s)],quant=True,req=True))
        out.append(Cand('first R entries unchanged',lambda V,S: rngv(cur(S,m),z3.IntVal(0),R,lambda x: cur(S,m)(x)==m(x)),quant=True))
    return out
LA.con('FFPACK::composePermutationsMLM','MathP1:P P2:P R:n N:n',
   pre=lambda c:[('R<=N',c.v('R')<=c.v('N')),('pivots below N-R',pivots_ok(c.old['P2'],z3.IntVal(0),c.v('N')-c.v('R'),c.v('N')-c.v('R')))],
   mods={'MathP1':lambda c,x: z3.And(0<=x,x<c.v('N'))},
   post=lambda c:[('composition with diag(I_R,P2)',rngv(c.new['MathP1'],z3.IntVal(0),c.v('N'),lambda x: c.new['MathP1'](x)==z3.If(x<c.v('R'),c.old['MathP1'](x),c.old['MathP1'](c.v('R')+T(c.old['P2'].a,c.old['P2'].b[0],0,c.v('N')-c.v('R'),x-c.v('R'))))))],
   invs=mlm_inv,shape={'MathP1':lambda c:(c.a['N'],),'P2':lambda c:(c.a['N']-c.a['R'],)},sizes={'MathP1':lambda c:(c.a['N'],),'P2':lambda c:(c.a['N']-c.a['R'],)},props=('C12',))
def comp(c,x,P1,P2):
    R=c.v('R'); N=c.v('N'); t1=lambda y:T(P1.a,P1.b[0],0,N,y)
    return z3.If(x<R,t1(x),t1(R+T(P2.a,P2.b[0],0,N-R,x-R)))
def pre2(c): return [('R<=N',c.v('R')<=c.v('N')),('P1 pivots below N',pivots_ok(c.old['P1'],z3.IntVal(0),c.v('N'),c.v('N'))),('P2 pivots below N-R',pivots_ok(c.old['P2'],z3.IntVal(0),c.v('N')-c.v('R'),c.v('N')-c.v('R')))]
SH2={'P1':lambda c:(c.a['N'],),'P2':lambda c:(c.a['N']-c.a['R'],)}
def ident_inv(c,lc):
    out=[]
    m=c.old['MathP'];
    for n in lc.ints: out.append(Cand(f'identity before {n}',lambda V,S,n=n: rngv(cur(S,m),z3.IntVal(0),z(V[n]),lambda x: cur(S,m)(x)==x),quant=True,req=True))
    return out
TR=lambda a,b,N:z3.ForAll([X],z3.Implies(z3.And(0<=X,X<N),z3.And(0<=T(a,b,0,N,X),T(a,b,0,N,X)<N)),patterns=[T(a,b,0,N,X)])  # range lemma
LLM=LA.con('FFPACK::composePermutationsLLM','MathP:P P1:P P2:P R:n N:n',pre=pre2,mods={'MathP':lambda c,x: z3.And(0<=x,x<c.v('N'))},
   post=lambda c:[('MathP = P1 . diag(I_R,P2)',rngv(c.new['MathP'],z3.IntVal(0),c.v('N'),lambda x:c.new['MathP'](x)==comp(c,x,c.old['P1'],c.old['P2'])))],
   invs=ident_inv,shape=dict(SH2,MathP=lambda c:(c.a['N'],)),sizes=dict(SH2,MathP=lambda c:(c.a['N'],)),props=('C12',))
TI=lambda a,b,N:z3.ForAll([X,Y],z3.Implies(z3.And(0<=X,X<N,0<=Y,Y<N,X!=Y),T(a,b,0,N,X)!=T(a,b,0,N,Y)),patterns=[z3.MultiPattern(T(a,b,0,N,X),T(a,b,0,N,Y))])  # injectivity lemma
LEM2=lambda c:[f(p.a,p.b[0],n) for p,n in ((c.old['P1'],c.v('N')),(c.old['P2'],c.v('N')-c.v('R'))) for f in (TR,TI)]
LLM.lem=LEM2
# ---- MathPerm2LAPACKPerm
def ml_inv(c,lc):
    N=c.v('N'); m=c.old['MathP']; l=c.old['LapackP']; out=[]; Z=z3.IntVal(0)
    loc=[o for o in lc.st.mem if isinstance(lc.st.mem[o],ZArr) and lc.st.mem[o].fresh and lc.st.mem[o].sort=='i' and not lc.st.mem[o].freed]
    for n in lc.ints:
        for o in loc:
            g=lambda S,o=o: (lambda x: sel(S.mem[o].a,x))
            out.append(Cand(f'{o} identity before {n}',lambda V,S,n=n,g=g: rng(Z,z(V[n]),lambda x: g(S)(x)==x,lambda x:g(S)(x)),quant=True,req=True))
            out.append(Cand(f'{o} is the permutation of the pivots found so far',lambda V,S,n=n,g=g: rng(Z,N,lambda x: g(S)(x)==T(cur(S,l).a,l.b[0],0,z(V[n]),x),lambda x:g(S)(x)),
                 lambda V,S,n=n:[TFRAME,T0(cur(S,l).a,l.b[0],Z),Ts(cur(S,l).a,l.b[0],Z,z(V[n]))],quant=True,req=True))
            out.append(Cand(f'{o} agrees with MathP before {n}',lambda V,S,n=n,g=g: rng(Z,z(V[n]),lambda x: g(S)(x)==m(x),lambda x:g(S)(x)),quant=True))
            out.append(Cand(f'{o} in range',lambda V,S,g=g: rng(Z,N,lambda x: z3.And(0<=g(S)(x),g(S)(x)<N),lambda x:g(S)(x)),quant=True))
        out.append(Cand(f'pivots found are in range',lambda V,S,n=n: rngv(cur(S,l),Z,z(V[n]),lambda x: z3.And(0<=cur(S,l)(x),cur(S,l)(x)<N)),quant=True))
    for o in loc:
        for q in loc:
            if o==q: continue
            out.append(Cand(f'{q} inverts {o}',lambda V,S,o=o,q=q: rng(Z,N,lambda x: sel(S.mem[q].a,sel(S.mem[o].a,x))==x,lambda x:sel(S.mem[o].a,x)),quant=True))
    return out
LA.con('FFPACK::MathPerm2LAPACKPerm','LapackP:P MathP:P N:n',pre=lambda c:isperm(c.old['MathP'],c.v('N')),mods={'LapackP':lambda c,x:z3.And(0<=x,x<c.v('N'))},
   post=lambda c:[('the pivot sequence describes the permutation MathP',rng(z3.IntVal(0),c.v('N'),lambda x:T(c.new['LapackP'].a,c.new['LapackP'].b[0],0,c.v('N'),x)==c.old['MathP'](x),lambda x:T(c.new['LapackP'].a,c.new['LapackP'].b[0],0,c.v('N'),x))),
                  ('pivots below N',pivots_ok(c.new['LapackP'],z3.IntVal(0),c.v('N'),c.v('N')))],
   invs=ml_inv,shape={'MathP':lambda c:(c.a['N'],),'LapackP':lambda c:(c.a['N'],)},sizes={'MathP':lambda c:(c.a['N'],),'LapackP':lambda c:(c.a['N'],)},props=('C12',))
# ---- composePermutationsLLL
LLL=LA.con('FFPACK::composePermutationsLLL','P1:P P2:P R:n N:n',pre=pre2,mods={'P1':lambda c,x:z3.And(0<=x,x<c.v('N'))},
   post=lambda c:[('P1 = P1 . diag(I_R,P2)',rng(z3.IntVal(0),c.v('N'),lambda x:T(c.new['P1'].a,c.new['P1'].b[0],0,c.v('N'),x)==comp(c,x,c.old['P1'],c.old['P2'])))],
   shape=SH2,sizes=SH2,props=('C12',))
LLL.lem=LEM2
# ---- applyP_block
def asc(side,tr): return (side==Left)==(tr==NoTrans)
def G(c,s,e):
    p=c.old['P']
    if asc(c.a['Side'],c.a['Trans']): return lambda x: T(p.a,p.b[0],s,e,x)
    return lambda x: D(p.a,p.b[0],s,e,x)
R2,C2=z3.Ints('r c')
def permuted(c,A1,A0,g,M,H,lo=None):
    """A1 = A0 with rows (Left) or columns (Right) taken through g"""
    left=c.a['Side']==Left
    lo=z3.IntVal(0) if lo is None else lo
    r,q=R2-A1.b[0],C2-A1.b[1]; pat=[sel(A1.a,R2,C2)]; x=sel(A1.a,R2,C2)
    if left: return z3.ForAll([R2,C2],z3.Implies(z3.And(0<=r,r<H,lo<=q,q<M),x==A0(g(r),q)),patterns=pat)
    return z3.ForAll([R2,C2],z3.Implies(z3.And(lo<=r,r<M,0<=q,q<H),x==A0(r,g(q))),patterns=pat)
def outside(c,A1,A0,M,H):
    left=c.a['Side']==Left; h,w=(H,M) if left else (M,H)
    r,q=R2-A1.b[0],C2-A1.b[1]
    return z3.ForAll([R2,C2],z3.Implies(z3.Not(z3.And(0<=r,r<h,0<=q,q<w)),sel(A1.a,R2,C2)==sel(A0.a,R2,C2)),patterns=[sel(A1.a,R2,C2)])
def ap_inv(c,lc):
    A=c.old['A']; p=c.old['P']; out=[]; H=c.v('H'); M=c.v('M'); b,e=c.v('ibeg'),c.v('iend')
    for n in lc.ints:
        for sh in (0,1):
            if asc(c.a['Side'],c.a['Trans']):
                out.append(Cand(f'A permuted by the first {n}+{sh} transpositions',lambda V,S,n=n,sh=sh: permuted(c,cur(S,A),A,lambda x:T(p.a,p.b[0],b,z(V[n])+sh,x),M,H),
                   lambda V,S,n=n,sh=sh:[T0(p.a,p.b[0],b),Ts(p.a,p.b[0],b,z(V[n])+sh)],quant=True,req=True))
            else:
                out.append(Cand(f'A permuted by the last transpositions from {n}+{sh}',lambda V,S,n=n,sh=sh: permuted(c,cur(S,A),A,lambda x:D(p.a,p.b[0],z(V[n])+sh,e,x),M,H),
                   lambda V,S,n=n,sh=sh:[D0(p.a,p.b[0],e),Ds(p.a,p.b[0],e,z(V[n])+sh-1)],quant=True,req=True))
    out.append(Cand('outside untouched',lambda V,S: outside(c,cur(S,A),A,M,H),quant=True))
    return out
def apwin(c): return (c.a['H'],c.a['M']) if c.a['Side']==Left else (c.a['M'],c.a['H'])
def inwin(c,r,q):
    h,w=apwin(c); return z3.And(0<=r,r<z(h),0<=q,q<z(w))
def ghostH(c):
    o=c.old['A'].o; 
    if c.a['Side']==Left: return o.rows-c.old['A'].pb[0]
    return o.cols-c.old['A'].pb[1]
APB=LA.con('FFPACK::applyP_block','F:F Side:side Trans:trans M:n ibeg:n iend:n A:A lda:ld P:P',
   pre=lambda c:[('ibeg<=iend',c.v('ibeg')<=c.v('iend')),('iend within the permuted dimension',c.v('iend')<=c.v('H')),('pivots in range',pivots_ok(c.old['P'],c.v('ibeg'),c.v('iend'),c.v('H')))],
   mods={'A':lambda c,r,q:inwin(c,r,q)},
   post=lambda c:[('A is multiplied by exactly that permutation matrix',permuted(c,c.new['A'],c.old['A'],G(c,c.v('ibeg'),c.v('iend')),c.v('M'),c.v('H')))],
   invs=ap_inv,lds={'A':'lda'},shape={'A':apwin,'P':lambda c:(c.a['iend'],)},sizes={'A':apwin},props=('C12',))
APB.ghosts={'H':ghostH}
def ap_inv2(c,lc):
    A=c.old['A']; out=[]; H=c.v('H'); M=c.v('M'); g=G(c,c.v('ibeg'),c.v('iend')); left=c.a['Side']==Left
    for n in lc.ints:
        for f in (1,32):
            w=lambda V,n=n,f=f: z(V[n])*f
            out.append(Cand(f'blocks before {f}*{n} permuted',lambda V,S,w=w: permuted(c,cur(S,A),A,g,w(V),H),quant=True,req=True))
            rest=(lambda V,w=w: z3.And(0<=R2,R2<H,w(V)<=C2,C2<M)) if left else (lambda V,w=w: z3.And(w(V)<=R2,R2<M,0<=C2,C2<H))
            out.append(Cand(f'blocks from {f}*{n} untouched',lambda V,S,rest=rest: z3.ForAll([R2,C2],z3.Implies(rest(V),cur(S,A)(R2,C2)==A(R2,C2)),patterns=[cur(S,A)(R2,C2)]),quant=True))
    out.append(Cand('outside untouched',lambda V,S: outside(c,cur(S,A),A,M,H),quant=True))
    return out
AP=LA.con('FFPACK::applyP','F:F Side:side Trans:trans M:n ibeg:n iend:n A:A lda:ld P:P',
   pre=APB.pre,mods=APB.mods,post=APB.post,invs=ap_inv2,lds={'A':'lda'},shape=APB.shape,sizes=APB.sizes,props=('C12',))
AP.ghosts={'H':ghostH}
def ap_lem(c):
    g=G(c,c.v('ibeg'),c.v('iend')); H=c.v('H'); return [z3.ForAll([X],z3.Implies(z3.And(0<=X,X<H),z3.And(0<=g(X),g(X)<H)),patterns=[g(X)])]  # range lemma
AP.lem=ap_lem

# ---- block row / column rotations
def blocks(c,A1,A0,pieces,along,other):
    """piecewise description: pieces = [(dst,len,src)] along rows (0) or columns (1), for all 0<=other index<other"""
    r,q=R2-A1.b[0],C2-A1.b[1]; x=sel(A1.a,R2,C2); out=[]
    i,j=(r,q) if along==0 else (q,r)
    for d,l,s in pieces:
        out.append(z3.ForAll([R2,C2],z3.Implies(z3.And(0<=j,j<other,d<=i,i<d+l),x==(A0(s+(i-d),j) if along==0 else A0(j,s+(i-d)))),patterns=[x]))
    return z3.And(*out)
def piecesS(c):
    M2,R1,R2_,R3,R4=[c.v(n) for n in ('M2','R1','R2','R3','R4')]
    return [(R1+R2_,R3+R4,M2),(R1+R2_+R3+R4,M2-R1-R2_,R1+R2_)]
def piecesT(c):
    N2,R1,R2_,R3,R4=[c.v(n) for n in ('N2','R1','R2','R3','R4')]
    return [(R1,R2_,N2),(R1+R2_,R3,R1),(R1+R2_+R3,R4,N2+R2_),(R1+R2_+R3+R4,N2-R1-R3,R1+R3)]
def winS(c): return (c.a['M2']+c.a['R3']+c.a['R4'],c.a['width'])
def winT(c): return (c.a['width'],c.a['N2']+c.a['R2']+c.a['R4'])
def modS(c,r,q): return z3.And(c.v('R1')+c.v('R2')<=r,r<z(winS(c)[0]),0<=q,q<c.v('width'))
def modT(c,r,q): return z3.And(0<=r,r<c.v('width'),c.v('R1')<=q,q<z(winT(c)[1]))
preS=lambda c:[('R1+R2<=M2',c.v('R1')+c.v('R2')<=c.v('M2'))]
preT=lambda c:[('R1+R3<=N2',c.v('R1')+c.v('R3')<=c.v('N2'))]
postS=lambda c:[('rows are rotated block by block',blocks(c,c.new['A'],c.old['A'],piecesS(c),0,c.v('width')))]
postT=lambda c:[('columns are rotated block by block',blocks(c,c.new['A'],c.old['A'],piecesT(c),1,c.v('width')))]
anyw=lambda c,r,q: z3.BoolVal(True)
tS=lambda c:(c.a['M2']-c.a['R1']-c.a['R2'],c.a['width']); tT=lambda c:(c.a['width'],c.a['N2']-c.a['R1'])
for nme,dem in (('FFPACK::MatrixApplyS',None),('FFPACK::PermApplyS',None)):
    LA.con(nme,('F:F ' if 'Matrix' in nme else '')+'A:A lda:ld width:n M2:n R1:n R2:n R3:n R4:n',pre=preS,mods={'A':modS},post=postS,lds={'A':'lda'},shape={'A':winS},sizes={'A':winS},props=('C12',))
LA.con('FFPACK::doApplyS','F:F A:A lda:ld tmp:A width:n M2:n R1:n R2:n R3:n R4:n',pre=preS,mods={'A':modS,'tmp':anyw},post=postS,lds={'A':'lda','tmp':'width'},shape={'A':winS,'tmp':tS},sizes={'A':winS,'tmp':tS},props=('C12',))
def rowblock_inv(pieces,along_other):
    def inv(c,lc):
        A=c.old['A']; out=[]
        for n in lc.ints:
            out.append(Cand(f'rows before {n} done',lambda V,S,n=n: blocks(c,cur(S,A),A,pieces(c),1,z(V[n])),quant=True,req=True))
            out.append(Cand(f'rows from {n} untouched',lambda V,S,n=n: z3.ForAll([R2,C2],z3.Implies(R2-A.b[0]>=z(V[n]),sel(cur(S,A).a,R2,C2)==sel(A.a,R2,C2)),patterns=[sel(cur(S,A).a,R2,C2)]),quant=True))
        return out
    return inv
for nme in ('FFPACK::MatrixApplyT','FFPACK::PermApplyT'):
    LA.con(nme,('F:F ' if 'Matrix' in nme else '')+'A:A lda:ld width:n N2:n R1:n R2:n R3:n R4:n',pre=preT,mods={'A':modT},post=postT,lds={'A':'lda'},shape={'A':winT},sizes={'A':winT},props=('C12',))
LA.con('FFPACK::doApplyT','F:F A:A lda:ld tmp:A width:n N2:n R1:n R2:n R3:n R4:n',pre=preT,mods={'A':modT,'tmp':anyw},post=postT,invs=rowblock_inv(piecesT,0),lds={'A':'lda','tmp':lambda d:d['N2']-d['R1']},shape={'A':winT,'tmp':tT},sizes={'A':winT,'tmp':tT},props=('C12',))
# ---- cyclic shifts
def ge1(x): return z3.If(x>=1,x,1)
def pcs_row(c): m=c.v('m'); return [(z3.IntVal(0),z3.If(m>=1,1,0),m-1),(z3.IntVal(1),m-1,z3.IntVal(0))]
def pcs_col(c): n=c.v('n'); return [(z3.IntVal(0),z3.If(n>=1,1,0),n-1),(z3.IntVal(1),n-1,z3.IntVal(0))]
winC=lambda c:(c.a['m'],c.a['n'])
modC=lambda c,r,q: z3.And(0<=r,r<c.v('m'),0<=q,q<c.v('n'))
def csr_inv(c,lc):
    A=c.old['A']; m,n_=c.v('m'),c.v('n'); out=[]
    loc=[o for o in lc.st.mem if isinstance(lc.st.mem[o],ZArr) and lc.st.mem[o].fresh and not lc.st.mem[o].freed]
    for n in lc.ints:
        for o in loc:
            out.append(Cand(f'{o} holds the last row before {n}',lambda V,S,n=n,o=o: z3.ForAll([X],z3.Implies(z3.And(0<=X,X<z(V[n])),sel(S.mem[o].a,X)==A(m-1,X)),patterns=[sel(S.mem[o].a,X)]),quant=True,req=True))
        out.append(Cand(f'last {n} rows shifted',lambda V,S,n=n: z3.ForAll([R2,C2],z3.Implies(z3.And(m-z(V[n])<=R2-A.b[0],R2-A.b[0]<m,0<=C2-A.b[1],C2-A.b[1]<n_),sel(cur(S,A).a,R2,C2)==A(R2-A.b[0]-1,C2-A.b[1])),patterns=[sel(cur(S,A).a,R2,C2)]),quant=True,req=True))
        out.append(Cand(f'first m-{n} rows untouched',lambda V,S,n=n: z3.ForAll([R2,C2],z3.Implies(z3.And(R2-A.b[0]<m-z(V[n])),sel(cur(S,A).a,R2,C2)==sel(A.a,R2,C2)),patterns=[sel(cur(S,A).a,R2,C2)]),quant=True))
        out.append(Cand(f'rows below the first are final',lambda V,S,n=n: blocks(c,cur(S,A),A,pcs_row(c)[1:],0,n_),quant=True))
        out.append(Cand(f'first row done before {n}',lambda V,S,n=n: z3.ForAll([R2,C2],z3.Implies(z3.And(R2==A.b[0],0<=C2-A.b[1],C2-A.b[1]<z(V[n])),sel(cur(S,A).a,R2,C2)==A(m-1,C2-A.b[1])),patterns=[sel(cur(S,A).a,R2,C2)]),quant=True,req=True))
        out.append(Cand('iterations',lambda V,S,n=n: z(V[n])<=m-1)); out.append(Cand('iterations',lambda V,S,n=n: z(V[n])<=n_))
    return out
LA.con('FFPACK::cyclic_shift_row','F:F A:A m:n n:n lda:ld',pre=NIL,mods={'A':modC},post=lambda c:[('rows shifted down by one, last row first',blocks(c,c.new['A'],c.old['A'],pcs_row(c),0,c.v('n')))],invs=csr_inv,lds={'A':'lda'},shape={'A':winC},sizes={'A':winC},props=('C12',))
def csc_inv(c,lc):
    A=c.old['A']; m,n_=c.v('m'),c.v('n'); out=[]
    for n in lc.ints:
        out.append(Cand(f'rows before {n} shifted',lambda V,S,n=n: blocks(c,cur(S,A),A,pcs_col(c),1,z(V[n])),quant=True,req=True))
        out.append(Cand(f'rows from {n} untouched',lambda V,S,n=n: z3.ForAll([R2,C2],z3.Implies(R2-A.b[0]>=z(V[n]),sel(cur(S,A).a,R2,C2)==sel(A.a,R2,C2)),patterns=[sel(cur(S,A).a,R2,C2)]),quant=True))
        out.append(Cand('iterations',lambda V,S,n=n: z(V[n])<=m))
    return out
LA.con('FFPACK::cyclic_shift_col','F:F A:A m:n n:n lda:ld',pre=NIL,mods={'A':modC},post=lambda c:[('columns shifted right by one, last column first',blocks(c,c.new['A'],c.old['A'],pcs_col(c),1,c.v('m')))],invs=csc_inv,lds={'A':'lda'},shape={'A':winC},sizes={'A':winC},props=('C12',))
LA.con('FFPACK::cyclic_shift_mathPerm','P:P s:n',pre=lambda c:[('s>=1',c.v('s')>=1)],mods={'P':lambda c,x:z3.And(0<=x,x<c.v('s'))},
   post=lambda c:[('shifted by one, last entry first',rngv(c.new['P'],z3.IntVal(0),c.v('s'),lambda x:c.new['P'](x)==z3.If(x==0,c.old['P'](c.v('s')-1),c.old['P'](x-1))))],shape={'P':lambda c:(c.a['s'],)},sizes={'P':lambda c:(c.a['s'],)},props=('C12',))
