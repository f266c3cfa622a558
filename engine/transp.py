"""C19: matrix transposition (fflas/fflas_transpose.h), element-wise contracts over the IR of /repo's templates."""
from perms import *
from perms import LA as _PL
LA=ALib(); LA.regex+=_PL.regex
def vsize(c):
    d=c.ex.fdem; e=esz_of(d if 'Modular' in d or 'ZRing' in d else d)
    if 'NoSimd' in d: return 1
    m=re.search(r'Simd(\d+)_impl<\w+, \w+, \w+, (\d+)>',d)
    return int(m.group(1))//8//int(m.group(2)) if m else 1
def transposed(B1,A,m,n,cond=None):
    """B1[j][i]=A[i][j] for 0<=i<m, 0<=j<n (and cond)"""
    j,i=R2-B1.b[0],C2-B1.b[1]; x=sel(B1.a,R2,C2)
    g=z3.And(0<=i,i<m,0<=j,j<n); g=z3.And(g,cond(i,j)) if cond else g
    return z3.ForAll([R2,C2],z3.Implies(g,x==A(i,j)),patterns=[x])
class BT(AContract):
    """vs x vs block transposition; vs is the vector length of the instantiation being called"""
BTN='FFLAS::BlockTransposeSIMD'
def vs_of_dem(d):
    m=re.search(r'transpose<(\d+)ul',d)
    return int(m.group(1))
def bt_con():
    for vs in (1,2,4,8,16):
        W=lambda c,vs=vs:(Poly.c(vs),Poly.c(vs))
        k=LA.con(BTN,'T:F F:F A:A lda:ld B:A ldb:ld',pre=NIL,mods={'B':lambda c,r,q,vs=vs:z3.And(0<=r,r<vs,0<=q,q<vs)},
           post=lambda c,vs=vs:[(f'{vs} x {vs} block transposed',transposed(c.new['B'],c.old['A'],z3.IntVal(vs),z3.IntVal(vs)))],lds={'A':'lda','B':'ldb'},shape={'A':W,'B':W},sizes={'A':W,'B':W},props=('C19',),dem=r'9transposeILm%dE'%vs)
bt_con()
winA=lambda c:(c.a['m'],c.a['n']); winB=lambda c:(c.a['n'],c.a['m'])
inB=lambda c,r,q: z3.And(0<=r,r<c.v('n'),0<=q,q<c.v('m'))
def ni_inv(c,lc):
    A,B=c.old['A'],c.old['B']; m,n_=c.v('m'),c.v('n'); out=[]
    vs=vsize(c); bs=int(re.search(r'not_inplace<(\d+)ul',c.ex.fdem).group(1))
    li=z(udiv(c.a['m'],Poly.c(vs))*vs); lj=z(udiv(c.a['n'],Poly.c(vs))*vs)
    ov=[z(x[0]) for x in c.ex.loops if x]   # outer induction variables, outermost first
    d=len(ov)
    def nest(vs_,first):
        """region already processed by a loop nest whose variables walk rows/columns alternately in blocks"""
        def cond(i,j):
            p,q=(i,j) if first==0 else (j,i)
            dis=[]; 
            v=list(vs_)
            if len(v)>=1: dis.append(p<v[0])
            if len(v)>=2: dis.append(z3.And(p<v[0]+bs,q<v[1]))
            if len(v)>=3: dis.append(z3.And(p<v[2],q<v[1]+bs))
            if len(v)>=4: dis.append(z3.And(p<v[2]+vs,q<v[3]))
            return z3.Or(*dis)
        return cond
    for n in lc.ints:
        if n=='$k' and len(lc.ints)>1: continue
        for first in (0,1):
            out.append(Cand(f'blocks before {n} transposed (depth {d})',lambda V,S,n=n,first=first: transposed(cur(S,B),A,li,lj,nest(ov+[z(V[n])],first)),quant=True,req=True))
        out.append(Cand(f'columns before {n} done',lambda V,S,n=n: transposed(cur(S,B),A,li,z(V[n])),quant=True,req=True))
        out.append(Cand(f'rows before {n} done',lambda V,S,n=n: transposed(cur(S,B),A,z(V[n]),n_),quant=True,req=True))
    return out
NI=LA.con('FFLAS::_ftranspose_impl::not_inplace','F:F BTS:F m:n n:n A:A lda:ld B:A ldb:ld',pre=NIL,mods={'B':inB},
   post=lambda c:[('B[j,i]=A[i,j]',transposed(c.new['B'],c.old['A'],c.v('m'),c.v('n')))],invs=ni_inv,lds={'A':'lda','B':'ldb'},shape={'A':winA,'B':winB},sizes={'A':winA,'B':winB},props=('C19',))
LA.con('FFLAS::ftranspose','F:F m:n n:n A:A lda:ld B:A ldb:ld',pre=NIL,mods={'B':inB},post=NI.post,lds=NI.lds,shape=NI.shape,sizes=NI.sizes,props=('C19',))
NI.nounroll=True
class FInit:
    """finit on an element block: the m x n window holds unspecified elements afterwards"""
    trusted=False; name='FFLAS::finit'; params=[]; props=('C07',)
    def apply(s,ex,st,args,I,dem):
        ps=[a for a in args if isinstance(a,Ptr) and isinstance(st.mem.get(a.obj),ZArr)]; ints=[a for a in args if isinstance(a,Poly)]
        if len(ps)!=1 or len(ints)!=3: raise Unsupported('finit call shape')
        p=ps[0]; m,n,ld=ints; ex.retag(st,p.obj,ld); ex.idx2(st,p,m,n)
        st.mem[p.obj]=st.mem[p.obj].havoc()
        return [(st,None)]
LA.addre(r'^FFLAS::finit$',lambda m,bn,dem,g: FInit())
WSQ=lambda c:(c.a['m'],c.a['m'])
def symt(A1,A0,m,done):
    """A1[i][j]=A0[j][i] where done(i,j), else A0[i][j], for 0<=i,j<m"""
    i,j=R2-A1.b[0],C2-A1.b[1]; x=sel(A1.a,R2,C2)
    return z3.ForAll([R2,C2],z3.Implies(z3.And(0<=i,i<m,0<=j,j<m),x==z3.If(done(i,j),A0(j,i),A0(i,j))),patterns=[x])
def sq_inv(c,lc):
    A=c.old['A']; m=c.v('m'); out=[]; vs=vsize(c); bs=int(re.search(r'square_inplace<(\d+)ul',c.ex.fdem).group(1))
    ov=[z(x[0]) for x in c.ex.loops if x]; d=len(ov); And,Or=z3.And,z3.Or
    def S(*v):
        def reg(i,j):   # rows i of the strip, columns j
            r=[And(i<v[0],i<=j)]
            if len(v)>=2: r.append(And(i>=v[0],i<v[0]+bs,j>=v[0],j<v[1]))
            if len(v)>=3: r.append(And(i>=v[0],i<v[2],j>=v[1],j<v[1]+bs))
            if len(v)>=4: r.append(And(i>=v[2],i<v[2]+vs,j>=v[1],j<v[3]))
            return Or(*r)
        return lambda i,j: Or(reg(i,j),reg(j,i))
    for n in lc.ints:
        if n=='$k' and len(lc.ints)>1: continue
        out.append(Cand(f'blocks before {n} exchanged (depth {d})',lambda V,St,n=n: symt(cur(St,A),A,m,S(*ov,z(V[n]))),quant=True,req=True))
        if d==2:
            i0=z(lc.init[n])
            out.append(Cand(f'remaining rows before {n} exchanged',lambda V,St,n=n: symt(cur(St,A),A,m,lambda i,j:Or(S(*ov,i0)(i,j),And(i0<=i,i<z(V[n]),i0<=j,j<ov[1]+bs))),quant=True,req=True))
    return out
SQ=LA.con('FFLAS::_ftranspose_impl::square_inplace','F:F BTS:F m:n A:A lda:ld',pre=NIL,mods={'A':lambda c,r,q:z3.And(0<=r,r<c.v('m'),0<=q,q<c.v('m'))},
   post=lambda c:[('A[j,i]=old A[i,j]',transposed(c.new['A'],c.old['A'],c.v('m'),c.v('m')))],invs=sq_inv,lds={'A':'lda'},shape={'A':WSQ},sizes={'A':WSQ},props=('C19',),nounroll=True)
NSQ=LA.con('FFLAS::_ftranspose_impl::nonsquare_inplace_v1','F:F BTS:F m:n n:n A:A',pre=lambda c:[('m positive',c.v('m')>0),('n positive',c.v('n')>0)],mods={'A':inB},
   post=lambda c:[('B[j,i]=old A[i,j]',transposed(c.new['A'],c.old['A'],c.v('m'),c.v('n')))],lds={'A':'n'},shape={'A':winA},sizes={'A':winA},props=('C19',),exact=('A',),outlds={'A':lambda d:d['m']})
LA.con('FFLAS::ftranspose','F:F m:n n:n A:A lda:ld B:A ldb:ld',pre=NIL,mods={'B':inB},post=NI.post,lds={'A':'lda','B':'lda'},shape={'A':winA},props=('C19',),alias={'B':'A'},eqs={'n':'m','ldb':'lda'},note='in place, square')
LA.con('FFLAS::ftranspose','F:F m:n n:n A:A lda:ld B:A ldb:ld',pre=lambda c:[('m positive',c.v('m')>0),('n positive',c.v('n')>0),('not square',c.v('m')!=c.v('n'))],mods={'B':inB},post=NI.post,lds={'A':'n','B':'n'},shape={'A':winA},props=('C19',),alias={'B':'A'},eqs={'lda':'n','ldb':'m'},exact=('A',),outlds={'B':lambda d:d['m']},note='in place, not square')
