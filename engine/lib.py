"""The contracts."""
from contracts import *
L=Library()

# ------------------------------------------------------------------ trusted: Givaro field methods
def fieldop(m,bn,dem,g):
    cls=m.group(1); op=m.group(2)
    if op in(cls,'~'+cls,'RingInterface','~RingInterface') or op.startswith('~') or op[0].isupper() and op in('Modular','ModularBalanced','ZRing','UnparametricZRing','Modular_implem','UnparametricOperations','RingInterface'):
        return Field('ctor',bn)
    if op in FOPS: return Field(op,bn)
    return None
class Field:
    trusted=True
    def __init__(s,op,bn): s.op=op; s.name='Givaro field::'+op; s.params=[]
    def apply(s,ex,st,args,I,dem):
        op=s.op; a=args
        if op=='ctor':
            p=a[0]
            if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),Cells):
                o=st.mem[p.obj].copy(); o.lazy=True; st.mem[p.obj]=o
            return [(st,None if I.ty.k=='void' else a[0])]
        E=lambda i: ex.el_get(st,a[i]) if isinstance(a[i],(Ptr,)) else ex.as_el(a[i])
        r=FOPS[op]
        if op in('isZero','isOne','isMOne'):
            x=E(1); c={'isZero':0,'isOne':1,'isMOne':-1}[op]
            return [(st,ex.elcmp('eq',x,MT.scalar(c)))]
        if op=='areEqual': return [(st,ex.elcmp('eq',E(1),E(2)))]
        if op in('cardinality','characteristic','maxElement','minElement','maxCardinality','minCardinality','residu','size','isUnit','write','read','random','type_string'):
            return [(st,ex.fresh_of(st,I.ty,op) if I.ty.k!='void' else None)]
        if op=='init' and len(a)==2: v=MT.scalar(ZERO); 
        else:
            xs=[E(i) for i in range(1,len(a))]
            if op in('axpyin','maxpyin','axmyin'): xs=[ex.el_get(st,a[1])]+xs[1:]
            if any(x is OPQ for x in xs): v=OPQ
            else: v=r(*xs) if r else None
            if op in('inv','invin','div','divin') and not ex.trial and v is not OPQ:
                den=xs[-1].is_scalar_poly()
                if den is not None and not den.is_const():
                    ex.obligation(st.path.prove(z(den)!=0),'division',f"field division by {den} which may be zero")
                elif den is not None: ex.obligation(den.const()!=0,'division','division by zero')
        if not isinstance(a[1],Ptr): raise Unsupported('field op destination')
        ex.el_put(st,a[1],v,esz_of(dem))
        return [(st,a[1] if I.ty.k!='void' else None)]
def esz_of(dem):
    m=re.search(r'(?:ModularI|ModularBalancedI|ZRingI)([dflis])',dem)
    if m: return {'d':8,'f':4,'l':8,'i':4,'s':2}[m.group(1)]
    m=re.search(r'Modular\w*<([\w ]+)',dem) or re.search(r'Z?Ring<([\w ]+)',dem) or re.search(r'(double|float|long|int)',dem)
    t=m.group(1) if m else 'double'
    return {'double':8,'float':4,'long':8,'int':4,'unsigned int':4,'unsigned long':8,'short':2,'signed char':1}.get(t.strip(),8)
def _inv(x):
    q=x.inv_scalar()
    if q is None: raise Unsupported('inverse of '+repr(x)[:80])
    return q
FOPS={'init':lambda x,*k:x,'assign':lambda x:x,'convert':lambda x:x,'reduce':lambda x,*k:(k[0] if k else x),'neg':lambda x,y=None:-(y if y is not None else x),
 'add':None,'sub':None,'mul':None,'div':None,'addin':None,'subin':None,'mulin':None,'divin':None,'negin':None,'inv':None,'invin':None,
 'axpy':None,'axpyin':None,'maxpy':None,'maxpyin':None,'axmy':None,'axmyin':None,'isZero':None,'isOne':None,'isMOne':None,'areEqual':None,
 'cardinality':None,'characteristic':None,'maxElement':None,'minElement':None,'maxCardinality':None,'minCardinality':None,'residu':None,'size':None,'isUnit':None,'write':None,'read':None,'random':None,'type_string':None}
# first argument of the lambdas is the OLD destination for op.(dest,...) forms: xs[0] is args[1] (destination)
FOPS.update({
 'init':lambda d,x,*k:x,'assign':lambda d,x:x,'convert':lambda d,x:x,'reduce':lambda d,*k:(k[0] if k else d),'neg':lambda d,x:-x,
 'negin':lambda d:-d,'add':lambda d,x,y:x+y,'sub':lambda d,x,y:x-y,'mul':lambda d,x,y:x*y,'div':lambda d,x,y:x*_inv(y),
 'addin':lambda d,x:d+x,'subin':lambda d,x:d-x,'mulin':lambda d,x:d*x,'divin':lambda d,x:d*_inv(x),'inv':lambda d,x:_inv(x),'invin':lambda d:_inv(d),
 'axpy':lambda d,a,x,y:a*x+y,'axpyin':lambda d,a,x:d+a*x,'maxpy':lambda d,a,x,y:y-a*x,'maxpyin':lambda d,a,x:d-a*x,
 'axmy':lambda d,a,x,y:a*x-y,'axmyin':lambda d,a,x:a*x-d})
# destinations that are not read may be opaque/undefined
_NOREAD={'init','assign','convert','neg','add','sub','mul','div','inv','axpy','maxpy','axmy'}
_orig=Field.apply
def _apply(s,ex,st,args,I,dem):
    if s.op in _NOREAD or (s.op=='reduce' and len(args)>2):
        if s.op=='init' and len(args)==2: pass
        # hide destination value
        r=FOPS[s.op]
        a=args
        E=lambda i: ex.el_get(st,a[i]) if isinstance(a[i],(Ptr,)) else ex.as_el(a[i])
        if s.op=='init' and len(a)==2: v=MT.scalar(ZERO)
        else:
            xs=[E(i) for i in range(2,len(a))]
            v=OPQ if any(x is OPQ for x in xs) else r(None,*xs)
            if s.op in('inv','div') and not ex.trial and v is not OPQ:
                den=xs[-1].is_scalar_poly()
                if den is not None:
                    ok=(den.const()!=0) if den.is_const() else st.path.prove(z(den)!=0)
                    ex.obligation(ok,'division',f"field division by {den} which may be zero")
        if not isinstance(a[1],Ptr): raise Unsupported('field op destination')
        ex.el_put(st,a[1],v,esz_of(dem))
        return [(st,a[1] if I.ty.k!='void' else None)]
    return _orig(s,ex,st,args,I,dem)
Field.apply=_apply
L.addre(r'^Givaro::(Modular|ModularBalanced|Modular_implem|ModularBalanced_implem|UnparametricOperations|UnparametricZRing|ZRing|RingInterface|ModularExtended)::(~?\w+)',fieldop)
L.add('Givaro::Caster','D:ptr S:any',lambda c,D,S: caster(c,D,S),trusted=True)
def caster(c,D,S):
    v=c.ex.el_get(c.st,S) if isinstance(S,Ptr) else c.ex.as_el(S)
    c.ex.el_put(c.st,D,v); return D

# ------------------------------------------------------------------ trusted: allocation
class New:
    trusted=True; name='FFLAS::fflas_new'; params=[]
    def __init__(s,esz=None): s.e=esz
    def apply(s,ex,st,args,I,dem):
        ints=[a for a in args if isinstance(a,Poly)]
        isF=isinstance(args[0],Ptr)
        ns=ints[:-1] if len(ints)>1 and (ints[-1].is_const()) and (len(ints)==3 or (len(ints)==2)) else ints
        # signature: (F, m, [n,] align) or (m, align)
        if isF: dims=ints[:2] if len(ints)>=3 else ints[:1]
        else: dims=ints[:1] if len(ints)<=2 else ints[:2]
        size=dims[0]
        for d in dims[1:]: size=size*d
        ex.obligation(st.path.le(ZERO,size) or all(st.path.le(ZERO,d) for d in dims),'allocation',f'allocation size {size} may be negative')
        e=esz_of(dem)
        return [(st,ex.new_arr(st,'heap.'+(I.res or 'x'),e,size))]
def mknew(m,bn,dem,g):
    t=re.search(r'fflas_new<\s*([\w:\s]+?)[,>]',dem)
    return New()
L.addre(r'^FFLAS::fflas_new$',mknew)
class Delete:
    trusted=True; name='FFLAS::fflas_delete'; params=[]
    def apply(s,ex,st,args,I,dem):
        for p in args:
            if isinstance(p,Ptr):
                o=st.mem.get(p.obj)
                if isinstance(o,Arr):
                    ex.obligation(o.fresh and not o.freed and p.off.is_zero(),'free',f'fflas_delete of {p} which is not a live fflas_new block')
                    n=o.copy(); n.freed=True; n.blocks=[]; n.ld=None; n.rows=None; n.cols=None; st.mem[p.obj]=n
        return [(st,None)]
L.addre(r'^FFLAS::fflas_delete$',lambda m,bn,dem,g: Delete())

# ------------------------------------------------------------------ elementwise
def elementwise(c,m,n,wins,fn,out):
    """wins: list of (ptr,ld); out: index list of outputs; fn(terms)->list of terms"""
    c.dims(m,n)
    W=[]
    try: 
        for (p,ld) in wins: W.append(c.mat(p,ld,m,n))
    except Reshape as r:
        if c.mode=='setup': raise
        W=[c.mat(p,r.L,r.q,r.L) for (p,ld) in wins]
    T=[c.get(w) for w in W]
    res=fn(*T)
    for i,t in zip(out,res): c.put(W[i],t)
def vec(c,n,wins,fn,out): return elementwise(c,n,ONE,wins,fn,out)
def zl(t): return MT.zero(t.rows,t.cols)

def dual(name,n1,n2,fn,**k):
    """register 1-D (F n (ptr inc)*) and 2-D (F m n (ptr ld)*) versions. fn(c,m,n,**args)"""
    L.add('FFLAS::'+name,'F:F n:dim '+n1,lambda c,F,n,H=None,**a: fn(c,n,ONE,**a),props=('C07',),**k)
    L.add('FFLAS::'+name,'F:F m:dim n:dim '+n2,lambda c,F,m,n,H=None,**a: fn(c,m,n,**a),props=('C07',),**k)
def reg_elem():
    X='X:ptr incX:ld'; XY='X:ptr incX:ld Y:ptr incY:ld'; XYZ='X:ptr incX:ld Y:ptr incY:ld Z:ptr incZ:ld'
    H=' H:H?'
    def two(f): return lambda c,m,n,X,incX,Y,incY: elementwise(c,m,n,[(X,incX),(Y,incY)],f,[1])
    def one(f): return lambda c,m,n,X,incX: elementwise(c,m,n,[(X,incX)],f,[0])
    def three(f): return lambda c,m,n,X,incX,Y,incY,Z,incZ: elementwise(c,m,n,[(X,incX),(Y,incY),(Z,incZ)],f,[2])
    for nm in('freduce','finit'): 
        dual(nm,X+H,X+H,one(lambda x:[x])); dual(nm,XY+H,XY+H,two(lambda x,y:[x]))
    dual('freduce_constoverride',X,X,one(lambda x:[x]))
    dual('fassign',XY,XY,two(lambda x,y:[x])); 
    dual('fneg',XY,XY,two(lambda x,y:[-x])); dual('fnegin',X,X,one(lambda x:[-x]))
    dual('fzero',X,X,one(lambda x:[zl(x)]))
    dual('fconvert',XY,XY,lambda c,m,n,X,incX,Y,incY: elementwise(c,m,n,[(X,incX),(Y,incY)],lambda x,y:[y],[0]))
    dual('fadd',XYZ+H,XYZ+H,three(lambda x,y,w:[x+y])); dual('fsub',XYZ+H,XYZ+H,three(lambda x,y,w:[x-y]))
    dual('pfadd',XYZ+' nt:any?',XYZ+' nt:any?',three(lambda x,y,w:[x+y])); dual('pfsub',XYZ+' nt:any?',XYZ+' nt:any?',three(lambda x,y,w:[x-y]))
    dual('faddin',XY+H,XY+H,two(lambda x,y:[x+y])); dual('fsubin',XY+H,XY+H,two(lambda x,y:[y-x]))
    dual('fadd','X:ptr incX:ld alpha:el Y:ptr incY:ld Z:ptr incZ:ld','X:ptr incX:ld alpha:el Y:ptr incY:ld Z:ptr incZ:ld',
         lambda c,m,n,X,incX,alpha,Y,incY,Z,incZ: elementwise(c,m,n,[(X,incX),(Y,incY),(Z,incZ)],lambda x,y,w:[x+y.scale(alpha)],[2]))
    dual('fscalin','alpha:el '+X,'alpha:el '+X,lambda c,m,n,alpha,X,incX: elementwise(c,m,n,[(X,incX)],lambda x:[x.scale(alpha)],[0]))
    dual('fscal','alpha:el '+XY,'alpha:el '+XY,lambda c,m,n,alpha,X,incX,Y,incY: elementwise(c,m,n,[(X,incX),(Y,incY)],lambda x,y:[x.scale(alpha)],[1]))
    dual('faxpy','alpha:el '+XY,'alpha:el '+XY,lambda c,m,n,alpha,X,incX,Y,incY: elementwise(c,m,n,[(X,incX),(Y,incY)],lambda x,y:[x.scale(alpha)+y],[1]))
    dual('faxpby','alpha:el X:ptr incX:ld beta:el Y:ptr incY:ld','alpha:el X:ptr incX:ld beta:el Y:ptr incY:ld',lambda c,m,n,alpha,X,incX,beta,Y,incY: elementwise(c,m,n,[(X,incX),(Y,incY)],lambda x,y:[x.scale(alpha)+y.scale(beta)],[1]))
    dual('fswap',XY,XY,lambda c,m,n,X,incX,Y,incY: elementwise(c,m,n,[(X,incX),(Y,incY)],lambda x,y:[y,x],[0,1]))
reg_elem()
def fidentity(c,F,m,n,A,lda,d=None):
    c.dims(m,n); w=c.mat(A,lda,m,n); c.get(w)
    dv=MT.scalar(ONE) if d is None else d
    c.put(w,MT(m,n,{mono((),((ID,False,ZERO,P_(m),ZERO,P_(n)),)):ONE}).scale(dv))
L.add('FFLAS::fidentity','F:F m:dim n:dim A:ptr lda:ld',fidentity,props=('C07',))
L.add('FFLAS::fidentity','F:F m:dim n:dim A:ptr lda:ld d:el',fidentity,props=('C07',))

# ------------------------------------------------------------------ products
def op(t,tr): return t.T() if tr!=NoTrans else t
def fgemm(c,F,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc,H=None):
    c.dims(m,n,k)
    wa=c.mat(A,lda,*((m,k) if ta==NoTrans else (k,m))); wb=c.mat(B,ldb,*((k,n) if tb==NoTrans else (n,k))); wc=c.mat(C,ldc,m,n)
    a=c.get(wa); b=c.get(wb)
    cc=c.ex.get(c.st,wc) if wc is not None else MT.zero(m,n)
    t=op(a,ta).mul(op(b,tb)).scale(alpha)+cc.scale(beta)
    t.rows,t.cols=P_(m),P_(n)
    c.put(wc,t,same_ok=None)
    havoc(c,H)
    return C
def havoc(c,H):
    if isinstance(H,Ptr) and c.mode!='setup':
        o=c.st.mem.get(H.obj)
        if isinstance(o,Cells):
            n=o.copy(); n.lazy=True
            n.cells={k:v for k,v in n.cells.items() if isinstance(v[0],Ptr)}
            c.st.mem[H.obj]=n
GEMM='F:F ta:trans tb:trans m:dim n:dim k:dim alpha:el A:ptr lda:ld B:ptr ldb:ld beta:el C:ptr ldc:ld H:H?'
def nonzero(c,e,what):
    p=e.is_scalar_poly()
    if c.mode=='setup':
        if p is not None: c.st.path=c.st.path.add(z(p)!=0)
    else: c.ex.obligation(p is not None and (p.const()!=0 if p.is_const() else c.st.path.prove(z(p)!=0)),'precondition',f'{what} must be nonzero, got {e!r}'[:200])
def positive(c,d,what):
    if c.mode=='setup': c.st.path=c.st.path.add(z(P_(d))>=1)
    else: c.ex.obligation(c.st.path.le(ONE,P_(d)),'precondition',f'{what} must be at least 1, got {d}')
def fgemm_lazy(c,F,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc,H):
    nonzero(c,alpha,'alpha of a delayed-reduction product')
    return fgemm(c,F,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc,H)
def fgemm_lazy_classic(c,F,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc,H):
    positive(c,k,'inner dimension of the classical delayed product')
    return fgemm_lazy(c,F,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc,H)
L.add('FFLAS::fgemm',GEMM,fgemm_lazy_classic,props=('C01',),dem=r'MMHelperAlgo::Classic, FFLAS::ModeCategories::LazyTag')
L.add('FFLAS::fgemm',GEMM,fgemm_lazy,props=('C01',),dem=r'ModeCategories::LazyTag')
L.add('FFLAS::fgemm',GEMM,fgemm,props=('C01',))
WIN=GEMM.replace('m:dim n:dim k:dim','mr:dim nr:dim kr:dim')
def wino(beta0):
    def f(c,F,ta,tb,mr,nr,kr,alpha,A,lda,B,ldb,beta,C,ldc,H=None):
        if beta0:
            if c.mode=='setup': c.st.apply_sub({'beta':ZERO})
            else:
                pb=beta.is_scalar_poly(); c.ex.obligation(pb is not None and pb.is_zero(),'precondition','Winograd schedule without accumulation called with beta possibly nonzero')
        return fgemm(c,F,ta,tb,2*mr,2*nr,2*kr,alpha,A,lda,B,ldb,beta,C,ldc,H)
    return f
def winol(b0):
    w=wino(b0)
    def f(c,F,ta,tb,mr,nr,kr,alpha,A,lda,B,ldb,beta,C,ldc,H=None):
        nonzero(c,alpha,'alpha of a delayed-reduction product')
        return w(c,F,ta,tb,mr,nr,kr,alpha,A,lda,B,ldb,beta,C,ldc,H)
    return f
for nm,b0 in(('BLAS3::Winograd',True),('BLAS3::WinogradAcc_3_21',False),('BLAS3::WinogradAcc_3_23',False),('BLAS3::WinogradAcc_2_24',False),('BLAS3::WinogradAcc_2_27',False),('Protected::WinogradCalc',False)):
    L.add('FFLAS::'+nm,WIN,winol(b0),props=('C01',),dem='LazyTag')
L.add('FFLAS::BLAS3::Winograd',WIN,wino(True),props=('C01',))
for nm in('WinogradAcc_3_21','WinogradAcc_3_23','WinogradAcc_2_24','WinogradAcc_2_27'):
    L.add('FFLAS::BLAS3::'+nm,WIN,wino(False),props=('C01',))
L.add('FFLAS::Protected::WinogradCalc',WIN,wino(False),props=('C01',))
L.add('FFLAS::Protected::fgemm_convert',GEMM,fgemm,props=('C01',))
# ------------------------------------------------------------------ ftrsm / ftrmm
def trs(c,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,solve):
    c.dims(M,N)
    na=M if side==Left else N
    wa,T=c.tri(A,lda,na,uplo,diag); wb=c.mat(B,ldb,M,N)
    if c.mode=='setup': return
    X=c.ex.get(c.st,wb) if wb is not None else MT.zero(M,N)
    if empty(c,M,N): return
    if solve: T=c.inverse(T)
    T=op(T,trans)
    r=T.mul(X) if side==Left else X.mul(T)
    r.rows,r.cols=P_(M),P_(N)
    c.put(wb,r.scale(alpha),same_ok=None)
def empty(c,*ds):
    for d in ds:
        d=P_(d)
        if c.st.path.le(d,ZERO): return True
    return False
TRS='F:F side:side uplo:uplo trans:trans diag:diag M:dim N:dim alpha:el A:ptr lda:ld B:ptr ldb:ld H:H?'
def mk(solve):
    def f(c,F,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,H=None): trs(c,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,solve); havoc(c,H)
    return f
TRMM3='F:F side:side uplo:uplo trans:trans diag:diag M:dim N:dim alpha:el A:ptr lda:ld B:ptr ldb:ld beta:el C:ptr ldc:ld'
def trmm3(c,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,beta,C,ldc):
    c.dims(M,N); na=M if side==Left else N
    wa,T=c.tri(A,lda,na,uplo,diag); wb=c.mat(B,ldb,M,N); wc=c.mat(C,ldc,M,N)
    if c.mode=='setup' or empty(c,M,N): return
    X=c.get(wb); Y=c.ex.get(c.st,wc)
    T=op(T,trans); r=T.mul(X) if side==Left else X.mul(T)
    r.rows,r.cols=P_(M),P_(N)
    c.put(wc,r.scale(alpha)+Y.scale(beta),same_ok=None)
L.add('FFLAS::ftrmm',TRMM3,lambda c,F,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,beta,C,ldc: trmm3(c,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,beta,C,ldc),props=('C05',))
L.add('FFLAS::ftrsm',TRS,mk(True),props=('C04',)); L.add('FFLAS::ftrmm',TRS,mk(False),props=('C05',))
def mkint(m,bn,dem,g):
    solve=m.group(1)=='ftrsm'
    side=Left if m.group(2)=='Left' else Right; uplo=Upper if m.group(3)=='Upper' else Lower
    trans=NoTrans if m.group(4)=='NoTrans' else Trans; diag=Unit if m.group(5)=='Unit' else NonUnit
    delayed=m.group(6)=='delayed'
    if not solve and g is not None and len(g.params)>=11:
        def f3(c,F,M,N,A,lda,B,ldb,beta,C,ldc,this=None): trmm3(c,side,uplo,trans,diag,M,N,MT.scalar(ONE),A,lda,B,ldb,beta,C,ldc)
        return Contract(bn,'this:H F:F M:dim N:dim A:ptr lda:ld B:ptr ldb:ld beta:el C:ptr ldc:ld',f3,props=('C05',))
    def f(c,F,M,N,A,lda,B,ldb,H=None,this=None,**k): trs(c,side,uplo,trans,diag,M,N,MT.scalar(ONE),A,lda,B,ldb,solve)
    if delayed: params='this:H F:F M:dim N:dim A:ptr lda:ld B:ptr ldb:ld nblas:dim nbblocsblas:dim H:H?'
    else: params='this:H F:F M:dim N:dim A:ptr lda:ld B:ptr ldb:ld H:H?'
    if delayed and not solve: return None   # not recursive: inlined
    if delayed:
        def fd(c,F,M,N,A,lda,B,ldb,nblas,nbblocsblas,H=None,this=None,**k):
            na=P_(M if side==Left else N); nb=P_(nblas); q=P_(nbblocsblas)
            if c.mode=='setup': c.st.path=c.st.path.add(z(nb)>=1).add(z(q)>=0).add(z(q*nb)<=z(na)).add(z(na)<z(q*nb+nb))
            else:
                c.ex.obligation(c.st.path.le(ONE,nb),'precondition','block size of the delayed triangular solve must be positive')
                c.ex.obligation(c.st.path.le(q*nb,na) and c.st.path.le(na+1,q*nb+nb),'precondition',f'number of blocks {q} of the delayed triangular solve must be the dimension {na} divided by the block size {nb}')
            f(c,F,M,N,A,lda,B,ldb)
        return Contract(bn,params,fd if solve else f,props=('C04' if solve else 'C05',))
    return Contract(bn,params,f,props=('C04' if solve else 'C05',))
L.addre(r'^FFLAS::Protected::(ftrsm|ftrmm)(Left|Right)(Upper|Lower)(NoTrans|Trans)(Unit|NonUnit)::(operator_call|delayed)$',mkint)
# ------------------------------------------------------------------ symmetric rank-k: only one triangle is specified
def opp_junk(c,n,uplo):
    if c.st.path.le(P_(n),ONE): return MT.zero(n,n)
    return MT.atom(mkatom(fresh('J'),P_(n),P_(n),'slow' if uplo==Upper else 'supp'))
def syrk(c,uplo,trans,N,K,alpha,A,lda,beta,C,ldc,H=None):
    c.dims(N,K)
    wa=c.mat(A,lda,*((N,K) if trans==NoTrans else (K,N))); wc=c.mat(C,ldc,N,N)
    if c.mode=='setup': return C
    if empty(c,N): return C
    a=op(c.get(wa),trans); cc=c.ex.get(c.st,wc)
    t=a.mul(a.T()).scale(alpha)+cc.scale(beta); t.rows=t.cols=P_(N)
    c.put(wc,t+opp_junk(c,N,uplo),same_ok=None)
    if isinstance(wc,Win): c.tri_out={wc.obj:uplo}
    havoc(c,H)
    return C
SYRK='F:F uplo:uplo trans:trans N:dim K:dim alpha:el A:ptr lda:ld beta:el C:ptr ldc:ld H:H?'
def syrk_(c,F,uplo,trans,N,K,alpha,A,lda,beta,C,ldc,H=None): return syrk(c,uplo,trans,N,K,alpha,A,lda,beta,C,ldc,H)
L.add('FFLAS::fsyrk',SYRK,syrk_,props=('C06',))
def freduce_tri(c,F,uplo,N,A,lda):
    c.dims(N); w=c.mat(A,lda,N,N)
    if c.mode!='setup' and isinstance(w,Win): c.tri_out={w.obj:uplo}
L.add('FFLAS::freduce','F:F uplo:uplo N:dim A:ptr lda:ld',freduce_tri,props=('C07',))
def scalred(c,F,uplo,N,alpha,A,lda,H):
    """multiplies by alpha unless alpha is 1 or -1 (then only reduces)"""
    c.dims(N); w=c.mat(A,lda,N,N)
    if c.mode=='setup' or empty(c,N): return
    p=alpha.is_scalar_poly()
    one=p is not None and (p==ONE or c.st.path.prove(z3.Or(z(p)==1,z(p)==-1))) 
    if not one and not (p is not None and c.st.path.prove(z3.And(z(p)!=1,z(p)!=-1))): raise NeedSplit(z3.Or(z(p)==1,z(p)==-1))
    if not one: c.put(w,c.get(w).scale(alpha))
    if isinstance(w,Win): c.tri_out={w.obj:uplo}
L.add('FFLAS::Protected::ScalAndReduce','F:F uplo:uplo N:dim alpha:el A:ptr lda:ld H:H',scalred,props=('C06',))
for t in 'sd':
    L.add(f'cblas_{t}syrk','order:any uplo:uplo trans:trans N:dim K:dim alpha:el A:ptr lda:ld beta:el C:ptr ldc:ld',lambda c,order,uplo,trans,N,K,alpha,A,lda,beta,C,ldc: syrk(c,uplo,trans,N,K,alpha,A,lda,beta,C,ldc),trusted=True)
# ------------------------------------------------------------------ level 2
def gemv(c,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY,H=None,nz=False):
    c.dims(M,N)
    if nz: nonzero(c,alpha,'alpha of this matrix-vector kernel')
    xd,yd=(N,M) if ta==NoTrans else (M,N)
    wa=c.mat(A,lda,M,N); wx=c.mat(X,incX,xd,ONE); wy=c.mat(Y,incY,yd,ONE)
    if c.mode=='setup' or empty(c,yd): return Y
    y=c.ex.get(c.st,wy)
    if empty(c,xd): t=y.scale(beta)
    else: t=op(c.get(wa),ta).mul(c.get(wx)).scale(alpha)+y.scale(beta)
    t.rows,t.cols=P_(yd),ONE
    c.put(wy,t,same_ok=None); havoc(c,H)
    return Y
GEMV='F:F ta:trans M:dim N:dim alpha:el A:ptr lda:ld X:ptr incX:ld beta:el Y:ptr incY:ld H:H?'
def mkgemv(nz): return lambda c,F,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY,H=None: gemv(c,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY,H,nz)
L.add('FFLAS::fgemv',GEMV,mkgemv(False),props=('C08',),dem=r'MMHelper<Givaro::ZRing<(double|float|long)>.*DefaultTag')
def gemv_lazy(c,F,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY,H=None):
    positive(c,N if ta==NoTrans else M,'inner dimension of the delayed matrix-vector kernel')
    return gemv(c,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY,H,True)
L.add('FFLAS::fgemv',GEMV,gemv_lazy,props=('C08',),dem=r'MMHelperAlgo::Classic, FFLAS::ModeCategories::LazyTag')
L.add('FFLAS::fgemv',GEMV,mkgemv(True),props=('C08',),dem=r'MMHelperAlgo::Classic, FFLAS::ModeCategories::(DefaultTag|ConvertTo)')
L.add('FFLAS::fgemv',GEMV,mkgemv(False),props=('C08',))
L.add('FFLAS::Protected::fgemv_convert',GEMV,mkgemv(False),props=('C08',))
def ger(c,M,N,alpha,x,incx,y,incy,A,lda,H=None):
    c.dims(M,N)
    wx=c.mat(x,incx,M,ONE); wy=c.mat(y,incy,N,ONE); wa=c.mat(A,lda,M,N)
    if c.mode=='setup' or empty(c,M,N): return
    a=c.ex.get(c.st,wa); t=c.get(wx).mul(c.get(wy).T()).scale(alpha)+a
    t.rows,t.cols=P_(M),P_(N)
    c.put(wa,t,same_ok=None); havoc(c,H)
GER='F:F M:dim N:dim alpha:el x:ptr incx:ld y:ptr incy:ld A:ptr lda:ld H:H?'
L.add('FFLAS::fger',GER,lambda c,F,M,N,alpha,x,incx,y,incy,A,lda,H=None: ger(c,M,N,alpha,x,incx,y,incy,A,lda,H),props=('C08',))
L.add('FFLAS::Protected::fger_convert',GER,lambda c,F,M,N,alpha,x,incx,y,incy,A,lda,H=None: ger(c,M,N,alpha,x,incx,y,incy,A,lda,H),props=('C08',))
def dot(c,N,x,incx,y,incy):
    c.dims(N); wx=c.mat(x,incx,N,ONE); wy=c.mat(y,incy,N,ONE)
    if c.mode=='setup': return None
    if empty(c,N): return MT.scalar(ZERO)
    r=c.get(wx).T().mul(c.get(wy)); r.rows=r.cols=ONE
    return r
L.add('FFLAS::fdot','F:F N:dim x:ptr incx:ld y:ptr incy:ld H:any?',lambda c,F,N,x,incx,y,incy,H=None: dot(c,N,x,incx,y,incy),props=('C08',))
def trv(c,uplo,trans,diag,N,A,lda,X,incX,solve):
    c.dims(N); wa,T=c.tri(A,lda,N,uplo,diag); wx=c.mat(X,incX,N,ONE)
    if c.mode=='setup' or empty(c,N): return
    if solve: T=c.inverse(T)
    r=op(T,trans).mul(c.ex.get(c.st,wx)); r.rows,r.cols=P_(N),ONE
    c.put(wx,r,same_ok=None)
TRV='F:F uplo:uplo trans:trans diag:diag N:dim A:ptr lda:ld X:ptr incX:ld'
L.add('FFLAS::ftrsv',TRV,lambda c,F,uplo,trans,diag,N,A,lda,X,incX: trv(c,uplo,trans,diag,N,A,lda,X,incX,True),props=('C08',))
L.add('FFLAS::ftrmv',TRV,lambda c,F,uplo,trans,diag,N,A,lda,X,incX: trv(c,uplo,trans,diag,N,A,lda,X,incX,False),props=('C08',))
for t in 'sd':
    L.add(f'cblas_{t}dot','N:dim x:ptr incx:ld y:ptr incy:ld',lambda c,N,x,incx,y,incy: dot(c,N,x,incx,y,incy),trusted=True)
    L.add(f'cblas_{t}gemv','order:any ta:trans M:dim N:dim alpha:el A:ptr lda:ld X:ptr incX:ld beta:el Y:ptr incY:ld',lambda c,order,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY: gemv(c,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY),trusted=True)
    L.add(f'cblas_{t}ger','order:any M:dim N:dim alpha:el x:ptr incx:ld y:ptr incy:ld A:ptr lda:ld',lambda c,order,M,N,alpha,x,incx,y,incy,A,lda: ger(c,M,N,alpha,x,incx,y,incy,A,lda),trusted=True)
# ------------------------------------------------------------------ trusted: BLAS
def cint(x): return x
def cblas_gemm(c,order,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc): return fgemm(c,None,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc)
for t in 'sd':
    L.add(f'cblas_{t}gemm','order:any ta:trans tb:trans m:dim n:dim k:dim alpha:el A:ptr lda:ld B:ptr ldb:ld beta:el C:ptr ldc:ld',cblas_gemm,trusted=True)
    for nm,solve in(('trsm',True),('trmm',False)):
        L.add(f'cblas_{t}{nm}','order:any side:side uplo:uplo trans:trans diag:diag M:dim N:dim alpha:el A:ptr lda:ld B:ptr ldb:ld',(lambda sv: lambda c,order,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb: trs(c,side,uplo,trans,diag,M,N,alpha,A,lda,B,ldb,sv))(solve),trusted=True)
    L.add(f'cblas_{t}scal','n:dim alpha:el X:ptr incX:ld',lambda c,n,alpha,X,incX: vec(c,n,[(X,incX)],lambda x:[x.scale(alpha)],[0]),trusted=True)
    L.add(f'cblas_{t}axpy','n:dim alpha:el X:ptr incX:ld Y:ptr incY:ld',lambda c,n,alpha,X,incX,Y,incY: vec(c,n,[(X,incX),(Y,incY)],lambda x,y:[x.scale(alpha)+y],[1]),trusted=True)
    L.add(f'cblas_{t}copy','n:dim X:ptr incX:ld Y:ptr incY:ld',lambda c,n,X,incX,Y,incY: vec(c,n,[(X,incX),(Y,incY)],lambda x,y:[x],[1]),trusted=True)
L.add('openblas_set_num_threads','n:any',lambda c,n: None,trusted=True)

# ------------------------------------------------------------------ trusted: opaque helpers
class Opaque:
    trusted=True; params=[]
    def __init__(s,name,lo=None): s.name=name; s.lo=lo
    def apply(s,ex,st,args,I,dem):
        if args and isinstance(args[0],Ptr) and isinstance(st.mem.get(args[0].obj),Cells):
            o=st.mem[args[0].obj].copy(); o.lazy=True; o.cells={}; st.mem[args[0].obj]=o
        v=ex.fresh_of(st,I.ty,s.name.split('::')[-1]) if I.ty.k!='void' else None
        if s.lo is not None and isinstance(v,Poly): st.path=st.path.add(z(v)>=s.lo)
        if I.ty.k=='ptr' and args: v=args[0]
        return [(st,v)]
L.addre(r'^Givaro::(Integer|Timer|IntPrime|GivMMInfo)\b',lambda m,bn,dem,g: Opaque('Givaro::'+m.group(1)))
class Reported:
    """the library reports 'Precondition not met' and carries on: such a call is outside every contract, the path ends"""
    trusted=True; params=[]; name='FFPACK::Failure (path outside the contract)'
    def apply(s,ex,st,args,I,dem): return []
L.addre(r'^FFPACK::Failure::operator_call$',lambda m,bn,dem,g: Reported())
class OpaqueInt:
    """integer result about which only a lower bound is assumed; arguments are not modified"""
    trusted=True; params=[]
    def __init__(s,name,lo): s.name=name; s.lo=lo
    def apply(s,ex,st,args,I,dem):
        v=ex.fresh_of(st,I.ty,s.name.split('::')[-1])
        if isinstance(v,Poly): st.path=st.path.add(z(v)>=s.lo)
        return [(st,v)]
for nm,lo in(('DotProdBoundClassic',1),('TRSMBound',1),('DotProdBound',1),('WinogradSteps',0)):
    L.addre('^FFLAS::Protected::'+nm+'$',(lambda nm,lo: lambda m,bn,dem,g: OpaqueInt('FFLAS::Protected::'+nm,lo))(nm,lo))

class MinMax:
    """std::max / std::min on references: decided for integers, opaque for bounds"""
    trusted=True; params=[]
    def __init__(s,name): s.name=name; s.mx=name.endswith('max')
    def apply(s,ex,st,args,I,dem):
        if len(args)!=2 or not all(isinstance(a,Ptr) for a in args): raise Unsupported('std::max form')
        ty=re.search(r'(?:max|min)<(.*?)>',dem); ty=ty.group(1) if ty else ''
        v=[OPQ,OPQ]
        if ty in('unsigned long','long','int','unsigned int'):
            v=[ex.load(st,a,ir.Ty('int',64 if 'long' in ty else 32)) if not a.obj.startswith('const:') else OPQ for a in args]
        if all(isinstance(x,Poly) for x in v):
            a,b=v
            if not (st.path.le(a,b) or st.path.le(b,a)): raise NeedSplit(z(a)<=z(b))
            le=st.path.le(a,b)
            return [(st,args[1] if le==s.mx else args[0])]
        st.mem['opqcell']=Cells('opqcell',8,False); st.mem['opqcell'].cells[0]=(OPQ,8)
        return [(st,Ptr('opqcell',ZERO))]
L.addre(r'^std::(max|min)$',lambda m,bn,dem,g: MinMax(bn) if g is not None and len(g.params)==2 else None)
L.addre(r'^FFLAS::MMHelper::MaxDelayedDim$',lambda m,bn,dem,g: OpaqueInt(bn,0))
# ------------------------------------------------------------------ FFPACK: triangular matrices stored in place
def ftrtri(c,F,uplo,diag,N,A,lda,threshold=None):
    c.dims(N); w,T=c.tri(A,lda,N,uplo,diag)
    if c.mode=='setup' or empty(c,N): return
    t=c.ex.get(c.st,w); r=t-T+c.inverse(T); r.rows=r.cols=P_(N)
    c.put(w,r,same_ok=True)
L.add('FFPACK::ftrtri','F:F uplo:uplo diag:diag N:dim A:ptr lda:ld threshold:dim?',ftrtri,props=('C09',))
def ftrtrm(c,F,side,diag,N,A,lda):
    """A holds U above and L below the diagonal, the diagonal belonging to the factor that is not unit; UL (Left) or LU (Right)"""
    c.dims(N)
    du,dl=(Unit,NonUnit) if diag==Unit else (NonUnit,Unit)
    if c.mode=='setup':
        n=P_(N)
        U=mkatom(A.obj+'.U',n,n,'upp',du==Unit); Lo=mkatom(A.obj+'.L',n,n,'low',dl==Unit)
        c._bind(A,lda,n,n,'A',MT.atom(U)+MT.atom(Lo)-MT.ident(n)); return
    w=c.mat(A,lda,N,N)
    if empty(c,N): return
    t=c.get(w); U=tri_part(c.st.path,t,Upper,du); Lo=tri_part(c.st.path,t,Lower,dl)
    r=U.mul(Lo) if side==Left else Lo.mul(U); r.rows=r.cols=P_(N)
    c.put(w,r)
L.add('FFPACK::ftrtrm','F:F side:side diag:diag N:dim A:ptr lda:ld',ftrtrm,props=('C09',))
def ftrstr(c,F,side,uplo,diagA,diagB,N,A,lda,B,ldb,threshold=None):
    c.dims(N); wa,TA=c.tri(A,lda,N,uplo,diagA); wb,TB=c.tri(B,ldb,N,uplo,diagB)
    if c.mode=='setup' or empty(c,N): return
    t=c.ex.get(c.st,wb); Ti=c.inverse(TA)
    X=Ti.mul(TB) if side==Left else TB.mul(Ti); X.rows=X.cols=P_(N)
    dX=NonUnit if diagA!=diagB else diagA
    old=tri_part(c.st.path,t,uplo,dX)
    r=t-old+X; r.rows=r.cols=P_(N)
    c.put(wb,r,same_ok=wb)
L.add('FFPACK::ftrstr','F:F side:side uplo:uplo diagA:diag diagB:diag N:dim A:ptr lda:ld B:ptr ldb:ld threshold:dim?',ftrstr,props=('C09',))
def trinv_left(c,F,N,L_,ldl,X,ldx):
    c.dims(N); w,T=c.tri(L_,ldl,N,Lower,Unit); wx=c.mat(X,ldx,N,N)
    if c.mode=='setup' or empty(c,N): return
    t=c.get(w); r=t-T+c.inverse(T); r.rows=r.cols=P_(N)
    c.put(wx,r,same_ok=None)
L.add('FFPACK::trinv_left','F:F N:dim L_:ptr ldl:ld X:ptr ldx:ld',trinv_left,props=('C09',))
