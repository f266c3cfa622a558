"""Contracts of C03 (magnitudes). Field constants and element operations of Givaro are assumed; every FFLAS function that delays
   reductions is verified against the contract its callers use."""
import re,z3
import ir,rng
from rng import P,rv,R,zmin,zmax,zabs,Un,Z0,Z1,norm
def isz(dem): return 'ZRing' in dem or 'UnparametricOperations' in dem
def helper_t(dem):
    """(class, algo, mode) of the last helper argument"""
    i=dem.rfind('FFLAS::MMHelper<')
    if i<0: return None
    d=0; j=i
    while j<len(dem):
        if dem[j]=='<': d+=1
        elif dem[j]=='>':
            d-=1
            if d==0: break
        j+=1
    t=dem[i:j+1]
    a=re.search(r'MMHelperAlgo::(\w+)',t); m=re.findall(r'ModeCategories::(\w+)',t)
    return t,(a.group(1) if a else '?'),(m[-1] if m and 'ConvertTo' not in t else 'ConvertTo' if m else 'Auto')
def h_of(dem):
    h=helper_t(dem.split('::MaxDelayedDim')[0]); return h and h[0]
def hoff(ex,t):
    o=ex.hoff.get(norm(t))
    if o is None: raise Un('no helper layout for '+t[:120])
    return o
def hget(ex,st,H,t,n): return ex.load(st,P(H.o,H.off+hoff(ex,t)[n]),ir.Ty('fp','double'))
def hset(ex,st,H,t,n,v): st.mem[P(H.o,H.off+hoff(ex,t)[n]).key()]=v
# ------------------------------------------------------------ block ranges
def same(a,b): return a is b or (z3.is_expr(a) and z3.is_expr(b) and z3.simplify(a-b).eq(rv(0)))
def le(ex,st,a,b):
    if same(a,b): return True
    if ex.quick(st,[z3.Not(a<=b)]): return True
    r,_=ex.sol(st,[z3.Not(a<=b)],1500); return r==z3.unsat
def flat(w):
    lo,hi=w[0],w[1]
    while len(w)>3:
        w=w[3]
        if w is None: return None
        if w=='end': break
        lo,hi=zmin(lo,w[0]),zmax(hi,w[1])
    return lo,hi
def vec(d): return (d[1],d[0]) if d is not None and z3.is_expr(d[0]) and z3.simplify(d[0]).eq(Z1) else d   # a row and a column vector are the same block
def rread(ex,st,p,dims,strict=True):
    dims=vec(dims); k=p.key(); v=st.rng.get(k)
    if k in st.rng:
        if v is None: return None
        lo,hi=v[0],v[1]
        while True:
            d=v[2]
            if d is None or dims is None or all(le(ex,st,x,y) for x,y in zip(dims,d)): return lo,hi
            u=v[3] if len(v)>3 else 'end'     # only part of the window was written last: join what lies below
            if u=='end': break
            if u is None: return None
            lo,hi=zmin(lo,u[0]),zmax(hi,u[1]); v=u
        # larger than what was written there: join with everything known about the object
        js=[w for (o,_),w in st.rng.items() if o==p.o]
        if any(w is None for w in js): return None
        for w in js:
            w=flat(w)
            if w is None: return None
            lo,hi=zmin(lo,w[0]),zmax(hi,w[1])
        return lo,hi
    v=st.rng.get((p.o,'*'),'?')
    if v=='?':
        if strict: raise Un('no range known for block of '+p.o)
        return None
    if v is None: return None
    # a block never written on its own: blocks of the object written before may overlap only if larger; blocks are disjoint (C01/C02)
    return v[0],v[1]
def rwrite(ex,st,p,dims,lo,hi):
    dims=vec(dims)
    k=p.key(); fd=ex.full.get(p.o)
    if fd is not None and dims is not None and k[1]==0 and all(le(ex,st,y,x) for x,y in zip(dims,fd)):
        for kk in [q for q in st.rng if q[0]==p.o]: del st.rng[kk]
        st.rng[(p.o,'*')]=(lo,hi,None); return
    old=st.rng.get(k)
    if old is not None and old[2] is not None and dims is not None and not all(le(ex,st,x,y) for x,y in zip(dims,old[2])):
        for kk,w in list(st.rng.items()):
            if kk[0]==p.o and kk!=k and kk[1]!='*' and w is not None: st.rng[kk]=(zmin(lo,w[0]),zmax(hi,w[1]),w[2])
    under='end'
    while old is not None:
        if dims is None or (old[2] is not None and all(le(ex,st,y,x) for x,y in zip(dims,old[2]))):
            old=old[3] if len(old)>3 else 'end'     # covered by this write
            if old=='end': break
            continue
        under=old; break
    if under=='end' and old is None and k not in st.rng: under='end'
    st.rng[k]=(lo,hi,dims) if under=='end' else (lo,hi,dims,under)
def fname(p): return p.o
def need(ex,st,p,dims,lo,hi,msg):
    r=rread(ex,st,p,dims)
    if r is None: ex.prove(st,z3.BoolVal(False),msg+': operand has no known range (uninitialised or unreduced)'); return lo,hi
    ex.prove(st,z3.And(r[0]>=lo,r[1]<=hi),msg); return r
def mag(lo,hi): return zmax(-lo,hi)
def scal(a,lo,hi): # a.[lo,hi]
    if z3.is_rational_value(z3.simplify(a)):
        a=z3.simplify(a); return (a*lo,a*hi) if a.as_fraction()>=0 else (a*hi,a*lo)
    return zmin(a*lo,a*hi),zmax(a*lo,a*hi)
def out(ex,st,p,dims,lo,hi,msg):
    ex.prove(st,z3.And(lo>=-ex.F.MAX,hi<=ex.F.MAX),msg+': result leaves the exactly representable range')
    l,h=ex.fresh('slo'),ex.fresh('shi'); st.pc+=[l==lo,h==hi,l>=-ex.F.MAX,h<=ex.F.MAX]; rwrite(ex,st,p,dims,l,h)
def opdim(t,a,b): return (a,b) if t==111 else (b,a)
def con(v):
    v=z3.simplify(v) if z3.is_expr(v) else v
    return v.as_long() if z3.is_expr(v) and z3.is_rational_value(v) and v.denominator_as_long()==1 else None
# ------------------------------------------------------------ contracts
def contract(ex,f,bn,dem,args,st,I):
    short=bn.split('::')[-1]; F=ex.F; z=isz(dem.split(',')[0])
    if bn in('std::max','std::min'):
        a,b=[ex.load(st,x,ir.Ty('fp','double')) for x in args[:2]]; q=P('mm!%d'%next(ex.n)); st.mem[q.key()]=z3.simplify((zmax if short=='max' else zmin)(a,b)); return [(st,q)]
    if short in('fflas_new','malloc_align'): 
        q=P('new!%d'%next(ex.n)); st.rng[(q.o,'*')]=None; return [(st,q)]
    if short in('fflas_delete','fflas_delete_all'): return [(st,None)]
    if re.match(r'(Givaro::)?(Modular|ModularBalanced|Modular_implem|ZRing|UnparametricOperations|UnparametricZRing)',bn.replace('Givaro::','')) and '::' in bn:
        return element(ex,bn,short,dem,args,st,z)
    if short=='MaxDelayedDim' and h_of(dem) and not ex.body_of==bn:
        H=args[0]; t=h_of(dem); g={n:hget(ex,st,H,t,n) for n in rng.HM}; k=ex.fresh('kmax')
        ex.prove(st,g['MaxStorableValue']==F.MAX,'MaxDelayedDim: the helper carries the representable maximum')
        st.pc+=[z3.Or(k==0,k>=1),z3.Or(k==0,k*mag(g['Amin'],g['Amax'])*mag(g['Bmin'],g['Bmax'])+zabs(args[1])*mag(g['Cmin'],g['Cmax'])<=F.MAX),
                z3.Or(k>=1,mag(g['Amin'],g['Amax'])*mag(g['Bmin'],g['Bmax'])+zabs(args[1])*mag(g['Cmin'],g['Cmax'])>F.MAX)]
        return [(st,k)]
    if short in('WinogradSteps',):
        v=ex.fresh('w'); st.pc+=[v>=0,z3.Or(v==0,v>=1)]+([ex.depthm*pw4(ex,st,v)<=F.MAX] if ex.depthm is not None else []); return [(st,v)]
    if short=='DoubleToFloat' : raise Un(short)
    if re.match(r'(check|~?Checker|Checker_)',short): return [(st,None)]
    # ---- element-wise routines
    if bn.startswith('FFLAS::') and short in('fadd','fsub','faddin','fsubin','fscalin','fscal','fassign','freduce','freduce_constoverride','fzero','faxpy','fnegin','fneg'):
        return elementwise(ex,bn,short,dem,args,st,z,I)
    h=helper_t(dem)
    if bn=='FFLAS::fgemm' and h and len(args)==15: return fgemm(ex,dem,args,st,h,z)
    if bn=='FFLAS::fgemv' and h and len(args)==13: return fgemv(ex,dem,args,st,h,z)
    if bn=='FFLAS::fger' and h and len(args)==11: return fger(ex,dem,args,st,h,z)
    if bn in('FFLAS::BLAS3::Winograd','FFLAS::BLAS3::WinogradAcc_3_21','FFLAS::BLAS3::WinogradAcc_2_24','FFLAS::BLAS3::WinogradAcc_LR') and len(args)==15: return fgemm(ex,dem,args,st,h,z,wino=True)
    if bn in('FFLAS::Protected::fgemm_convert','FFLAS::Protected::fgemv_convert','FFLAS::Protected::fger_convert'):
        if short=='fger_convert': return fger(ex,dem,args,st,('','','ConvertTo'),False)
        return fgemm(ex,dem,args[:14],st,(h[0] if h else '','','ConvertTo'),False) if short=='fgemm_convert' else fgemv(ex,dem,args,st,('','','ConvertTo'),False)
    return NotImplemented
def element(ex,bn,short,dem,args,st,z):
    F=ex.F; FT=ir.Ty('fp','double')
    L=lambda i: ex.load(st,args[i],FT)
    if short in('isOne',): return [(st,L(1)==1)]
    if short=='isMOne': return [(st,L(1)==(rv(-1) if z else F.mone))]
    if short=='isZero': return [(st,L(1)==0)]
    if short=='areEqual': return [(st,L(1)==L(2))]
    if short in('minElement','maxElement','characteristic','cardinality') and not z:
        v={'minElement':F.lo,'maxElement':F.hi}.get(short,F.p)
        if len(args)>1: ex.store(st,args[1],v); return [(st,args[1])]
        return [(st,v)]
    if short in('assign','convert'): ex.store(st,args[1],L(2)); return [(st,args[1])]
    if short=='init':
        if len(args)==2: ex.store(st,args[1],Z0); return [(st,args[1])]
        if z: ex.store(st,args[1],L(2) if isinstance(args[2],P) else args[2]); return [(st,args[1])]
    if z and short in('neg',): ex.store(st,args[1],-L(2)); return [(st,args[1])]
    if z and short in('negin',): ex.store(st,args[1],-L(1)); return [(st,args[1])]
    if not z and short in('init','div','divin','mul','mulin','neg','negin','inv','add','sub','addin','subin','axpy','axpyin','reduce','invin'):
        v=ex.fresh('e'); st.pc+=[v>=F.lo,v<=F.hi]
        if short=='div': st.pc.append(z3.Implies(z3.And(L(3)!=0),(v==0)==(L(2)==0)))
        if short in('neg','inv'): st.pc.append((v==0)==(L(2)==0))
        ex.store(st,args[1],v); return [(st,args[1])]
    if short=='maxCardinality': v=ex.fresh('mc'); st.pc.append(v>=2); return [(st,v)]
    if short in('Modular','ModularBalanced','Modular_implem','ZRing','UnparametricOperations','UnparametricZRing') or short.startswith('~'): return [(st,None)]
    raise Un('element operation '+bn)
def elementwise(ex,bn,short,dem,args,st,z,I):
    F=ex.F; nptr=sum(isinstance(a,P) for a in args); FT=ir.Ty('fp','double')
    at=[t.k for t in I.x['atys']]
    a=args[1:]; k=at[1:]
    nd=0
    while nd<len(a) and k[nd]=='int': nd+=1
    if short in('fscalin','fscal','faxpy') and F.el not in('double','float') and nd>1: nd-=1   # integer element passed by value
    # vector forms start with one dimension, matrix forms with two
    dims=tuple(a[:nd]); a=a[nd:]; k=k[nd:]
    if len(dims)==1: dims=(dims[0],Z1)
    if len(dims)!=2: raise Un('dims of '+short)
    al=None
    # scalar by value (fp) or by reference
    ptrs=[]; sc=[]
    i=0
    while i<len(a):
        if k[i]=='ptr' and i+1<len(a) and k[i+1]=='int': ptrs.append(a[i]); i+=2
        elif k[i]=='ptr': sc.append(ex.load(st,a[i],FT)); i+=1
        elif k[i] in('fp','int'): sc.append(a[i]); i+=1
        else: raise Un('args of '+short)
    sgn={'fadd':1,'faddin':1,'fsub':-1,'fsubin':-1}
    if short in('freduce','freduce_constoverride') and not z:
        p=ptrs[-1]; q=ptrs[0]
        r=rread(ex,st,q,dims)
        if r is not None: ex.prove(st,z3.And(r[0]>=-F.MAX,r[1]<=F.MAX),short+': operand leaves the exactly representable range')
        rwrite(ex,st,p,dims,F.lo,F.hi); return [(st,None)]
    if short=='fzero': rwrite(ex,st,ptrs[0],dims,Z0,Z0); return [(st,None)]
    if short=='fassign':
        r=rread(ex,st,ptrs[0],dims)
        if r is None: st.rng[ptrs[1].key()]=None
        else: rwrite(ex,st,ptrs[1],dims,*r)
        return [(st,None)]
    if z:
        rs=[rread(ex,st,p,dims) for p in ptrs[:2]]
        if short in('fadd','fsub','faddin','fsubin','faxpy','fnegin') and any(r is None for r in rs): 
            ex.prove(st,z3.BoolVal(False),short+': operand has no known range'+(repr([p.key() for p in ptrs])+repr(dims)+repr([k for k in st.rng]) if rng.DBG else '')); rs=[r or (Z0,Z0) for r in rs]
        if short in sgn:
            if short in('fadd','fsub'): x,y,d=rs[0],rs[1],ptrs[2]
            else: y,x,d=rs[0],rs[1],ptrs[1]   # d += / -= first
            c=sc[0] if sc else Z1
            y=scal(c,*y) if sc else y
            lo,hi=(x[0]+y[0],x[1]+y[1]) if sgn[short]>0 else (x[0]-y[1],x[1]-y[0])
            out(ex,st,d,dims,lo,hi,short+' without reduction'); return [(st,None)]
        if short=='fnegin': rwrite(ex,st,ptrs[0],dims,-rs[0][1],-rs[0][0]); return [(st,None)]
        if short=='fscalin':
            r=rs[0]
            if r is None: r=(Z0,Z0); 
            lo,hi=scal(sc[0],*r); out(ex,st,ptrs[0],dims,lo,hi,'fscalin without reduction'); return [(st,None)]
        if short=='faxpy':
            y=scal(sc[0],*rs[0]); x=rs[1]; out(ex,st,ptrs[1],dims,x[0]+y[0],x[1]+y[1],'faxpy without reduction'); return [(st,None)]
        raise Un(short+' over ZRing')
    # over the field: operands reduced -> result reduced
    src=ptrs if short in('fscalin','fnegin','faddin','fsubin','faxpy') else ptrs[:-1]
    for p in src:
        if short in('fscalin',): 
            r=rread(ex,st,p,dims)
            if r is None: continue
            m=mag(*r); ex.prove(st,z3.Implies(sc[0]!=0,m*mag(F.lo,F.hi)<=F.MAX),'fscalin over the field: product leaves the exactly representable range')
        else: need(ex,st,p,dims,F.lo,F.hi,short+' over the field needs reduced operands')
    rwrite(ex,st,ptrs[-1],dims,F.lo,F.hi); return [(st,None)]
# ------------------------------------------------------------ products
def lazy(ex,st,H,t,A,dA,B,dB,C,dC,k,alpha,beta,name,wino,k0=True):
    F=ex.F; g={n:hget(ex,st,H,t,n) for n in rng.HM}
    ex.prove(st,z3.And(g['FieldMin']==F.lo,g['FieldMax']==F.hi,g['MaxStorableValue']==F.MAX),name+': helper carries the bounds of the field')
    ex.prove(st,z3.And(g['Amin']<=F.lo,g['Amax']>=F.hi,g['Bmin']<=F.lo,g['Bmax']>=F.hi,g['Cmin']<=0,g['Cmax']>=0),name+': announced bounds contain the field range')
    ex.prove(st,z3.And(g['Amin']>=-F.MAX,g['Amax']<=F.MAX,g['Bmin']>=-F.MAX,g['Bmax']<=F.MAX,g['Cmin']>=-F.MAX,g['Cmax']<=F.MAX),name+': announced bounds are representable')
    depth(ex,st,g,name)
    ex.prove(st,alpha!=0,name+': alpha is not zero')
    ra=need(ex,st,A,dA,g['Amin'],g['Amax'],name+': operand A within the announced bounds')
    rb=need(ex,st,B,dB,g['Bmin'],g['Bmax'],name+': operand B within the announced bounds')
    rc=rread(ex,st,C,dC)
    if rc is None and rng.DBG: print('RC',C.key(),dC,{k:v and v[2] for k,v in st.rng.items() if k[0]=='C'},z3.simplify(beta),[z3.simplify(x) for x in st.pc[-14:]])
    if rc is None: ex.prove(st,beta==0,name+': C is read (beta nonzero) but has no known range')
    else: ex.prove(st,z3.Implies(beta!=0,z3.And(rc[0]>=g['Cmin'],rc[1]<=g['Cmax'])),name+': operand C within the announced bounds')
    lo,hi=ex.fresh('Omin'),ex.fresh('Omax'); st.pc+=[lo>=-F.MAX,lo<=0,hi>=0,hi<=F.MAX]
    hset(ex,st,H,t,'Outmin',lo); hset(ex,st,H,t,'Outmax',hi)
    for X,Y,r,d in(('A',A,ra,dA),('B',B,rb,dB)):
        l,h,l2,h2=[ex.fresh('b') for _ in range(4)]
        st.pc+=[l>=g[X+'min'],l<=F.lo,h<=g[X+'max'],h>=F.hi, l2>=l,h2<=h,l2>=zmin(r[0],F.lo),h2<=zmax(r[1],F.hi),l2<=h2]
        hset(ex,st,H,t,X+'min',l); hset(ex,st,H,t,X+'max',h)
        rwrite(ex,st,Y,d,l2,h2)
    l,h=ex.fresh('b'),ex.fresh('b'); st.pc+=[l>=zmin(g['Cmin'],F.lo),l<=zmax(g['Cmin'],F.lo),h<=zmax(g['Cmax'],F.hi),h>=zmin(g['Cmax'],F.hi)]
    hset(ex,st,H,t,'Cmin',l); hset(ex,st,H,t,'Cmax',h)
    rwrite(ex,st,C,dC,lo,hi)
    return [(st,C)]
def depth(ex,st,g,name):
    """ghost: operand bounds times 4^levels stay representable (recursion depth assumption of C03)"""
    r=g['recLevel']; p=pw4(ex,st,r); m=zmax(mag(g['Amin'],g['Amax']),mag(g['Bmin'],g['Bmax']))
    ex.prove(st,m*p<=ex.F.MAX,name+': bounds times 4^levels stay representable')
def pw4(ex,st,r):
    out=[]
    for x in(r,r-1):
        x=z3.simplify(x); key=x.sexpr()
        if key not in ex.p4: ex.p4[key]=R('P4!%d'%len(ex.p4)); ex.p4x.append((x,ex.p4[key]))
        out.append(ex.p4[key])
    p,q=out
    for x,v in ex.p4x:      # the same power for the same exponent
        if v is not p and v is not q: st.pc.append(z3.Implies(x==r,v==p))
    st.pc+=[z3.Implies(r<=0,p==1),z3.Implies(r>=1,p==4*q),p>=1,q>=1]
    return p
def dimsof(ta,tb,m,n,k):
    return (m,k) if ta==111 else (k,m),(k,n) if tb==111 else (n,k)
def divs(r,d): return z3.And([rng.DIV(z3.simplify(x),z3.simplify(r)) for x in d])
def reduced(F,g): return z3.And([g[X+'min']==F.lo for X in 'AB']+[g[X+'max']==F.hi for X in 'AB'])
def fgemm(ex,dem,args,st,h,z,wino=False):
    F_,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc=args[:14]; H=args[14] if len(args)>14 else None
    ta,tb=con(ta),con(tb)
    if ta is None or tb is None: raise Un('symbolic transposition flag')
    F=ex.F; t,algo,mode=h
    if wino: m,n,k=2*m,2*n,2*k
    dA,dB=dimsof(ta,tb,m,n,k); dC=(m,n); nm=('Winograd' if wino else 'fgemm '+mode)
    if mode=='LazyTag' and not z:
        ex.prove(st,z3.And(m>=1,n>=1,k>=1),nm+': dimensions are positive')
        if algo=='Winograd':
            g={x:hget(ex,st,H,t,x) for x in rng.HM}; r=g['recLevel']
            if wino: ex.prove(st,divs(r-1,args[3:6]),nm+': half dimensions are multiples of 2^(levels-1)')
            else: ex.prove(st,z3.Or(r==0,z3.And(r>=1,divs(r,(m,n,k))),reduced(F,g)),nm+': unreduced operands only with dimensions that need no peeling')
        return lazy(ex,st,H,t,A,dA,B,dB,C,dC,k,alpha,beta,nm,wino)
    if z:
        return zprod(ex,st,k,alpha,A,dA,B,dB,beta,C,dC,'fgemm on the delayed field',H,t,mode)
    # over the field: reduced operands -> reduced result
    for X,d,n_ in((A,dA,'A'),(B,dB,'B')): need(ex,st,X,d,F.lo,F.hi,nm+f': operand {n_} is reduced')
    rc=rread(ex,st,C,dC)
    if rc is None: ex.prove(st,beta==0,nm+': C is read but has no known range')
    else: ex.prove(st,z3.Implies(beta!=0,z3.And(rc[0]>=F.lo,rc[1]<=F.hi)),nm+': operand C is reduced')
    rwrite(ex,st,C,dC,F.lo,F.hi); return [(st,C)]
def zprod(ex,st,k,alpha,A,dA,B,dB,beta,C,dC,nm,H,t,mode):
    F=ex.F
    if mode=='DefaultBoundedTag': return zbounded(ex,st,k,alpha,A,dA,B,dB,beta,C,dC,nm,H,t)
    ra=rread(ex,st,A,dA); rb=rread(ex,st,B,dB); rc=rread(ex,st,C,dC)
    if ra is None or rb is None: ex.prove(st,z3.BoolVal(False),nm+': operand without known range'); return [(st,C)]
    if rc is None: ex.prove(st,beta==0,nm+': C is read but has no known range'); rc=(Z0,Z0)
    ca=con(alpha); ca=alpha if ca is None else rv(ca)
    ex.prove(st,k*zabs(ca)*mag(*ra)*mag(*rb)+zabs(beta)*mag(*rc)<=F.MAX,nm+': sum of products leaves the exactly representable range')
    ex.prove(st,z3.And(ra[0]<=0,ra[1]>=0,rb[0]<=0,rb[1]>=0),nm+': operand ranges contain zero')
    plo=zmin(ra[0]*rb[1],ra[1]*rb[0]); phi=zmax(ra[0]*rb[0],ra[1]*rb[1])
    c=zabs(ca); neg=ca<0; plo,phi=z3.If(neg,-phi,plo),z3.If(neg,-plo,phi); bl,bh=scal(beta,*rc)
    lo,hi=ex.fresh('plo'),ex.fresh('phi')   # magnitude bound restated from the obligation just proved
    st.pc+=[lo==k*c*plo+bl,hi==k*c*phi+bh,lo>=-F.MAX,hi<=F.MAX,lo<=hi]
    rwrite(ex,st,C,dC,lo,hi)
    if mode=='DefaultBoundedTag':
        # helper bounds of the caller decide what is reported: checked against the real code of setOutBounds
        return [(st,C)]
    return [(st,C)]
def zbounded(ex,st,k,alpha,A,dA,B,dB,beta,C,dC,nm,H,t):
    F=ex.F; g={n:hget(ex,st,H,t,n) for n in rng.HM}
    ex.prove(st,z3.And([g[x+'min']<=0 for x in 'ABC']+[g[x+'max']>=0 for x in 'ABC']),nm+': announced bounds contain zero')
    need(ex,st,A,dA,g['Amin'],g['Amax'],nm+': operand A within the announced bounds')
    need(ex,st,B,dB,g['Bmin'],g['Bmax'],nm+': operand B within the announced bounds')
    rc=rread(ex,st,C,dC)
    if rc is None: ex.prove(st,beta==0,nm+': C is read (beta nonzero) but has no known range')
    else: ex.prove(st,z3.Implies(beta!=0,z3.And(rc[0]>=g['Cmin'],rc[1]<=g['Cmax'])),nm+': operand C within the announced bounds')
    ex.prove(st,zbpre(k,alpha,beta,g)<=F.MAX,nm+': sum of products leaves the exactly representable range')
    lo,hi=ex.fresh('Bmn'),ex.fresh('Bmx'); st.pc+=[lo>=-F.MAX,lo<=0,hi>=0,hi<=F.MAX]
    hset(ex,st,H,t,'Outmin',lo); hset(ex,st,H,t,'Outmax',hi); rwrite(ex,st,C,dC,lo,hi)
    return [(st,C)]
def zbpre(k,alpha,beta,g): return k*zabs(alpha)*mag(g['Amin'],g['Amax'])*mag(g['Bmin'],g['Bmax'])+zabs(beta)*mag(g['Cmin'],g['Cmax'])
def over_field(ex,st,A,dA,B,dB,beta,C,dC,nm):
    F=ex.F
    for X,d,n_ in((A,dA,'A'),(B,dB,'B')): need(ex,st,X,d,F.lo,F.hi,nm+f': operand {n_} is reduced')
    rc=rread(ex,st,C,dC)
    if rc is None: ex.prove(st,beta==0,nm+': C is read but has no known range')
    else: ex.prove(st,z3.Implies(beta!=0,z3.And(rc[0]>=F.lo,rc[1]<=F.hi)),nm+': operand C is reduced')
    rwrite(ex,st,C,dC,F.lo,F.hi)
def fgemv(ex,dem,args,st,h,z):
    F_,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY=args[:12]; H=args[12] if len(args)>12 else None
    ta=con(ta); t,algo,mode=h
    if ta is None: raise Un('symbolic transposition flag')
    k,m=(N,M) if ta==111 else (M,N); dA,dB,dC=(M,N),(k,Z1),(m,Z1); nm='fgemv '+mode
    if mode=='LazyTag' and not z:
        ex.prove(st,z3.And(m>=1,k>=1),nm+': dimensions are positive')
        return lazy(ex,st,H,t,A,dA,X,dB,Y,dC,k,alpha,beta,nm,False)
    if z: return zprod(ex,st,k,alpha,A,dA,X,dB,beta,Y,dC,'fgemv on the delayed field',H,t,mode)
    over_field(ex,st,A,dA,X,dB,beta,Y,dC,nm); return [(st,Y)]
def fger(ex,dem,args,st,h,z):
    F_,M,N,alpha,x,incx,y,incy,A,lda=args[:10]; H=args[10] if len(args)>10 else None
    t,algo,mode=h; nm='fger '+mode; dA,dx,dy=(M,N),(M,Z1),(N,Z1)
    if mode=='LazyTag' and not z:
        ex.prove(st,z3.And(M>=1,N>=1),nm+': dimensions are positive'); return [(lazy(ex,st,H,t,x,dx,y,dy,A,dA,Z1,alpha,Z1,nm,False)[0][0],None)]
    if z: return [(zprod(ex,st,Z1,alpha,x,dx,y,dy,Z1,A,dA,'fger on the delayed field',H,t,mode)[0][0],None)]
    over_field(ex,st,x,dx,y,dy,Z1,A,dA,nm)
    if mode=='DelayedTag':     # not reduced: the caller does
        l,hh=ex.fresh('Omin'),ex.fresh('Omax'); st.pc+=[l>=-ex.F.MAX,l<=0,hh>=0,hh<=ex.F.MAX]; rwrite(ex,st,A,dA,l,hh)
    return [(st,None)]

# ------------------------------------------------------------ verified functions
def setup_dims(st,*ds):
    for d in ds: st.pc.append(z3.Or(d==0,d>=1))
def entry(M,consts,f,dl=100):
    """yields (name, run) for each variant of a function that has a range contract"""
    bn=rng.basename(f.dem); short=bn.split('::')[-1]; h=helper_t(f.dem)
    fl=rng.field_of(f.dem); z=isz(f.dem.split(',')[0])
    if fl not in rng.INFO and not z: return
    if short=='MaxDelayedDim' and h_of(f.dem) and norm(h_of(f.dem)) in rng.helper_offsets(M) and 'ZRing' not in h_of(f.dem): yield (bn,'','',''),lambda: run_mdd(M,consts,f,rng.Fld(*fl),h_of(f.dem),dl)
    if z:
        if bn=='FFLAS::fgemm' and h and h[2]=='DefaultBoundedTag' and len(f.params)==15:
            for fl2 in rng.INFO:
                if re.search(r'ZRing<%s>'%fl2[1],f.dem.split(',')[0]) and fl2[0]=='ModularBalanced': 
                    for al in(1,-1): yield (bn,h[1],h[2],'alpha=%d'%al),lambda al=al: run_zb(M,consts,f,rng.Fld(*fl2),h,al,dl)
        return
    if bn=='FFLAS::fgemv' and h and len(f.params)==13 and h[2] in('LazyTag','DelayedTag'):
        for ta in(111,112):
            for b0 in(True,False): yield (bn,h[1],h[2],{111:'N',112:'T'}[ta]+(' beta=0' if b0 else ' beta!=0')),lambda ta=ta,b0=b0: run_fgemv(M,consts,f,rng.Fld(*fl),h,ta,b0,dl)
    if bn=='FFLAS::fger' and h and len(f.params)==11 and h[2] in('LazyTag','DelayedTag'): yield (bn,h[1],h[2],''),lambda: run_fger(M,consts,f,rng.Fld(*fl),h,dl)
    if bn=='FFLAS::fger' and len(f.params)==10: yield (bn,'','public',''),lambda: run_fger0(M,consts,f,rng.Fld(*fl),dl)
    isW=bn in('FFLAS::BLAS3::Winograd','FFLAS::BLAS3::WinogradAcc_3_21')
    if (bn=='FFLAS::fgemm' or isW) and h and len(f.params)==15 and h[2] in('LazyTag','DelayedTag'):
        for ta in(111,112):
            for tb in(111,112):
                for b0 in(True,False):
                    if bn=='FFLAS::BLAS3::Winograd' and not b0: continue
                    if bn=='FFLAS::BLAS3::WinogradAcc_3_21' and b0: continue
                    yield (bn,h[1],h[2],{111:'N',112:'T'}[ta]+{111:'N',112:'T'}[tb]+(' beta=0' if b0 else ' beta!=0')), lambda ta=ta,tb=tb,b0=b0: run_fgemm(M,consts,f,rng.Fld(*fl),h,ta,tb,b0,isW,dl)
def prep(ex,st,F,h,dims,names,C0,pos):
    """helper H and ranges of the operands names=(A,B,C) at entry; C0: C is not read"""
    t,algo,mode=h; g={x:R('H.'+x) for x in rng.HM}; g['FieldMin'],g['FieldMax'],g['MaxStorableValue']=F.lo,F.hi,F.MAX
    for x in rng.HM: st.mem[('H',hoff(ex,t)[x])]=g[x]
    a,b,c=names
    if mode=='LazyTag':
        for X in 'AB': st.pc+=[g[X+'min']<=F.lo,g[X+'max']>=F.hi,g[X+'min']>=-F.MAX,g[X+'max']<=F.MAX]
        st.pc+=[g['Cmin']<=0,g['Cmax']>=0,g['Cmin']>=-F.MAX,g['Cmax']<=F.MAX]+[d>=1 for d in pos]
        ex.depthm=zmax(mag(g['Amin'],g['Amax']),mag(g['Bmin'],g['Bmax'])); st.pc+=[ex.depthm*pw4(ex,st,g['recLevel'])<=F.MAX]
        for X,n in zip('AB',(a,b)): st.rng[(n,'*')]=(g[X+'min'],g[X+'max'],None)
        st.rng[(c,'*')]=None if C0 else (g['Cmin'],g['Cmax'],None)
    else:
        for X in 'ABC': st.pc+=[g[X+'min']==F.lo,g[X+'max']==F.hi]
        for n in(a,b): st.rng[(n,'*')]=(F.lo,F.hi,None)
        st.rng[(c,'*')]=None if C0 else (F.lo,F.hi,None); st.pc+=[mag(F.lo,F.hi)*pw4(ex,st,g['recLevel'])<=F.MAX]
    ex.full=dict(zip(names,dims)); return g
def run_fgemv(M,consts,f,F,h,ta,b0,dl):
    ex=rng.Ex(M,consts,F,dl); st=rng.St(); m,n=R('m'),R('n'); setup_dims(st,m,n); alpha=R('alpha'); beta=Z0 if b0 else R('beta')
    st.pc+=[alpha>=F.lo,alpha<=F.hi,z3.Or(alpha==0,alpha>=1,alpha<=-1)]+([] if b0 else [beta>=F.lo,beta<=F.hi,z3.Or(beta<=-1,beta>=1)])
    k,y=(n,m) if ta==111 else (m,n)
    if h[2]=='LazyTag': st.pc.append(alpha!=0)
    prep(ex,st,F,h,((m,n),(k,Z1),(y,Z1)),('A','X','C'),b0,(m,n))
    return finish(ex,f,[P('F'),rv(ta),m,n,alpha,P('A'),R('lda'),P('X'),R('incX'),beta,P('C'),R('incY'),P('H')],st,P('H'),h[0],h[2],y,Z1)
def run_fger(M,consts,f,F,h,dl):
    ex=rng.Ex(M,consts,F,dl); st=rng.St(); m,n=R('m'),R('n'); st.pc+=[m>=1,n>=1]; alpha=R('alpha'); st.pc+=[alpha>=F.lo,alpha<=F.hi,z3.Or(alpha==0,alpha>=1,alpha<=-1)]
    if h[2]=='LazyTag': st.pc.append(alpha!=0)
    prep(ex,st,F,h,((m,Z1),(n,Z1),(m,n)),('x','y','C'),False,(m,n))
    return finish(ex,f,[P('F'),m,n,alpha,P('x'),R('incx'),P('y'),R('incy'),P('C'),R('lda'),P('H')],st,P('H'),h[0],'repr' if h[2]=='DelayedTag' else h[2],m,n)
def run_fger0(M,consts,f,F,dl):
    ex=rng.Ex(M,consts,F,dl); st=rng.St(); m,n=R('m'),R('n'); setup_dims(st,m,n); alpha=R('alpha'); st.pc+=[alpha>=F.lo,alpha<=F.hi,z3.Or(alpha==0,alpha>=1,alpha<=-1)]
    for x in 'xyC': st.rng[(x,'*')]=(F.lo,F.hi,None)
    ex.full=dict(x=(m,Z1),y=(n,Z1),C=(m,n))
    return finish(ex,f,[P('F'),m,n,alpha,P('x'),R('incx'),P('y'),R('incy'),P('C'),R('lda')],st,None,None,'red',m,n)
def run_fgemm(M,consts,f,F,h,ta,tb,b0,isW,dl):
    ex=rng.Ex(M,consts,F,dl); st=rng.St(); m,n,k=R('m'),R('n'),R('k'); setup_dims(st,m,n,k)
    alpha=R('alpha'); beta=Z0 if b0 else R('beta')
    st.pc+=[alpha>=F.lo,alpha<=F.hi]+([] if b0 else [beta>=F.lo,beta<=F.hi,z3.Or(beta<=-1,beta>=1)])
    st.pc.append(z3.Or(alpha==0,alpha>=1,alpha<=-1))
    t,algo,mode=h; H=P('H'); g={x:R('H.'+x) for x in rng.HM}; g['FieldMin'],g['FieldMax'],g['MaxStorableValue']=F.lo,F.hi,F.MAX
    o=hoff(ex,t)
    for x in rng.HM: st.mem[('H',o[x])]=g[x]
    st.pc+=[g['FieldMin']==F.lo,g['FieldMax']==F.hi,g['MaxStorableValue']==F.MAX]
    if mode=='LazyTag':
        for X in 'AB': st.pc+=[g[X+'min']<=F.lo,g[X+'max']>=F.hi,g[X+'min']>=-F.MAX,g[X+'max']<=F.MAX]
        st.pc+=[g['Cmin']<=0,g['Cmax']>=0,g['Cmin']>=-F.MAX,g['Cmax']<=F.MAX,m>=1,n>=1,k>=1,alpha!=0]
        ex.depthm=zmax(mag(g['Amin'],g['Amax']),mag(g['Bmin'],g['Bmax'])); st.pc+=[ex.depthm*pw4(ex,st,g['recLevel'])<=F.MAX,z3.Or(g['recLevel']<=-1,g['recLevel']==0,g['recLevel']>=1)]
        for X in 'AB': st.rng[(X,'*')]=(g[X+'min'],g[X+'max'],None)
        st.rng[('C','*')]=None if b0 else (g['Cmin'],g['Cmax'],None)
        if isW: st.pc+=[m>=1,n>=1,g['recLevel']>=1,divs(g['recLevel']-1,(m,n,k))]
        elif algo=='Winograd': st.pc+=[z3.Or(g['recLevel']==0,z3.And(g['recLevel']>=1,divs(g['recLevel'],(m,n,k))),reduced(F,g))]
    else:
        for X in 'AB': st.rng[(X,'*')]=(F.lo,F.hi,None); st.pc+=[g[X+'min']==F.lo,g[X+'max']==F.hi]
        st.rng[('C','*')]=None if b0 else (F.lo,F.hi,None); st.pc+=[g['Cmin']==F.lo,g['Cmax']==F.hi, z3.And(mag(F.lo,F.hi)*pw4(ex,st,g['recLevel'])<=F.MAX)]
    dA,dB=dimsof(ta,tb,m,n,k)
    if isW: dA,dB=[tuple(2*x for x in d) for d in(dA,dB)]; ex.full={'A':dA,'B':dB,'C':(2*m,2*n)}
    else: ex.full={'A':dA,'B':dB,'C':(m,n)}
    args=[P('F'),rv(ta),rv(tb),m,n,k,alpha,P('A'),R('lda'),P('B'),R('ldb'),beta,P('C'),R('ldc'),H]
    return finish(ex,f,args,st,H,t,mode,m,n)
def finish(ex,f,args,st,H,t,mode,m,n):
    try: finish_(ex,f,args,st,H,t,mode,m,n)
    except rng.Stop: pass
    return ex
def finish_(ex,f,args,st,H,t,mode,m,n):
    F=ex.F; outs=ex.run(f,args,st); ex.paths=len(outs)
    for s2,_ in outs:
        s2.log.append('return'); ks=[x for x in s2.rng if x[0]=='C' and x[1]!='*'] or [('C','*')]
        if mode=='LazyTag':
            lo,hi=hget(ex,s2,H,t,'Outmin'),hget(ex,s2,H,t,'Outmax')
            ex.prove(s2,z3.And(lo>=-F.MAX,lo<=0,hi>=0,hi<=F.MAX),'reported output bounds are representable and contain zero')
        elif mode=='repr': lo,hi=-F.MAX,F.MAX
        else: lo,hi=F.lo,F.hi
        for kk in ks:
            v=s2.rng[kk]; v=v and flat(v)
            if v is None: ex.prove(s2,z3.Or(m==0,n==0),'output block has no known range'); continue
            ex.prove(s2,z3.And(v[0]>=lo,v[1]<=hi),'output within the reported bounds' if mode=='LazyTag' else 'output is reduced')
    return ex

def run_mdd(M,consts,f,F,t,dl):
    """MaxDelayedDim: k products of operands within the helper's bounds, added to beta.C, stay representable"""
    ex=rng.Ex(M,consts,F,dl); ex.ovf=True; ex.body_of=rng.basename(f.dem); st=rng.St(); beta=R('beta'); g={x:R('H.'+x) for x in rng.HM}; g['FieldMin'],g['FieldMax'],g['MaxStorableValue']=F.lo,F.hi,F.MAX
    for x in rng.HM: st.mem[('H',hoff(ex,t)[x])]=g[x]
    for X in 'AB': st.pc+=[g[X+'min']<=F.lo,g[X+'max']>=F.hi,g[X+'min']>=-F.MAX,g[X+'max']<=F.MAX]
    st.pc+=[g['Cmin']<=0,g['Cmax']>=0,g['Cmin']>=-F.MAX,g['Cmax']<=F.MAX]
    try:
        outs=ex.run(f,[P('H'),beta],st); ex.paths=len(outs)
        for s2,k in outs:
            ex.prove(s2,z3.Or(k==0,k*mag(g['Amin'],g['Amax'])*mag(g['Bmin'],g['Bmax'])+zabs(beta)*mag(g['Cmin'],g['Cmax'])<=F.MAX),'MaxDelayedDim products of bounded operands stay representable')
            ex.prove(s2,z3.Or(k>=1,mag(g['Amin'],g['Amax'])*mag(g['Bmin'],g['Bmax'])+zabs(beta)*mag(g['Cmin'],g['Cmax'])>F.MAX),'MaxDelayedDim is at least one when one product fits')
            for x in rng.HM: ex.prove(s2,s2.mem[('H',hoff(ex,t)[x])]==g[x],'MaxDelayedDim leaves the helper unchanged')
    except rng.Stop: pass
    return ex

def run_zb(M,consts,f,F,h,al,dl):
    """product over the delayed field followed by setOutBounds: the bounds reported contain the output"""
    ex=rng.Ex(M,consts,F,dl); st=rng.St(); m,n,k=R('m'),R('n'),R('k'); setup_dims(st,m,n,k); beta=R('beta'); t=h[0]
    g={x:R('H.'+x) for x in rng.HM}
    for x in rng.HM: st.mem[('H',hoff(ex,t)[x])]=g[x]
    for X in 'ABC': st.pc+=[g[X+'min']<=0,g[X+'max']>=0,g[X+'min']>=-F.MAX,g[X+'max']<=F.MAX]; st.rng[(X,'*')]=(g[X+'min'],g[X+'max'],None)
    st.pc+=[zbpre(k,rv(al),beta,g)<=F.MAX]; ex.full={'A':(m,k),'B':(k,n),'C':(m,n)}
    return finish(ex,f,[P('Z'),rv(111),rv(111),m,n,k,rv(al),P('A'),R('lda'),P('B'),R('ldb'),beta,P('C'),R('ldc'),P('H')],st,P('H'),t,'LazyTag',m,n)

# ------------------------------------------------------------ registered check
def prove(tmp,tier,seed):
    import time,sys,os,pickle,tempfile,build,shutil
    sys.setrecursionlimit(20000); t0=time.time()
    M=ir.parse_module(build.irgen('rng',tmp)); consts=build.field_consts(M); limit=480 if tier=='quick' else 3000
    todo=[]
    for f in M.funcs.values():
        if f.decl: continue
        for nm,run in entry(M,consts,f,limit*0.75):
            s=' '.join(nm); heavy='BLAS3::' in s
            if tier=='quick' and (re.search(r' (NT|TN) ',s+' ') or (heavy and (' TT' in s or re.search(r'ModularBalanced<double|Modular<float',f.dem)))): continue
            if tier=='quick' and 'ModularBalanced<double' in f.dem and 'TT' in s: continue
            todo.append((0 if 'Acc' in s else 1 if heavy else 2 if 'Classic LazyTag' in s else 3,s,f,run))
    if not todo: raise RuntimeError('no delayed routine found')
    todo.sort(key=lambda x:x[0]); d=tempfile.mkdtemp(prefix='rng_',dir=tmp); procs=5 if tier=='quick' else 7; live={}; k=0
    def work(i):
        _,s,f,run=todo[i]; fl=re.search(r'Modular(Balanced)?<(\w+)',f.dem); nm=s+' '+(fl.group(0)+'>' if fl else 'ZRing')
        rng.Stats.time=0; rng.Stats.queries=0
        try:
            ex=run(); return nm,ex.oblig,ex.fails,None,rng.Stats.time,rng.Stats.queries,sorted(ex.inl)
        except (Un,rng.Undecided) as e: return nm,0,[],str(e)[:200],rng.Stats.time,rng.Stats.queries,[]
        except Exception as e: return nm,0,[],type(e).__name__+' '+str(e)[:200],0,0,[]
    while (k<len(todo) or live):
        while k<len(todo) and len(live)<procs and time.time()-t0<limit:
            pid=os.fork()
            if pid==0:
                try: r=work(k); pickle.dump(r,open(f'{d}/{k}.t','wb')); os.rename(f'{d}/{k}.t',f'{d}/{k}')
                finally: os._exit(0)
            live[pid]=k; k+=1
        if not live: break
        pid,_=os.waitpid(-1,os.WNOHANG)
        if pid: live.pop(pid,None)
        else:
            time.sleep(0.2)
            if time.time()-t0>limit:
                for q in live:
                    try: os.kill(q,9)
                    except OSError: pass
                for q in list(live): os.waitpid(q,0)
                break
    ob=dis=qs=0; st=0.; fails=[]; und=[]; fns=[]
    for i,(_,s,f,run) in enumerate(todo):
        try: nm,n,fl,u,t,q,inl=pickle.load(open(f'{d}/{i}','rb'))
        except Exception: und.append(s+': not finished within the time limit'); continue
        st+=t; qs+=q
        if u: und.append(nm+': '+u); continue
        real=[x for x in fl if 'no known range' not in x['msg']]
        if fl and not real: und.append(nm+': '+fl[0]['msg'][:160]); continue
        ob+=n; dis+=n-len(real); fns.append(nm)
        for x in real: fails.append(dict(kind='range',msg=nm+': '+x['msg'][:400],where=str(x.get('where'))[:200],path=''))
    shutil.rmtree(d,ignore_errors=True)
    return dict(obligations=ob,discharged=dis,fails=fails,undecided=und,functions=fns,solver_time=round(st,1),evaluations=qs)
