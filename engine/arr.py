"""Element-wise verification: integer and element arrays as z3 arrays, contracts quantified over indices,
loop invariants chosen (Houdini) among the candidates a contract offers and checked for base case and inductive step."""
import time,itertools,z3
from lib import *
import ir
from loops import header_const,iteration,affine
ES=z3.DeclareSort('Elt')
IS=z3.IntSort()
ROW=z3.ArraySort(IS,ES)
I1=z3.ArraySort(IS,IS); E1=ROW; E2=z3.ArraySort(IS,ROW)
def sm(x): return z3.simplify(x) if z3.is_expr(x) and not z3.is_const(x) else x
def sel(a,*ix):
    for i in ix: a=z3.Select(a,sm(i))
    return a
_n=itertools.count()
def nm(p): return f"{p}!{next(_n)}"
def skol(x):
    """not forall -> fresh constants"""
    if z3.is_not(x) and z3.is_quantifier(x.arg(0)) and x.arg(0).is_forall():
        q=x.arg(0); vs=[z3.Const(nm('sk'),q.var_sort(i)) for i in range(q.num_vars())]
        return z3.Not(z3.substitute_vars(q.body(),*reversed(vs)))
    return x
class NoInv(Exception): pass
class EV:
    __slots__=('z',)
    def __init__(s,zz): s.z=zz
    def __repr__(s): return 'EV%d'%s.z.get_id()
def pd2(ex,st,off,ld):
    """row and column of an offset; for constant row lengths the decomposition with a column provably inside the row is chosen"""
    q,r=pdiv(off,ld)
    if not ld.is_const() or ld.const()<2: return q,r
    c=ld.const()
    def good(r_): return st.path.le(ZERO,r_) and st.path.le(r_+1,ld)
    if r.is_const() or good(r): return q,r
    q2={k:v//c for k,v in off.d.items() if v//c}; r2={k:v%c for k,v in off.d.items() if v%c}
    q2,r2=Poly(q2),Poly(r2)
    return (q2,r2) if good(r2) else (q,r)
class ZArr:
    """sort 'i' (1-d integers), 'e' (1-d elements) or 'm' (2-d elements, leading dimension ld)"""
    __slots__=('name','esz','sort','a','ld','rows','cols','fresh','freed','orig','exact')
    def __init__(s,name,esz,sort,a=None,ld=None,rows=None,cols=None,fresh=False):
        s.name=name; s.esz=esz; s.sort=sort; s.ld=ld; s.rows=rows; s.cols=cols; s.fresh=fresh; s.freed=False; s.exact=False
        s.a=a if a is not None else z3.Const(nm(name),{'i':I1,'e':E1,'m':E2}[sort])
        s.orig=s.a.decl().name() if a is None else None
    def copy(s,a=None):
        o=ZArr(s.name,s.esz,s.sort,s.a if a is None else a,s.ld,s.rows,s.cols,s.fresh); o.freed=s.freed; o.exact=getattr(s,'exact',False); o.orig=s.orig if a is None else None; return o
    def havoc(s): return s.copy(z3.Const(nm(s.name),s.a.sort()))
    def subs(s,m,fv):
        o=s.copy(); o.ld=s.ld.subs(m) if s.ld is not None else None
        o.rows=s.rows.subs(m) if s.rows is not None else None; o.cols=s.cols.subs(m) if s.cols is not None else None
        return o
    def key(s): return 'Z%s%d'%(s.name,s.a.get_id())
class AExec(Exec):
    qto=25000; mbqi_to=1500
    def __init__(s,*a,**k): Exec.__init__(s,*a,**k); s.keep_helpers=True; s.contract=None; s.cctx=None; s.loops=[]; s.need=True; s.setup=False; s.slow=False; s.cheap=0; s.dropc={}; s.linfo={}
    # -------------------------------------------------------------- proving
    def prove(s,st,goal,extra=(),to=None,mb=True):
        Stats.queries+=1; t=time.time()
        cs=list(st.path.cs)+list(st.notes)+list(extra); at=set()
        for c in cs+[goal]: at|=set(map(str,zvars(c)))
        cs+=axioms_for(at); to=to or s.qto
        so=z3.SimpleSolver(); so.set('timeout',to); so.set('auto_config',False); so.set('smt.mbqi',False)
        ng=z3.Not(goal); es=lambda x: z3.simplify(x,expand_select_store=True) if not z3.is_quantifier(x) and 'store' in x.sexpr() else x
        cs=[es(x) for x in cs]; ng=es(skol(ng))
        so.add(*cs); so.add(ng); r=so.check(); s.lastwhy=str(r)+' '+(so.reason_unknown() if r==z3.unknown else ''); s.lastt=time.time()-t
        if r==z3.unknown and ('timeout' in s.lastwhy or 'cancel' in s.lastwhy or 'resource' in s.lastwhy): s.slow=True
        if r==z3.unknown and mb:
            so=z3.Solver(); so.set('timeout',min(to,s.mbqi_to)); so.add(*cs); so.add(ng); r=so.check()
        Stats.time+=time.time()-t
        return r==z3.unsat
    # -------------------------------------------------------------- memory
    def new_arr(s,st,name,esz,size): return s.new_z(st,name,esz,'e',None,None,size)
    def new_z(s,st,name,esz,sort,ld,rows,cols):
        i=name; k=0
        while i in st.mem: k+=1; i=f"{name}#{k}"
        st.mem[i]=ZArr(i,esz,sort,None,ld,rows,cols,True); return Ptr(i,ZERO)
    def idx(s,st,p,n=1,step=None,check=True):
        """index tuple of an access to n consecutive (step None or 1: along the row; 'ld': along the column) elements"""
        o=st.mem[p.obj]
        if o.freed: raise Violation('use-after-free',f'access to freed {p.obj}')
        off=div_bytes(p.off,o.esz)
        if off is None: raise Unsupported('misaligned access')
        if o.sort!='m':
            if check:
                n_=n if isinstance(n,Poly) else Poly.c(n)
                ok=st.path.le(ZERO,off) or s.prove(st,z(off)>=0,to=3000)
                if o.cols is not None: ok=ok and (st.path.le(off+n_,o.cols) or s.prove(st,z(off+n_)<=z(o.cols),to=3000))
                s.obligation(ok,'bounds',f'access {p} of {n} element(s) outside {o.name}[{o.cols}]')
            return (off,)
        q,r=pd2(s,st,off,o.ld)
        if check:
            n_=n if isinstance(n,Poly) else Poly.c(n)
            rr,cc=(n_,ONE) if step=='ld' else (ONE,n_)
            ok=all(st.path.le(a,b) or s.prove(st,z(a)<=z(b),to=3000) for a,b in ((ZERO,q),(q+rr,o.rows),(ZERO,r),(r+cc,o.cols)) if b is not None)
            s.obligation(ok,'bounds',f'access {p} ({rr}x{cc} at row {q} column {r}) outside the {o.rows} x {o.cols} window of {o.name}')
        return (q,r)
    def zsel(s,o,ix): return sel(o.a,*[z(i) for i in ix])
    def zstore(s,st,p,ix,v):
        o=st.mem[p.obj]
        if o.sort=='m': a=z3.Store(o.a,z(ix[0]),z3.Store(z3.Select(o.a,z(ix[0])),z(ix[1]),v))
        else: a=z3.Store(o.a,z(ix[0]),v)
        st.mem[p.obj]=o.copy(a)
    def load(s,st,p,ty):
        if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),ZArr):
            o=st.mem[p.obj]; sz,_=ir.size_align(s.M,ty)
            if sz!=o.esz:
                if sz%o.esz or o.sort=='i': raise Unsupported('access size')
                n=sz//o.esz; ix=s.idx(st,p,n); out=[]
                for q in range(n):
                    e=s.zsel(o,ix[:-1]+(ix[-1]+q,)); out+=[(e,bb) for bb in range(o.esz)]
                return ('vb',tuple(out))
            e=s.zsel(o,s.idx(st,p))
            if o.sort=='i':
                v=Poly.v(fresh('ld')); st.path=st.path.add(z(v)==e); return v
            return EV(e)
        return Exec.load(s,st,p,ty)
    def store(s,st,p,v,ty):
        if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),ZArr):
            o=st.mem[p.obj]; sz,_=ir.size_align(s.M,ty)
            if sz!=o.esz:
                if not(isinstance(v,tuple) and v[0]=='vb') or sz%o.esz: raise Unsupported('access size')
                n=sz//o.esz; ix=s.idx(st,p,n)
                for q in range(n):
                    ln=v[1][q*o.esz:(q+1)*o.esz]
                    if ln[0] is None or any(x is None or x[1]!=i or not x[0].eq(ln[0][0]) for i,x in enumerate(ln)): w=z3.Const(nm('mix'),ES)
                    else: w=ln[0][0]
                    s.zstore(st,p,ix[:-1]+(ix[-1]+q,),w)
                return
            ix=s.idx(st,p)
            if o.sort=='i':
                if not isinstance(v,Poly): raise Unsupported('store of '+repr(v)[:40])
                s.zstore(st,p,ix,z(v))
            else: s.zstore(st,p,ix,s.elz(v))
            return
        return Exec.store(s,st,p,v,ty)
    def elz(s,v):
        if isinstance(v,EV): return v.z
        if isinstance(v,MT):
            q=v.is_scalar_poly()
            if q is not None and q.is_const(): return z3.Const('elt:%s'%q.const(),ES)
        return z3.Const(nm('opq'),ES)
    def step(s,f,b,I,st,depth):
        if I.op=='shufflevector':
            m=re.match(r'.*shufflevector <(\d+) x ([\w*]+)> ([^,]+), <\d+ x [\w*]+> ([^,]+), <(\d+) x i32> (.*)',I.line)
            if not m: raise Unsupported('shufflevector')
            n=int(m.group(1)); w={'double':8,'i64':8,'float':4,'i32':4,'i16':2,'i8':1}.get(m.group(2))
            if w is None: raise Unsupported('shufflevector')
            def opnd(t):
                t=t.strip()
                if t.startswith('%'): return st.env.get(t[1:].strip('"'))
                return None
            a,c=opnd(m.group(3)),opnd(m.group(4)); mk=m.group(6).strip()
            if mk.startswith('zeroinitializer'): ix=[0]*int(m.group(5))
            else: ix=[int(x) if x!='p' else None for x in re.findall(r'i32 (-?\d+|p)',mk.split('>')[0])]
            out=[]
            for i in ix:
                src,k=(a,i) if i is not None and i<n else (c,(i or 0)-n)
                if i is None or not(isinstance(src,tuple) and src and src[0]=='vb'): out+=[None]*w
                else: out+=src[1][k*w:(k+1)*w]
            st.env[I.res]=('vb',tuple(out)); return None
        if I.op=='alloca' and I.ty.k=='arr':
            e=ir.resolve(s.M,I.ty.a); sz,_=ir.size_align(s.M,I.ty); es,_=ir.size_align(s.M,I.ty.a)
            if e.k in('fp','int') and sz//es>64:
                nmx=f'L{len(st.frames)}:{I.res}'; st.mem[nmx]=ZArr(nmx,es,'e',None,None,None,Poly.c(sz//es),True); st.env[I.res]=Ptr(nmx,ZERO); return None
        return Exec.step(s,f,b,I,st,depth)
    def el_get(s,st,p):
        if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),ZArr): return EV(s.zsel(st.mem[p.obj],s.idx(st,p)))
        if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),Cells) and p.off.is_const():
            c=st.mem[p.obj].cells.get(p.off.const())
            if c is not None and isinstance(c[0],EV): return c[0]
        return Exec.el_get(s,st,p)
    def el_put(s,st,p,v,sz=8):
        if isinstance(p,Ptr) and isinstance(st.mem.get(p.obj),ZArr):
            s.zstore(st,p,s.idx(st,p),s.elz(v)); return
        Exec.el_put(s,st,p,v,sz)
    def as_el(s,v): return v if isinstance(v,EV) else Exec.as_el(s,v)
    def memcpy(s,st,d,sr,n,move=True):
        if isinstance(d,Ptr) and isinstance(st.mem.get(d.obj),ZArr):
            o=st.mem[d.obj]; q=div_bytes(n,o.esz)
            if q is None or not isinstance(st.mem.get(sr.obj),ZArr): raise Unsupported('memcpy')
            s.vcopy(st,d,None,sr,None,q); return
        Exec.memcpy(s,st,d,sr,n)
    def intrinsic(s,st,fn,args,I):
        if fn.startswith(('llvm.memcpy','llvm.memmove')) and isinstance(args[0],Ptr) and isinstance(st.mem.get(args[0].obj),ZArr):
            if fn.startswith('llvm.memcpy') and args[0].obj==args[1].obj: raise Unsupported('memcpy within one array')
            s.memcpy(st,*args[:3]); return [(st,None)]
        return Exec.intrinsic(s,st,fn,args,I)
    # ---- strided vectors: (obj, index, direction)
    def vec(s,st,p,inc,n):
        o=st.mem[p.obj]
        if not isinstance(o,ZArr): raise Unsupported('vector in '+p.obj)
        if inc is None: inc=ONE
        if o.sort!='m' or inc==1 or st.path.eq(inc,ONE):
            if not (inc==1 or st.path.eq(inc,ONE)): raise Unsupported('strided 1-d vector')
            return (p.obj,s.idx(st,p,n,1),0 if o.sort!='m' else 1)
        if inc==o.ld or st.path.eq(inc,o.ld): return (p.obj,s.idx(st,p,n,'ld'),0)
        raise Unsupported('vector stride %s in %s'%(inc,p.obj))
    def vget(s,st,v,k):
        ob,ix,ax=v; i=[z(x) for x in ix]; i[ax]=i[ax]+k; return sel(st.mem[ob].a,*i)
    def vput(s,st,v,n,fn):
        """v[k] <- fn(k) for 0<=k<n (fn evaluated on the state before)"""
        ob,ix,ax=v; o=st.mem[ob]; i=[z(x) for x in ix]
        if o.sort=='m':
            r,c=z3.Ints('r! c!'); k=(r-i[0]) if ax==0 else (c-i[1])
            fixed=(c==i[1]) if ax==0 else (r==i[0])
            a=z3.Lambda([r],z3.Lambda([c],z3.If(z3.And(fixed,k>=0,k<z(n)),fn(k),sel(o.a,r,c))))
            # name the new array and describe it by a quantified fact: keeps terms small
            N=z3.Const(nm(ob),E2)
            st.notes=st.notes+(z3.ForAll([r,c],sel(N,r,c)==z3.If(z3.And(fixed,k>=0,k<z(n)),fn(k),sel(o.a,r,c)),patterns=[sel(N,r,c)]),)
        else:
            x=z3.Int('x!'); k=x-i[0]; N=z3.Const(nm(ob),o.a.sort())
            st.notes=st.notes+(z3.ForAll([x],sel(N,x)==z3.If(z3.And(k>=0,k<z(n)),fn(k),sel(o.a,x)),patterns=[sel(N,x)]),)
        st.mem[ob]=o.copy(N)
    def vcopy(s,st,d,di,sr,si,n,move=True):
        n=P_(n)
        if n==0: return
        D=s.vec(st,d,di,n); S=s.vec(st,sr,si,n)
        if d.obj==sr.obj and not move:
            i=[z(x) for x in D[1]]; j=[z(x) for x in S[1]]; ax=D[2]
            dis=[i[ax]<=j[ax],i[ax]>=j[ax]+z(n)]+([i[1-ax]!=j[1-ax]] if len(i)==2 else [])
            s.obligation(D[2]==S[2] and s.prove(st,z3.Or(*dis),to=3000),'overlap',f'copy of {n} elements from {sr} to {d} overlaps')
        s.vput(st,D,n,lambda k:s.vget(st,S,k))
    def retag(s,st,obj,ld):
        """a fresh block that was never accessed may be viewed with another row length"""
        o=st.mem[obj]
        if o.sort=='m' and (ld==o.ld or st.path.eq(ld,o.ld)): return
        if getattr(o,'exact',False) and o.sort=='m':
            # a block of exactly rows*ld elements owned by the caller, viewed with another row length: its contents are forgotten
            size=o.rows*o.ld; q,r=pdiv(size,ld)
            if not r.is_zero(): raise Unsupported('row length %s of a block of size %s'%(ld,size))
            n=ZArr(o.name,o.esz,'m',None,ld,q,ld,False); n.exact=True; n.a=z3.Const(nm(o.name),n.a.sort()); st.mem[obj]=n; return
        if not(o.fresh and o.a.decl().arity()==0 and o.a.decl().name()==o.orig and o.cols is not None): 
            if o.sort=='m': raise Unsupported('leading dimension %s of %s'%(ld,obj))
            return
        size=o.cols if o.sort!='m' else o.rows*o.ld
        q,r=pdiv(size,ld)
        if not r.is_zero(): raise Unsupported('row length %s of a block of size %s'%(ld,size))
        n=ZArr(o.name,o.esz,'m',None,ld,q,ld,True); st.mem[obj]=n
    def mcopy(s,st,d,ldd,sr,lds_,m,n):
        """m x n block copy between 2-d arrays"""
        if m==0 or n==0: return
        for p_,l_ in ((d,ldd),(sr,lds_)):
            if isinstance(st.mem.get(p_.obj),ZArr): s.retag(st,p_.obj,l_)
        od,os_=st.mem[d.obj],st.mem[sr.obj]
        for o,ld in ((od,ldd),(os_,lds_)):
            if not isinstance(o,ZArr): raise Unsupported('matrix in '+o.name)
            if o.sort=='m' and not(ld==o.ld or st.path.eq(ld,o.ld)): raise Unsupported('leading dimension %s of %s'%(ld,o.name))
        if od.sort!='m' or os_.sort!='m': raise Unsupported('block copy with a vector')
        D_=s.idx2(st,d,m,n); S_=s.idx2(st,sr,m,n)
        i=[z(x) for x in D_]; j=[z(x) for x in S_]
        r,c=z3.Ints('r! c!'); N=z3.Const(nm(d.obj),E2)
        st.notes=st.notes+(z3.ForAll([r,c],sel(N,r,c)==z3.If(z3.And(r>=i[0],r<i[0]+z(m),c>=i[1],c<i[1]+z(n)),sel(os_.a,r-i[0]+j[0],c-i[1]+j[1]),sel(od.a,r,c)),patterns=[sel(N,r,c)]),)
        if d.obj==sr.obj:
            # the code copies row by row: overlapping rows need care
            ok=s.prove(st,z3.Or(i[0]<=j[0],i[0]>=j[0]+z(m),i[1]>=j[1]+z(n),j[1]>=i[1]+z(n)),to=3000)
            s.obligation(ok,'overlap',f'block copy with overlapping source and destination in {d.obj}')
        st.mem[d.obj]=od.copy(N)
    def idx2(s,st,p,m,n):
        o=st.mem[p.obj]; q,r=s.idx(st,p,check=False)
        ok=all(st.path.le(a,b) or s.prove(st,z3.Or(z(m)==0,z(n)==0,z(a)<=z(b)),to=3000) for a,b in ((ZERO,q),(q+m,o.rows),(ZERO,r),(r+n,o.cols)) if b is not None)
        s.obligation(ok,'bounds',f'block {m}x{n} at row {q} column {r} outside the {o.rows} x {o.cols} window of {o.name}')
        return (q,r)
    # -------------------------------------------------------------- loops
    def merge(s,f,cfg,b,sts):
        live=cfg['livein'][b]
        for _,st in sts:
            e=st.env
            for k in [k for k in e if k not in live]: del e[k]
        return sts
    def merge_rets(s,res): return res
    def do_loop(s,f,cfg,h,st,depth):
        try: return s.loop1(f,cfg,h,st,depth)
        except NeedSplit as e:
            outs=[]; s.splits=getattr(s,'splits',0)+1
            if s.splits>60: raise Unsupported('split limit')
            for c in (e.cond,z3.Not(e.cond)):
                t=st.fork(); t.path=t.path.add(c)
                if t.path.feasible(): outs+=s.do_loop(f,cfg,h,t,depth)
            return outs
    def loop1(s,f,cfg,h,st,depth):
        body=cfg['loops'][h]
        if not getattr(s.contract,'nounroll',False) and header_const(s,f,h,st,depth) is not None:
            n=0; cur=[st]; outs=[]
            while cur:
                s0=cur.pop(); n+=1
                if n>40: raise Unsupported('unroll limit')
                if header_const(s,f,h,s0,depth) is None: outs+=s.symbolic(f,cfg,h,s0,depth,body); continue
                back,ext=iteration(s,f,cfg,h,s0,depth,body); outs+=ext; cur+=back
            return outs
        return s.symbolic(f,cfg,h,st,depth,body)
    def symbolic(s,f,cfg,h,st0,depth,body):
        phis=[I for I in f.blocks[h] if I.op=='phi']; names=[I.res for I in phis]
        def trial(g,frz=False):
            s.trial+=1; s.cheap+=1
            try: return iteration(s,f,cfg,h,g,depth,body)
            finally: s.trial-=1; s.cheap-=1
        ck=(f.name,h,depth,len(s.loops)) ; info=s.linfo.get((f.name,h))
        init={n:st0.env[n] for n in names}; delta={}
        if info is None:
            try: back,_=trial(st0)
            except Violation:
                s.relax=getattr(s,'relax',0)+1
                try: back,_=trial(st0)
                except Violation: back=None
                finally: s.relax-=1
                if not back: back=None
            if back is not None and not back:
                _,e=iteration(s,f,cfg,h,st0,depth,body); return e
            for n in names:
                ds={repr(affine(init[n],b.env.get(n))):affine(init[n],b.env.get(n)) for b in (back or [])}
                delta[n]=next(iter(ds.values())) if len(ds)==1 else None
        else: delta=dict(info[0])
        k=fresh('k'); zk=zatom(k)
        mod=set(); cellmod=set(); fv={}
        if info is not None: mod|={o for o in info[1] if o in st0.mem}; cellmod|={(o,c) for o,c in info[2] if o in st0.mem and isinstance(st0.mem[o],Cells) and c in st0.mem[o].cells}
        def vals(kp):
            V={}
            for n in names:
                v0=init[n]
                if delta[n] is not None: V[n]=v0+delta[n]*kp if isinstance(v0,Poly) else Ptr(v0.obj,v0.off+delta[n]*kp)
                else: V[n]=fv[n]
            V['$k']=kp
            return V
        def generic():
            g=st0.fork(); g.path=g.path.add(zk>=0)
            for n in names:
                if delta[n] is None:
                    v0=init[n]
                    if isinstance(v0,Poly): fv[n]=Poly.v(fresh(n))
                    elif isinstance(v0,BV): fv[n]=BV(z3.Bool(nm(n)))
                    elif isinstance(v0,Ptr): raise Unsupported('pointer induction variable '+n)
                    elif isinstance(v0,EV): fv[n]=EV(z3.Const(nm(n),ES))
                    else: fv[n]=v0
            g.env.update({n:v for n,v in vals(Poly.v(k)).items() if n!='$k'})
            for o in mod: g.mem[o]=st0.mem[o].havoc()
            for (o,c) in cellmod:
                q=g.mem[o].copy(); v,sz=q.cells[c]
                q.cells[c]=((Poly.v(fresh('cell')) if isinstance(v,Poly) else EV(z3.Const(nm('cell'),ES)) if isinstance(v,(EV,MT)) or v is OPQ else s.bad('loop-carried cell')),sz); g.mem[o]=q
            return g
        # 1. stabilise deltas and the set of modified objects
        for _ in range(12 if info is None or not s.cheap else 0):
            g=generic(); 
            try: back,_e=trial(g)
            except Violation as v: back=None; viol=v
            if back is None:
                # obligations of the body need invariants: find the modified set in a relaxed run
                s.relax=getattr(s,'relax',0)+1
                try: back,_e=trial(g)
                except Violation as v: raise Unsupported('loop body: '+str(v))
                finally: s.relax-=1
            ch=False
            V1=vals(Poly.v(k)+1)
            for b in back:
                for n in names:
                    if delta[n] is None: continue
                    v=b.env.get(n); e=V1[n]
                    same=(isinstance(v,Poly) and isinstance(e,Poly) and (v==e or b.path.eq(v,e))) or (isinstance(v,Ptr) and isinstance(e,Ptr) and v.obj==e.obj and (v.off==e.off or b.path.eq(v.off,e.off)))
                    if not same: delta[n]=None; ch=True
                for o,x in b.mem.items():
                    y=g.mem.get(o)
                    if isinstance(x,ZArr) and isinstance(y,ZArr):
                        if not x.a.eq(y.a) and o not in mod: mod.add(o); ch=True
                    elif isinstance(x,Cells) and isinstance(y,Cells):
                        for c,(v,sz) in x.cells.items():
                            if c in y.cells and o in st0.mem and c in st0.mem[o].cells and repr(v)!=repr(y.cells[c][0]) and (o,c) not in cellmod: cellmod.add((o,c)); ch=True
            if not ch: break
        else:
            if not(info is not None and s.cheap): raise Unsupported('loop state does not stabilise')
        s.linfo[(f.name,h)]=(dict(delta),set(mod),set(cellmod))
        if s.cheap:
            g=generic(); back,ext=iteration(s,f,cfg,h,g,depth,body); return ext
        # 2. candidates
        ints=[n for n in names if isinstance(init[n],Poly)]
        outer=[v for l in s.loops for v in l]
        cands=[]
        B=[ZERO]+[a for a in s.params_int]+[init[n] for n in ints]+outer
        for bb in body:
            for I in f.blocks[bb]:
                if I.op=='icmp':
                    for a in I.args:
                        try: v=s.val(st0,a,ir.Ty('int',64))
                        except Exception: continue
                        if isinstance(v,Poly) and not any(isinstance(init[n],Poly) and a==n for n in names): B.append(v)
        B=list({repr(x):x for x in B if isinstance(x,Poly)}.values())
        for n in ints:
            for t in B:
                cands.append(Cand(f'{n}<={t}',lambda V,S,n=n,t=t: z(V[n])<=z(t)))
                cands.append(Cand(f'{t}<={n}',lambda V,S,n=n,t=t: z(t)<=z(V[n])))
        if s.contract is not None and s.contract.invs is not None:
            lc=LoopCtx(s,st0,ints+['$k'],dict(init,**{'$k':ZERO}),mod,outer)
            cands+=s.contract.invs(s.cctx,lc)
        for o in sorted(mod):
            kc=s.contract; v=s.cctx.old.get(o) if s.cctx is not None else None
            if kc is None or v is None: continue
            rg=kc.mods.get(o)
            if v.o.sort=='m':
                r_,c_=z3.Ints('r! c!'); cands.append(Cand(f'frame of {o}',lambda V,S,o=o,rg=rg,v=v: z3.ForAll([r_,c_],z3.Implies(z3.Not(rg(s.cctx,r_-v.b[0],c_-v.b[1])) if rg else z3.BoolVal(True),sel(S.mem[o].a,r_,c_)==sel(v.a,r_,c_)),patterns=[sel(S.mem[o].a,r_,c_)]),quant=True))
            else:
                x_=z3.Int('x!'); cands.append(Cand(f'frame of {o}',lambda V,S,o=o,rg=rg,v=v: z3.ForAll([x_],z3.Implies(z3.Not(rg(s.cctx,x_-v.b[0])) if rg else z3.BoolVal(True),sel(S.mem[o].a,x_)==sel(v.a,x_)),patterns=[sel(S.mem[o].a,x_)]),quant=True))
        V0={n:init[n] for n in names}; V0['$k']=ZERO
        keep=[]; gone=s.dropc.get(ck,set()); allc=cands; cands=[c for c in cands if c.name not in gone]
        if any(c.req for c in allc) and not any(c.req for c in cands): cands=allc
        for c in cands:
            if s.prove(st0,c.f(V0,st0),c.ax(V0,st0),mb=False): keep.append(c)
            elif DEBUGA: print('  base fails',c.name)
        # 3. Houdini
        inner=[x for x in (vals(Poly.v(k)).values()) if isinstance(x,Poly)]
        while True:
            g=generic(); V=vals(Poly.v(k))
            for c in keep:
                fo=c.f(V,g)
                if c.quant: g.notes=g.notes+(fo,)
                else: g.path=g.path.add(fo)
                for a in c.ax(V,g): g.notes=g.notes+(a,)
            s.loops.append([x for n_,x in V.items() if isinstance(x,Poly) and (n_!='$k' or not ints)])
            s.relax=getattr(s,'relax',0)+1; s.trial+=1
            try: back,ext=iteration(s,f,cfg,h,g,depth,body)
            finally: s.loops.pop(); s.relax-=1; s.trial-=1
            drop=set()
            V1=vals(Poly.v(k)+1)
            for b in back:
                W=dict(V1)
                for n in names:
                    if delta[n] is None: W[n]=b.env.get(n)
                for i,c in enumerate(keep):
                    if i in drop: continue
                    try: ok=s.prove(b,c.f(W,b),c.ax(V,b)+c.ax(W,b),mb=False)
                    except (AttributeError,TypeError): ok=False
                    if not ok:
                        drop.add(i)
                        if DEBUGA: print('  step fails',c.name,s.lastwhy,'%.1f'%s.lastt)
            if not drop: break
            keep=[c for i,c in enumerate(keep) if i not in drop]
        s.dropc[ck]=gone|({c.name for c in allc}-{c.name for c in keep})
        if DEBUGA: print('LOOP',h,'keeps',[c.name for c in keep])
        s.invs=getattr(s,'invs',[]); s.invs.append([c.name for c in keep if c.quant])
        if any(c.req for c in allc) and not any(c.req for c in keep) and not getattr(s,'relax',0): raise (Unsupported if s.slow or s.trial else NoInv)('no loop invariant is inductive for the loop at '+h+' in '+basename(f.dem))
        # 4. final run under the kept invariants, with obligations
        g=generic(); V=vals(Poly.v(k))
        for c in keep:
            fo=c.f(V,g)
            if c.quant: g.notes=g.notes+(fo,)
            else: g.path=g.path.add(fo)
            for a in c.ax(V,g): g.notes=g.notes+(a,)
        s.loops.append([x for n_,x in V.items() if isinstance(x,Poly) and (n_!='$k' or not ints)])
        s.oblig+=len(keep)*2 if not s.trial else 0
        try: back,ext=iteration(s,f,cfg,h,g,depth,body)
        finally: s.loops.pop()
        return ext
    def bad(s,m): raise Unsupported(m)
    def obligation(s,ok,kind,msg,st=None):
        if getattr(s,'relax',0): return
        Exec.obligation(s,ok,kind,msg,st)
DEBUGA=False
class Cand:
    """candidate invariant: f(values of the induction variables, state) -> formula; ax: definitional instances of ghost functions"""
    def __init__(s,name,f,ax=None,quant=False,req=False): s.name=name; s.f=f; s._ax=ax; s.quant=quant; s.req=req
    def ax(s,V,S): return list(s._ax(V,S)) if s._ax else []
class LoopCtx:
    def __init__(s,ex,st,ints,init,mod,outer): s.ex=ex; s.st=st; s.ints=ints; s.init=init; s.mod=mod; s.outer=outer
# -------------------------------------------------------------- contracts
class View:
    """array seen from a pointer"""
    def __init__(s,st,p,ex,ld=None):
        if not isinstance(p,Ptr) or not isinstance(st.mem.get(p.obj),ZArr): raise Unsupported('array argument '+repr(p)[:60])
        if ld is not None: ex.retag(st,p.obj,ld)
        s.p=p; s.o=st.mem[p.obj]; o=s.o
        off=div_bytes(p.off,o.esz)
        if off is None: raise Unsupported('misaligned')
        if o.sort=='m':
            if ld is not None and not (ld==o.ld or st.path.eq(ld,o.ld)): raise Unsupported('leading dimension %s of %s'%(ld,p.obj))
            q,r=pd2(ex,st,off,o.ld); s.b=(z(q),z(r)); s.pb=(q,r)
        else: s.b=(z(off),); s.pb=(off,)
        s.a=o.a
    def __call__(s,*ix): return sel(s.a,*[b+i for b,i in zip(s.b,ix)])
    def at(s,a):
        v=View.__new__(View); v.p=s.p; v.o=s.o; v.b=s.b; v.pb=s.pb; v.a=a; return v
class ACtx:
    def __init__(s,ex,st,args): s.ex=ex; s.st=st; s.a=args; s.old={}; s.new={}
    def v(s,n): return z(s.a[n])
class AContract:
    """params: name:kind with kind P (integer array), A (element matrix, leading dimension given by parameter ld=...), n (integer), ld, F, flags.
       pre(c)->[(name,formula)], mods: {array: in-range predicate}, post(c)->[(name,formula)]"""
    trusted=False
    def __init__(s,name,params,pre,mods,post,invs=None,ret=None,lds=None,shape=None,dem=None,props=(),sizes=None):
        s.name=name; s.params=[p.split(':') for p in params.split()]; s.pre=pre; s.mods=mods; s.post=post; s.invs=invs; s.lds=lds or {}; s.dem=re.compile(dem) if dem else None; s.ret=ret; s.shape=shape or {}; s.props=props; s.sizes=sizes or {}
    def ldof(s,n,d):
        l=s.lds.get(n); return None if l is None else d[l] if isinstance(l,str) else l(d)
    def ctx(s,ex,st,args):
        d={}
        for (n,*k),a in zip(s.params,args):
            kind=k[0] if k else 'n'
            if kind in ENUMS:
                if isinstance(a,Poly) and a.is_const(): a=a.const()
                elif not isinstance(a,int): raise Unsupported('symbolic flag')
            elif kind in('n','ld') and not isinstance(a,Poly): raise Unsupported('integer argument '+n)
            d[n]=a
        c=ACtx(ex,st,d)
        for (n,*k) in s.params:
            if k and k[0] in('P','A','V'):
                c.old[n]=View(st,d[n],ex,s.ldof(n,d))
        for g,fn in getattr(s,'ghosts',{}).items():
            c.a[g]=Poly.v(g) if ex.cctx is None and ex.setup else fn(c)
        return c
    def apply(s,ex,st,args,I,dem):
        st=st.fork() if False else st
        c=s.ctx(ex,st,args)
        for (n,*k) in s.params:
            if k and k[0]=='n': ex.obligation(st.path.le(ZERO,c.a[n]) or ex.prove(st,z(c.a[n])>=0),'dimension',f'{n}={c.a[n]} may be negative')
        for nme,fo in s.pre(c): ex.obligation(ex.prove(st,fo),'precondition',f'{nme} of {s.name}')
        for n,rng in s.mods.items():
            v=c.old[n]; o=v.o
            if n in getattr(s,'outlds',{}):
                if not getattr(o,'exact',False): raise Unsupported('reshaping of '+o.name)
                c.new[n]=View(st,v.p,ex,s.outlds[n](c.a)); continue
            N=z3.Const(nm(o.name),o.a.sort()); c.new[n]=v.at(N)
            # frame
            if o.sort=='m':
                r,q=z3.Ints('r! c!'); st.notes=st.notes+(z3.ForAll([r,q],z3.Implies(z3.Not(rng(c,r-v.b[0],q-v.b[1])),sel(N,r,q)==sel(o.a,r,q)),patterns=[sel(N,r,q)]),)
            else:
                x=z3.Int('x!'); st.notes=st.notes+(z3.ForAll([x],z3.Implies(z3.Not(rng(c,x-v.b[0])),sel(N,x)==sel(o.a,x)),patterns=[sel(N,x)]),)
            # bounds of the window inside the object
            if n in s.sizes:
                for b,sz,tot in zip(v.pb,s.sizes[n](c),((o.rows,o.cols) if o.sort=='m' else (o.cols,))):
                    if tot is not None: ex.obligation(st.path.le(b+sz,tot) or ex.prove(st,z(b+sz)<=z(tot)),'bounds',f'{n} window of {s.name} outside {o.name}')
        r=None
        if s.ret: r=Poly.v(fresh('ret')); c.ret=z(r)
        for nme,fo in s.post(c): st.notes=st.notes+(fo,)
        for n in s.mods: st.mem[c.old[n].p.obj]=c.new[n].o.copy(c.new[n].a)
        return [(st,r)]
class ALib(Library):
    def lookup(s,bn,dem,g):
        for k in s.exact.get(bn,[]):
            if getattr(k,'alias',None): continue
            if k.dem is not None and not k.dem.search(dem): continue
            if g is not None and len(g.params)<len(k.params): continue
            return k
        for rx,mk,cache in s.regex:
            if rx.match(bn):
                key=(bn,len(g.params) if g is not None else 0)
                if key not in cache: cache[key]=mk(rx.match(bn),bn,dem,g)
                if cache[key] is not None: return cache[key]
        return None
    def variants(s,bn,dem,g): return [k for k in s.exact.get(bn,[]) if isinstance(k,AContract) and (k.dem is None or k.dem.search(dem)) and (g is None or len(g.params)>=len(k.params))]
    def con(s,name,*a,**k):
        al=k.pop('alias',None); nt=k.pop('note',''); xt={x:k.pop(x) for x in ('eqs','exact','outlds','nounroll') if x in k}
        c=AContract(name,*a,**k); c.alias=al or {}; c.note=nt; c.__dict__.update(xt); s.exact.setdefault(name,[]).append(c); return c
def verify(M,lib,f,k,consts,flags,deadline=100):
    R=dict(name=f.dem,status=None,oblig=0,reason='',fails=[],inlined=[],uses=[],invs=[]); t0=time.time()
    ex=AExec(M,lib,consts); ex.fdem=f.dem; ex.deadline=t0+deadline; ex.contract=k
    try:
        st=State(); args=[]; ex.params_int=[]
        esz=esz_of(f.dem)
        for (pn,*pk),(t,n) in zip(k.params,f.params):
            kind=pk[0] if pk else 'n'
            if kind in ENUMS: args.append(Poly.c(flags[pn]))
            elif pn in getattr(k,'eqs',{}): args.append(Poly.v(k.eqs[pn]))
            elif kind in('n','ld'):
                v=Poly.v(pn); st.path=st.path.add(z(v)>=(1 if kind=='ld' else 0)); args.append(v); ex.params_int.append(v)
            elif pn in getattr(k,'alias',{}): args.append(Ptr(k.alias[pn],ZERO))
            elif kind in('P','A'): args.append(Ptr(pn,ZERO)); st.mem[pn]=ZArr(pn,8 if kind=='P' else esz,'i' if kind=='P' else 'm')
            elif kind=='V': args.append(Ptr(pn,ZERO)); st.mem[pn]=ZArr(pn,esz,'e')
            else: args.append(ex.new_cells(st,'O'+pn,None,True) if t.k=='ptr' else ex.fresh_of(st,t,pn))
        for (t,n) in f.params[len(k.params):]: args.append(ex.new_cells(st,'O'+n,None,True) if t.k=='ptr' else ex.fresh_of(st,t,n))
        byn={p[0]:a for p,a in zip(k.params,args)}
        for n in k.lds:
            if n in st.mem: st.mem[n].ld=k.ldof(n,byn)
        for g in getattr(k,'ghosts',{}): byn[g]=Poly.v(g); st.path=st.path.add(z(byn[g])>=0); ex.params_int.append(byn[g])
        c0=ACtx(ex,st,{n:(a.const() if isinstance(a,Poly) and a.is_const() else a) for n,a in byn.items()})
        for n,fn in k.shape.items():
            sh=fn(c0); o=st.mem[n]
            if n in getattr(k,'exact',()): o.exact=True
            if o.sort=='m': o.rows,o.cols=sh; st.path=st.path.add(z(o.ld)>=z(o.cols)) if o.cols is not None else st.path
            else: o.cols,=sh
        ex.setup=True; c=k.ctx(ex,st,args); ex.setup=False
        for nme,fo in k.pre(c):
            if z3.is_quantifier(fo): st.notes=st.notes+(fo,)
            else: st.path=st.path.add(fo)
        if hasattr(k,'lem'): st.notes=st.notes+tuple(k.lem(c))
        ex.cctx=c; ini={n:o for n,o in st.mem.items()}
        try: outs=ex.run(f,args,st)
        except Violation as v: R['fails'].append(dict(kind=v.kind,msg=v.msg,where=str(flags))); raise
        for fl in ex.fails: R['fails'].append(dict(kind=fl.kind,msg=fl.msg[:500],where=str(flags)+' '+fl.where[:300]))
        if not outs and not ex.fails: raise Unsupported('no terminating path')
        if outs and all(ex.prove(s2,z3.BoolVal(False),to=2000) for s2,_ in outs): raise Unsupported('no feasible terminating path')
        for s2,ret in outs:
            for n in k.mods:
                pn=c.old[n].p.obj
                if n in getattr(k,'outlds',{}): c.new[n]=View(s2,c.old[n].p,ex,k.outlds[n](c.a)); continue
                c.new[n]=c.old[n].at(s2.mem[pn].a) if s2.mem[pn].a.sort()==c.old[n].a.sort() else None
            if k.ret: c.ret=z(ret)
            post=[(a,b) for a,b in k.post(c)]
            for n,o in ini.items():
                if not isinstance(o,ZArr): continue
                a1=s2.mem[n].a
                if a1.eq(o.a): continue
                rng=k.mods.get(n) or next((k.mods[x] for x,y in k.alias.items() if y==n and x in k.mods),None)
                if getattr(o,'exact',False) and rng: continue   # every write was proved inside the block, which the contract may modify entirely
                if o.sort=='m':
                    r,q=z3.Ints('r! c!'); post.append((f'frame of {n}',z3.ForAll([r,q],z3.Implies(z3.Not(rng(c,r,q)) if rng else z3.BoolVal(True),sel(a1,r,q)==sel(o.a,r,q)))))
                else:
                    x=z3.Int('x!'); post.append((f'frame of {n}',z3.ForAll([x],z3.Implies(z3.Not(rng(c,x)) if rng else z3.BoolVal(True),sel(a1,x)==sel(o.a,x)))))
            for nme,fo in post:
                ex.oblig+=1
                if not ex.prove(s2,fo,k.axp(c) if hasattr(k,'axp') else (),to=20000):
                    R['fails'].append(dict(kind='postcondition',msg=f'{nme} is not established',where=str(flags),path=[str(x)[:200] for x in s2.path.cs][:30]))
        R['status']='fail' if R['fails'] else 'ok'
    except (Violation,) as v: R['status']='fail'
    except NoInv as e: R['status']='fail'; R['fails'].append(dict(kind='invariant',msg=str(e),where=str(flags)))
    except (Unsupported,RecursionError,z3.Z3Exception,KeyError,AttributeError,TypeError) as e:
        R['status']='fail' if R['fails'] else 'unsupported'; R['reason']=type(e).__name__+': '+str(e)[:300]
        if DEBUGA and not isinstance(e,Unsupported): import traceback; traceback.print_exc()
    if R['status']=='fail' and ex.slow: R['status']='unsupported'; R['reason']='solver time limit while '+str(R['fails'][:1])[:200]; R['fails']=[]
    R['oblig']=ex.oblig; R['inlined']=sorted(ex.inlined); R['uses']=sorted(ex.used); R['time']=time.time()-t0; R['invs']=getattr(ex,'invs',[])
    return R
