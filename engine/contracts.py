"""Contract library: each entry gives pre/postconditions and frame of one library routine (or trusted dependency)."""
import re
from exec import *

NoTrans,Trans=111,112; Upper,Lower=121,122; NonUnit,Unit=131,132; Left,Right=141,142
ENUMS={'trans':[NoTrans,Trans],'uplo':[Upper,Lower],'diag':[NonUnit,Unit],'side':[Left,Right]}

class Ctx:
    """access to the machine state from inside a contract; mode 'apply' or 'setup'"""
    def __init__(s,ex,st,mode='apply'): s.ex=ex; s.st=st; s.mode=mode; s.ins=[]; s.shapes={}; s.esz=None
    # -- dimensions
    def dims(s,*ds):
        if s.mode=='setup': return
        for d in ds:
            s.ex.obligation(s.st.path.le(ZERO,P_(d)),'dimension',f"dimension {d} may be negative (unsigned underflow)")
    def require(s,cond,kind,msg):
        if s.mode=='setup': return
        s.ex.obligation(s.st.path.prove(cond),kind,msg)
    # -- windows
    def mat(s,p,ld,m,n,name='A',alias=False):
        if s.mode=='setup':
            return s._bind(p,ld,m,n,name,None)
        s.ex.oblig+=0 if s.ex.trial else 1
        return s.ex.locate(s.st,p,ld,P_(m),P_(n))
    def _bind(s,p,ld,m,n,name,term):
        o=s.st.mem[p.obj]
        a=Arr(p.obj,o.esz,ld if isinstance(ld,Poly) else P_(ld),P_(m),P_(n))
        if term is None:
            at=mkatom(p.obj,m,n); term=MT.atom(at)
        a.blocks=[(ZERO,a.rows,ZERO,a.cols,term)]
        s.st.mem[p.obj]=a
        return Win(p.obj,ZERO,a.rows,ZERO,a.cols,False,P_(m),P_(n))
    def get(s,w):
        s.ins.append(w); return s.ex.get(s.st,w)
    def put(s,w,t,same_ok=True):
        if s.mode=='setup': return
        if isinstance(w,Win):
            for v in s.ins:
                if isinstance(v,Win) and v.obj==w.obj:
                    same=all(a==b or s.st.path.eq(a,b) for a,b in ((v.r0,w.r0),(v.r1,w.r1),(v.c0,w.c0),(v.c1,w.c1)))
                    if same and same_ok is True: continue
                    if same_ok is not True and v is same_ok: continue
                    dj=any(s.st.path.le(a,b) for a,b in ((v.r1,w.r0),(w.r1,v.r0),(v.c1,w.c0),(w.c1,v.c0)))
                    s.ex.obligation(dj,'alias',f"output window {w} overlaps input window {v}")
        s.ex.put(s.st,w,t)
    # -- triangular operands
    def tri(s,p,ld,n,uplo,diag,name='A'):
        """returns (win, T) with T the triangular matrix denoted by the window"""
        if s.mode=='setup':
            n=P_(n); kind='low' if uplo==Lower else 'upp'
            T=mkatom(p.obj+('.L' if uplo==Lower else '.U'),n,n,kind,diag==Unit)
            J=mkatom(p.obj+'.J',n,n,'supp' if uplo==Lower else 'slow')
            t=MT.atom(T)+MT.atom(J)
            if diag==Unit:
                D=mkatom(p.obj+'.D',n,n,'diag'); t=t-MT.ident(n)+MT.atom(D)
            w=s._bind(p,ld,n,n,name,t)
            return w,MT.atom(T)
        w=s.mat(p,ld,n,n,name)
        t=s.get(w)
        if w is None or isinstance(w,tuple):
            return w,(MT.scalar(ONE) if diag==Unit else t)
        return w,tri_part(s.st.path,t,uplo,diag)
    def inverse(s,T): return term_inverse(s.st.path,T)

def factor_kind(f):
    if f[0]==ID: return 'id'
    k=ATOMS[f[0]].kind
    if f[1]: k={'low':'upp','upp':'low','slow':'supp','supp':'slow'}.get(k,k)
    return k
def tri_part(path,t,uplo,diag):
    """triangular part (with unit diagonal when diag==Unit) of a square term"""
    n=t.rows
    if n.is_const() and n.const()==1:
        return MT.scalar(ONE) if diag==Unit else t
    if n.is_const() and n.const()<=0: return MT.zero(n,n)
    out={}
    own='low' if uplo==Lower else 'upp'; opp='upp' if own=='low' else 'low'
    def add(k,v):
        x=out.get(k,ZERO)+v
        if x.is_zero(): out.pop(k,None)
        else: out[k]=x
    for (sc,m),v in t.d.items():
        if len(m)>1:
            ks={factor_kind(f) for f in m}
            sq=all(frows(f)==fcols(f) or (path.eq(frows(f)[0],fcols(f)[0]) and path.eq(frows(f)[1],fcols(f)[1])) for f in m)
            if not sq: raise Unsupported('triangular part of a product term')
            un=all(f[0]!=ID and ATOMS[f[0]].unit for f in m)
            if ks<={own,'diag','s'+own}:
                if 's'+own in ks or diag==NonUnit: add((sc,m),v)
                elif un: add((sc,m),v); add((sc,()),-v)
                else: raise Unsupported('strict part of a product of non unit triangular factors')
            elif ks<={opp,'diag','s'+opp}:
                if 's'+opp in ks or diag==Unit: pass
                elif un: add((sc,()),v)
                else: raise Unsupported('diagonal of a product of triangular factors')
            else: raise Unsupported('triangular part of a product term')
            continue
        if not m: kind='id'
        else:
            f=m[0]; kind=factor_kind(f)
            if kind!='gen':
                r,c=frows(f),fcols(f)
                if not (r==c or (path.eq(r[0],c[0]) and path.eq(r[1],c[1]))):
                    # off-diagonal window
                    raise Unsupported('triangular part of an off-diagonal window')
        if kind=='gen':
            if n.is_const() is False and path.le(n,ONE): 
                if diag==Unit: continue
                add((sc,m),v); continue
            # derived strict parts of a general matrix
            raise NeedTri(f)
        if kind==own:
            if diag==NonUnit: add((sc,m),v)
            else:
                at=ATOMS[m[0][0]]
                if at.unit: add((sc,m),v); add((sc,()),-v)
                else: raise NeedTri(m[0])
        elif kind==opp:
            at=ATOMS[m[0][0]]
            if diag==Unit: continue
            if at.unit: add((sc,()),v)
            else: raise Unsupported('diagonal of opposite triangular')
        elif kind=='s'+own: add((sc,m),v)
        elif kind=='s'+opp: continue
        elif kind in('diag','id'):
            if diag==NonUnit: add((sc,m),v)
        else: raise Unsupported('triangular part of kind '+kind)
    if diag==Unit: add(UNIT,ONE)
    return MT(t.rows,t.cols,out)
class NeedTri(Unsupported):
    def __init__(s,f): s.f=f; Unsupported.__init__(s,'triangular part of '+frepr(f))
def term_inverse(path,T):
    """inverse of a triangular term (single atom) or 1x1"""
    if T.is1x1():
        q=T.inv_scalar()
        if q is None: raise Unsupported('inverse of '+repr(T)[:80])
        return q
    if not T.d: return T     # empty
    if len(T.d)==1:
        ((sc,m),v),=T.d.items()
        if len(m)==1 and not sc and v.inv() is not None:
            f=m[0]
            if f[0]==ID: return T
            at=ATOMS[f[0]]
            if at.kind in('low','upp','diag') :
                b=at.inv if at.inv is not None else inverse_atom(at)
                return MT(T.rows,T.cols,{((),((b.name,)+f[1:],)):v.inv()})
        if not m and not sc and v.inv() is not None: return MT(T.rows,T.cols,{UNIT:v.inv()})
    raise Unsupported('inverse of term '+repr(T)[:100])

class Contract:
    def __init__(s,name,params,fn,trusted=False,variants=None,props=(),dem=None):
        s.dem=re.compile(dem) if dem else None
        s.name=name; s.params=[p.split(':') for p in params.split()]; s.fn=fn; s.trusted=trusted; s.variants=variants; s.props=props
    def apply(s,ex,st,args,I,dem):
        c=Ctx(ex,st)
        r=s.call(c,args,dem)
        if isinstance(r,list): return r
        return [(c.st,r)]
    def bind(s,args):
        d={}
        for (n,*k),a in zip(s.params,args): d[n]=a
        return d
    def call(s,c,args,dem=''):
        a=s.bind(args); kw={}
        for (n,*k) in s.params:
            kind=k[0] if k else ''
            if n not in a:
                if kind.endswith('?'): continue
                raise Unsupported(f'contract {s.name}: argument count')
            if kind in ENUMS:
                v=a[n]
                if isinstance(v,Poly) and v.is_const(): v=v.const()
                elif isinstance(v,int): pass
                else: raise Unsupported('symbolic flag')
                a[n]=v
            if kind=='el':
                v=a[n]
                if isinstance(v,Ptr): v=c.ex.el_get(c.st,v)
                v=c.ex.as_el(v)
                if v is OPQ: raise Unsupported(f'opaque scalar passed as {n} to {s.name}')
                a[n]=v
            kw[n]=a[n]
        return s.fn(c,**{k:v for k,v in kw.items()})

def s_ff(dem): return 'FFLAS::' in dem or 'FFPACK::' in dem
class Library:
    def __init__(s): s.exact={}; s.regex=[]
    def add(s,name,params,fn,**k):
        c=Contract(name,params,fn,**k); s.exact.setdefault(name,[]).append(c); return c
    def addre(s,rx,maker): s.regex.append((re.compile(rx),maker,{}))
    def lookup(s,bn,dem,g):
        c=s.exact.get(bn)
        if c:
            n=len(g.params) if g is not None else None
            for k in c:
                if k.dem is not None and not k.dem.search(dem): continue
                req=sum(1 for p in k.params if not (len(p)>1 and p[1].endswith('?')))
                if n is None or (req<=n<=len(k.params)):
                    ok=True
                    if g is not None:
                        for (pn,*pk),(t,_) in zip(k.params,g.params):
                            kd=pk[0].rstrip('?') if pk else ''
                            if kd in('dim','ld') and t.k!='int': ok=False
                            if kd in('ptr','F','H') and t.k!='ptr': ok=False
                            if kd in ENUMS and not(t.k=='int' and t.a==32): ok=False
                            if kd=='dim' and t.k=='int' and t.a==32 and s_ff(dem): ok=False
                            if kd=='el' and t.k not in('fp','int','ptr'): ok=False
                    if ok: return k
        for rx,mk,cache in s.regex:
            m=rx.match(bn)
            if m:
                key=(bn,len(g.params) if g is not None else 0)
                if key not in cache: cache[key]=mk(m,bn,dem,g)
                if cache[key] is not None: return cache[key]
        return None
