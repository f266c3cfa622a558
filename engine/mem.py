"""Symbolic memory: scalar cells and two-dimensional element arrays carrying block-matrix terms."""
from poly import *
from mat import *
import itertools, z3

class Unsupported(Exception): pass
class Limit(Unsupported): pass
class Violation(Exception):
    def __init__(s,kind,msg): s.kind=kind; s.msg=msg; Exception.__init__(s,f"{kind}: {msg}")

class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off): s.obj=obj; s.off=off
    def __repr__(s): return f"&{s.obj}+{s.off}"
    def __eq__(s,o): return isinstance(o,Ptr) and s.obj==o.obj and s.off==o.off
    def __hash__(s): return hash((s.obj,s.off))
class Null:
    def __repr__(s): return 'NULL'
NULL=Null()
class Opq:
    def __repr__(s): return 'OPQ'
OPQ=Opq()
class FnPtr:
    def __init__(s,n): s.n=n
    def __repr__(s): return '@'+s.n

class BV:
    """boolean value: z3 formula (or None = nondeterministic) with optional substitution hints"""
    __slots__=('z','t','f')
    def __init__(s,zz,t=None,f=None): s.z=zz; s.t=t; s.f=f   # t: substitution (atom->Poly) valid when true, f when false
    def __repr__(s): return 'ND' if s.z is None else str(s.z)
TRUE=BV(z3.BoolVal(True)); FALSE=BV(z3.BoolVal(False))

class Cells:
    __slots__=('name','cells','lazy','size','hav','org')
    def __init__(s,name,size=None,lazy=False): s.name=name; s.cells={}; s.lazy=lazy; s.size=size; s.hav=False; s.org=None
    def copy(s):
        c=Cells(s.name,s.size,s.lazy); c.cells=dict(s.cells); c.hav=s.hav; c.org=s.org; return c
    def subs(s,m,fv):
        c=s.copy()
        for k,(v,z_) in c.cells.items(): c.cells[k]=(fv(v),z_)
        return c
    def key(s): return 'C'+s.name+str(sorted((k,repr(v)) for k,(v,_) in s.cells.items()))

def pdiv(off,ld):
    """polynomial division of off by ld -> (q,r)"""
    if ld.is_const():
        c=ld.const()
        if c==1: return off,ZERO
        if c==0: return ZERO,off
        q={};r={}
        for k,v in off.d.items():
            if k!=() and v%c==0: q[k]=v//c
            elif k==():
                if v//c: q[k]=v//c
                if v%c: r[k]=v%c
            else: r[k]=v
        return Poly(q),Poly(r)
    def okey(k): return (sum(e for _,e in k),k)
    lead=max(ld.d,key=okey); lc=ld.d[lead]
    q=ZERO; r=off
    for _ in range(50):
        hit=False
        for k,v in sorted(r.d.items(),key=lambda kv:okey(kv[0]),reverse=True):
            kk=dict(k); ok=True
            for a,e in lead:
                if kk.get(a,0)<e: ok=False;break
            if ok and v%lc==0:
                for a,e in lead:
                    kk[a]-=e
                    if kk[a]==0: del kk[a]
                t=Poly({tuple(sorted(kk.items())):v//lc})
                q=q+t; r=r-t*ld; hit=True; break
        if not hit: break
    return q,r

class Arr:
    __slots__=('name','esz','ld','rows','cols','size','blocks','fresh','freed','ro')
    def __init__(s,name,esz,ld,rows,cols,size=None,fresh=False):
        s.name=name; s.esz=esz; s.ld=ld; s.rows=rows; s.cols=cols; s.size=size; s.blocks=[]; s.fresh=fresh; s.freed=False; s.ro=False
    def copy(s):
        a=Arr(s.name,s.esz,s.ld,s.rows,s.cols,s.size,s.fresh); a.blocks=list(s.blocks); a.freed=s.freed; a.ro=s.ro; return a
    def subs(s,m,fv):
        a=s.copy()
        g=lambda p: None if p is None else p.subs(m)
        a.ld=g(a.ld); a.rows=g(a.rows); a.cols=g(a.cols); a.size=g(a.size)
        a.blocks=[(r0.subs(m),r1.subs(m),c0.subs(m),c1.subs(m),t.subs(m)) for r0,r1,c0,c1,t in a.blocks]
        return a
    def key(s): return f"A{s.name}|{s.ld}|{s.rows}|{s.cols}|{s.freed}|"+';'.join(sorted(f"{b[0]},{b[1]},{b[2]},{b[3]}:{b[4]!r}" for b in s.blocks))

class Win:
    """rectangular window of an array; tr: logical matrix is the transpose of the stored rectangle"""
    __slots__=('obj','r0','r1','c0','c1','tr','m','n')
    def __init__(s,obj,r0,r1,c0,c1,tr,m,n): s.obj=obj; s.r0=r0; s.r1=r1; s.c0=c0; s.c1=c1; s.tr=tr; s.m=m; s.n=n
    def __repr__(s): return f"{s.obj}[{s.r0}:{s.r1},{s.c0}:{s.c1}]{'T' if s.tr else ''}"

def pnorm(p):
    q={}
    for k,v in p.d.items():
        if isinstance(v,Fraction):
            if v.denominator!=1: return None
            v=int(v)
        q[k]=v
    return Poly(q)
def div_bytes(off,esz):
    d={}
    for k,v in off.d.items():
        if v%esz: return None
        d[k]=v//esz
    return Poly(d)

_junk=itertools.count()
def locate(path,a,oid,off,ld,m,n):
    """window of m x n elements at element offset off with leading dimension ld; may set layout of a fresh array.
       returns (Win, newArr or None)"""
    if a.freed: raise Violation('use-after-free',f"{a.name}")
    m=P_(m);n=P_(n);new=None
    isz=lambda p: (p.is_const() and p.const()<=0)
    if isz(m) or isz(n):
        return Win(oid,ZERO,ZERO,ZERO,ZERO,False,ZERO if isz(m) else m,ZERO if isz(n) else n),None
    one=lambda p: p.is_const() and p.const()==1
    if not one(m) and not m.is_const() and path.le(m,ONE) and path.le(ONE,m): m=ONE
    if not one(n) and not n.is_const() and path.le(n,ONE) and path.le(ONE,n): n=ONE
    if a.ld is None:
        new=a.copy(); a=new
        _layout(path,a,ld,m,n)
    for attempt in range(2):
        cands=[]
        L=a.ld
        if not L.is_const() and path.eq(L,ONE): L=ONE
        # matrix access with same ld, or single row
        same=(ld is not None) and (ld==L or path.eq(ld,L))
        vec1=one(n) and ld is not None and (ld==1)         # contiguous column vector == row of stored matrix
        if same or one(m):
            cands.append((m,n,False))
        if one(n) and not one(m) and ld is not None and (ld==1 or path.eq(ld,ONE)) and not (L==1):
            cands.append((ONE,m,True))
        if one(m) and not one(n):
            # contiguous n elements in an array stored as a column (ld==1)
            if L==1 or path.eq(L,ONE): cands.insert(0,(n,ONE,True))
        if not cands and a.fresh and not _meaningful(a):
            new=a.copy(); a=new; a.blocks=[]; _layout(path,a,ld,m,n); continue
        if not cands:
            # m==0/n==0 paths or unit dims that need a split
            if a.fresh and attempt==0:
                w=_relayout(path,a,ld,m,n)
                if w is None:
                    # re-used work buffer: its previous content is forgotten (reads give arbitrary values)
                    w=a.copy(); w.blocks=[]; _layout(path,w,ld,m,n)
                new=w; a=w; continue
            for d in (m,n):
                if not d.is_const() and path.feasible(z(d)<=0):
                    if path.le(d,ZERO): return Win(oid,ZERO,ZERO,ZERO,ZERO,False,m,n),None
                    raise NeedSplit(z(d)<=0)
            if ld is not None and not one(m) and not path.le(m,ONE):
                if path.feasible(z(m)<=z(1)) : raise NeedSplit(z(m)<=z(1))
            raise Violation('stride',f"array {a.name} with leading dimension {L} accessed with leading dimension {ld} ({m}x{n})")
        q,r=pdiv(off,L)
        for (mm,nn,tr) in cands:
            tries=[(q,r)]
            if not (L==1): tries+=[(q-1,r+L),(q+1,r-L)]
            for (qq,rr) in tries:
                if _inb(path,a,qq,rr,mm,nn):
                    return Win(oid,qq,qq+mm,rr,rr+nn,tr,m,n),new
        # flattened contiguous access: 1 x (k*ld) over full rows
        if (one(m) and not one(n)) or (one(n) and not one(m) and ld is not None and ld==1):
            if r.is_zero() and not (L==1) and (a.cols==L or path.eq(a.cols,L)):
                for LL in (L,a.cols):
                    qn,rn=pdiv(n if one(m) else m,LL)
                    if rn.is_zero(): raise Reshape(qn,LL)
        if a.fresh and attempt==0 and not _meaningful(a):
            new=a.copy(); a=new; a.blocks=[]; _layout(path,a,ld,m,n); continue
        break
    # maybe the path makes the window empty
    for d in (m,n):
        if not d.is_const() and path.feasible(z(d)<=0):
            if path.le(d,ZERO): return Win(oid,ZERO,ZERO,ZERO,ZERO,False,m,n),None
            raise NeedSplit(z(d)<=0)
    raise Violation('out-of-bounds',f"access to {a.name} rows [{q},{q}+{m}) cols [{r},{r}+{n}) ld {L}; declared {a.rows} x {a.cols}")
class Reshape(Exception):
    def __init__(s,q,L): s.q=q; s.L=L
def _meaningful(a): return len(a.blocks)>0
def _relayout(path,a,ld,m,n):
    # uniform zero content can be re-laid out
    if all(not b[4].d for b in a.blocks) and a.blocks:
        tot=ZERO
        for b in a.blocks: tot=tot+(b[1]-b[0])*(b[3]-b[2])
        if tot==a.size:
            w=a.copy(); w.blocks=[]; _layout(path,w,ld,m,n)
            w.blocks=[(ZERO,w.rows,ZERO,w.cols,MT.zero(w.rows,w.cols))]
            return w
    return None
def _layout(path,a,ld,m,n):
    if ld is None or m==1:
        a.ld=a.size; a.rows=ONE; a.cols=a.size; return
    a.ld=ld; a.cols=ld
    q,r=pdiv(a.size,ld)
    if r.is_zero(): a.rows=q
    else: a.rows=None
def _inb(path,a,r0,c0,m,n):
    if not (path.le(ZERO,r0) and path.le(ZERO,c0)): return False
    if not path.le(c0+n,a.cols): return False
    if a.rows is not None:
        if path.le(r0+m,a.rows): return True
        if not a.fresh: return False
    return a.size is not None and path.le((r0+m-1)*a.ld+c0+n,a.size)

def _order(path,a,b):
    """True if a<=b provable; False if b<=a provable; else NeedSplit"""
    if path.le(a,b): return True
    if path.le(b,a): return False
    raise NeedSplit(z(a)<=z(b))
def _disj(path,b,r0,r1,c0,c1):
    return path.le(b[1],r0) or path.le(r1,b[0]) or path.le(b[3],c0) or path.le(c1,b[2])
def _cov(path,b,r0,r1,c0,c1):
    return path.le(b[0],r0) and path.le(r1,b[1]) and path.le(b[2],c0) and path.le(c1,b[3])

def read_rect(path,a,r0,r1,c0,c1,junk=True):
    """term for the stored rectangle"""
    m=r1-r0;n=c1-c0
    for b in a.blocks:
        if b[0]==r0 and b[1]==r1 and b[2]==c0 and b[3]==c1: return b[4]
    for b in a.blocks:
        if _cov(path,b,r0,r1,c0,c1):
            return b[4].sub(r0-b[0],r1-b[0],c0-b[2],c1-b[2])
    if path.le(m,ZERO) or path.le(n,ZERO): return MT.zero(m,n)
    out=MT.zero(m,n); area=ZERO; pieces=[]
    for b in a.blocks:
        if _disj(path,b,r0,r1,c0,c1): continue
        x0=r0 if _order(path,b[0],r0) else b[0]
        x1=r1 if _order(path,r1,b[1]) else b[1]
        y0=c0 if _order(path,b[2],c0) else b[2]
        y1=c1 if _order(path,c1,b[3]) else b[3]
        if path.le(x1,x0) or path.le(y1,y0): continue
        # a piece that may be empty makes area computation wrong: force decision
        if not path.lt(x0,x1): raise NeedSplit(z(x0)<z(x1))
        if not path.lt(y0,y1): raise NeedSplit(z(y0)<z(y1))
        t=b[4].sub(x0-b[0],x1-b[0],y0-b[2],y1-b[2])
        out=out+t.embed(m,n,x0-r0,y0-c0); area=area+(x1-x0)*(y1-y0); pieces.append((x0,x1,y0,y1))
    if not (area-m*n).is_zero() and not path.eq(area,m*n):
        if junk:
            # uninitialised part: arbitrary values
            rest=subtract_all(path,[(r0,r1,c0,c1)],pieces)
            for (x0,x1,y0,y1) in rest:
                j=mkatom(f"junk{next(_junk)}",x1-x0,y1-y0)
                out=out+MT.atom(j).embed(m,n,x0-r0,y0-c0)
            return out
        return None
    return out
def subtract_rect(path,b,w):
    """b minus w -> list of rects"""
    r0,r1,c0,c1=w
    if _disj(path,b,r0,r1,c0,c1): return [tuple(b[:4])]
    out=[]
    x0,x1,y0,y1=b[:4]
    for u,v in ((r0,x1),(x0,r1),(c0,y1),(y0,c1)):
        if not path.le(u,v): raise NeedSplit(z(u)<=z(v))
    if not path.le(r0,x0):
        if not path.le(x0,r0): raise NeedSplit(z(x0)<=z(r0))
        out.append((x0,r0,y0,y1)); x0=r0
    if not path.le(x1,r1):
        if not path.le(r1,x1): raise NeedSplit(z(r1)<=z(x1))
        out.append((r1,x1,y0,y1)); x1=r1
    if not path.le(c0,y0):
        if not path.le(y0,c0): raise NeedSplit(z(y0)<=z(c0))
        out.append((x0,x1,y0,c0)); y0=c0
    if not path.le(y1,c1):
        if not path.le(c1,y1): raise NeedSplit(z(c1)<=z(y1))
        out.append((x0,x1,c1,y1)); y1=c1
    return out
def subtract_all(path,rects,ws):
    for w in ws:
        n=[]
        for b in rects: n+=subtract_rect(path,b,w)
        rects=n
    return [b for b in rects if not (path.le(b[1],b[0]) or path.le(b[3],b[2]))]
def write_rect(path,a,r0,r1,c0,c1,t):
    if path.le(r1,r0) or path.le(c1,c0): return a
    na=a.copy(); nb=[]
    for b in a.blocks:
        if b[0]==r0 and b[1]==r1 and b[2]==c0 and b[3]==c1: continue
        if _cov(path,(r0,r1,c0,c1),*b[:4]): continue
        for x in subtract_rect(path,b,(r0,r1,c0,c1)):
            if path.le(x[1],x[0]) or path.le(x[3],x[2]): continue
            if x==tuple(b[:4]): nb.append(b)
            else: nb.append(x+(b[4].sub(x[0]-b[0],x[1]-b[0],x[2]-b[2],x[3]-b[2]),))
    nb.append((r0,r1,c0,c1,t)); na.blocks=nb
    return na
