"""Block-matrix terms over a commutative coefficient ring, with normal-form equality modulo block refinement."""
from poly import *
import z3

ATOMS={}
class MatAtom:
    __slots__=('name','rows','cols','kind','unit','inv_of','inv','info')
    def __init__(s,name,rows,cols,kind='gen',unit=False,inv_of=None,info=None):
        s.name=name; s.rows=rows; s.cols=cols; s.kind=kind; s.unit=unit; s.inv_of=inv_of; s.inv=None; s.info=info
        ATOMS[name]=s
def P_(x): return x if isinstance(x,Poly) else Poly.c(x)
ID='#I'
def mkatom(name,rows,cols,kind='gen',unit=False):
    return MatAtom(name,P_(rows),P_(cols),kind,unit)
def inverse_atom(at):
    if at.inv is None:
        b=MatAtom('inv:'+at.name,at.rows,at.cols,at.kind,at.unit,inv_of=at.name); at.inv=b; b.inv=at
    return at.inv

# factor = (atom, t, r0,r1,c0,c1)
def frows(f): return (f[4],f[5]) if f[1] else (f[2],f[3])
def fcols(f): return (f[2],f[3]) if f[1] else (f[4],f[5])
def fwith(f,rows=None,cols=None):
    a,t,r0,r1,c0,c1=f
    if t:
        if rows is not None: c0,c1=rows
        if cols is not None: r0,r1=cols
    else:
        if rows is not None: r0,r1=rows
        if cols is not None: c0,c1=cols
    return (a,t,r0,r1,c0,c1)
def ftrans(f):
    a=f[0]
    if a==ID: return (ID,False,f[4],f[5],f[2],f[3])
    return (a,not f[1])+f[2:]
def frepr(f):
    a,t,r0,r1,c0,c1=f
    return f"{a}[{r0}:{r1},{c0}:{c1}]{'T' if t else ''}"
def ctrans(ch): return tuple(ftrans(f) for f in reversed(ch))
def is1(iv): 
    d=iv[1]-iv[0]
    return d.is_const() and d.const()==1
_ck={}
def ckey(ch):
    k=_ck.get(ch)
    if k is None: k='.'.join(frepr(f) for f in ch); _ck[ch]=k
    return k
def canon_piece(ch):
    t=ctrans(ch)
    return ch if ckey(ch)<=ckey(t) else t
def scal_mul(a,b):
    if not a: return b
    if not b: return a
    d=dict(a)
    for p,e in b:
        n=d.get(p,0)+e
        if n==0: d.pop(p)
        else: d[p]=n
    return tuple(sorted(d.items(),key=lambda x:(ckey(x[0]),x[1])))
def canon(scal,main):
    """extract 1x1 pieces of the chain into the scalar multiset"""
    if not main: return scal,main
    B=[is1(frows(main[0]))]+[is1(fcols(f)) for f in main]
    idx=[i for i,b in enumerate(B) if b]
    if len(idx)<2: return scal,main
    pcs=[]
    for a,b in zip(idx,idx[1:]):
        pcs.append((canon_piece(main[a:b]),1))
    for p in pcs: scal=scal_mul(scal,(p,))
    return scal, main[:idx[0]]+main[idx[-1]:]
def mono(scal,main): return canon(scal,main)
UNIT=((),())

class MT:
    __slots__=('rows','cols','d')
    def __init__(s,rows,cols,d=None): s.rows=P_(rows); s.cols=P_(cols); s.d=d if d is not None else {}
    @staticmethod
    def scalar(p): 
        p=P_(p); return MT(1,1,{UNIT:p} if not p.is_zero() else {})
    @staticmethod
    def zero(r,c): return MT(r,c,{})
    @staticmethod
    def ident(n): return MT(n,n,{UNIT:ONE})
    @staticmethod
    def atom(at,t=False):
        f=(at.name,False,ZERO,at.rows,ZERO,at.cols)
        m=MT(at.rows,at.cols,{mono((),(f,)):ONE})
        return m.T() if t else m
    def is_scalar_poly(s):
        if not s.d: return ZERO
        if len(s.d)==1 and UNIT in s.d and s.rows==1 and s.cols==1: return s.d[UNIT]
        return None
    def add(s,o,sgn=1):
        d=dict(s.d)
        for k,v in o.d.items():
            x=d.get(k,ZERO)+(v if sgn==1 else -v)
            if x.is_zero(): d.pop(k,None)
            else: d[k]=x
        return MT(s.rows,s.cols,d)
    def __add__(s,o): return s.add(o)
    def __sub__(s,o): return s.add(o,-1)
    def __neg__(s): return MT(s.rows,s.cols,{k:-v for k,v in s.d.items()})
    def is1x1(s): return s.rows==1 and s.cols==1
    def scale(s,sc):
        """multiply by a 1x1 term or Poly"""
        if isinstance(sc,(int,Fraction)): sc=Poly.c(sc)
        if isinstance(sc,Poly):
            d={}
            for k,v in s.d.items():
                x=v*sc
                if not x.is_zero(): d[k]=x
            return MT(s.rows,s.cols,d)
        d={}
        for (s1,m1),v in s.d.items():
            for (s2,m2),w in sc.d.items():
                assert not m2
                k=(scal_mul(s1,s2),m1); x=d.get(k,ZERO)+v*w
                if x.is_zero(): d.pop(k,None)
                else: d[k]=x
        return MT(s.rows,s.cols,d)
    def mul(s,o):
        if s.is1x1() and not o.rows==1: return o.scale(s)
        if o.is1x1() and not s.cols==1: return s.scale(o)
        if s.is1x1(): return o.scale(s)
        if o.is1x1(): return s.scale(o)
        d={}
        for (s1,m1),v in s.d.items():
            for (s2,m2),w in o.d.items():
                k=mono(scal_mul(s1,s2),m1+m2); x=d.get(k,ZERO)+v*w
                if x.is_zero(): d.pop(k,None)
                else: d[k]=x
        return MT(s.rows,o.cols,d)
    def __mul__(s,o):
        return s.mul(o) if isinstance(o,MT) else s.scale(o)
    def T(s):
        return MT(s.cols,s.rows,{mono(k[0],ctrans(k[1])):v for k,v in s.d.items()})
    def sub(s,r0,r1,c0,c1):
        """window, coordinates relative to s"""
        r0,r1,c0,c1=map(P_,(r0,r1,c0,c1))
        if r0.is_zero() and r1==s.rows and c0.is_zero() and c1==s.cols: return s
        d={}
        for (sc,m),v in s.d.items():
            if not m:
                if s.rows==1 and s.cols==1: k=(sc,m)   # scalar
                else: k=mono(sc,((ID,False,r0,r1,c0,c1),))
            else:
                f=m[0]; a=frows(f); f=fwith(f,rows=(a[0]+r0,a[0]+r1)); m2=(f,)+m[1:]
                g=m2[-1]; b=fcols(g); g=fwith(g,cols=(b[0]+c0,b[0]+c1)); m2=m2[:-1]+(g,)
                k=mono(sc,m2)
            x=d.get(k,ZERO)+v
            if x.is_zero(): d.pop(k,None)
            else: d[k]=x
        return MT(r1-r0,c1-c0,d)
    def embed(s,R,C,r0,c0):
        """place s at (r0,c0) inside an R x C zero matrix"""
        if r0==0 and c0==0 and s.rows==R and s.cols==C: return s
        L=(ID,False,ZERO,P_(R),P_(r0),P_(r0)+s.rows); Rr=(ID,False,P_(c0),P_(c0)+s.cols,ZERO,P_(C))
        pre=() if (s.rows==R and P_(r0).is_zero()) else (L,)
        post=() if (s.cols==C and P_(c0).is_zero()) else (Rr,)
        d={}
        for (sc,m),v in s.d.items():
            if not m and not (s.rows==1 and s.cols==1) :
                k=mono(sc,pre+post)
            else: k=mono(sc,pre+m+post)
            d[k]=d.get(k,ZERO)+v
        return MT(R,C,d)
    def subs(s,mp,ap=None):
        if not mp: return s
        d={}
        for (sc,m),v in s.d.items():
            m2=tuple(_fs(f,mp) for f in m)
            sc2=()
            for pc,e in sc: sc2=scal_mul(sc2,((canon_piece(tuple(_fs(f,mp) for f in pc)),e),))
            k=mono(sc2,m2); v2=v.subs(mp)
            x=d.get(k,ZERO)+v2
            if x.is_zero(): d.pop(k,None)
            else: d[k]=x
        return MT(s.rows.subs(mp),s.cols.subs(mp),d)
    def inv_scalar(s):
        if len(s.d)==1:
            ((sc,m),v),=s.d.items()
            if not m:
                q=v.inv()
                if q is not None: return MT(1,1,{(tuple((p,-e) for p,e in sc),()):q})
        return None
    def __repr__(s):
        if not s.d: return '0'
        o=[]
        for (sc,m),v in sorted(s.d.items(),key=lambda kv:str(kv[0])):
            t='*'.join([f"({v})"]+[f"<{ckey(p)}>^{e}" for p,e in sc]+([ckey(m)] if m else []))
            o.append(t)
        return ' + '.join(o)
    def key(s): return repr(s)
def _fs(f,mp): return (f[0],f[1],f[2].subs(mp),f[3].subs(mp),f[4].subs(mp),f[5].subs(mp))

class NeedSplit(Exception):
    def __init__(s,cond): s.cond=cond

def square_kind(a): return ATOMS[a].kind in('low','upp','diag','sym','slow','supp')

class Normalizer:
    def __init__(s,path,rules=(),ssub=None):
        s.path=path; s.rules=list(rules); s.ssub=ssub or {}
        s.steps=0
    # interval relation of point t wrt (a,b):  'out' | 'in'
    def rel(s,t,a,b):
        if t==a or t==b: return 'out'
        p=s.path
        d1=t-a; d2=b-t
        if p.le(t,a) or p.le(b,t): return 'out'
        if p.le(a,t) and p.le(t,b): return 'in'
        # undecided: split on something
        if not p.le(a,t): raise NeedSplit(z(a)<=z(t))
        raise NeedSplit(z(t)<=z(b))
    def empty(s,iv):
        d=iv[1]-iv[0]
        if d.is_const(): return d.const()<=0
        return s.path.le(iv[1],iv[0])
    def collect(s,terms):
        cuts={}
        def addf(f):
            a=f[0]
            if a==ID: return
            if square_kind(a):
                c=cuts.setdefault((a,'s'),set()); c.update((f[2],f[3],f[4],f[5]))
            else:
                cuts.setdefault((a,'r'),set()).update((f[2],f[3])); cuts.setdefault((a,'c'),set()).update((f[4],f[5]))
        for t in terms:
            for (sc,m) in t:
                for f in m: addf(f)
                for pc,e in sc:
                    for f in pc: addf(f)
        for (at,r0,r1,c0,c1,_) in s.rules:
            if (at,'s') in cuts or (at,'r') in cuts: addf((at,False,r0,r1,c0,c1))
        return cuts
    def axis_cuts(s,cuts,f,axis):
        """cut points for the matrix-side axis ('rows' or 'cols') of factor f in f's coordinates"""
        a=f[0]
        if a==ID: return (f[2],f[3],f[4],f[5])
        if square_kind(a): return cuts.get((a,'s'),())
        ax='r' if (axis=='rows')!=f[1] else 'c'
        return cuts.get((a,ax),())
    def chain_split(s,ch,cuts):
        """returns None or list of chains (inner split), or ('rows',offset)/('cols',offset) for an outer cut"""
        n=len(ch)
        for i in range(n-1):
            f,g=ch[i],ch[i+1]; a,b=fcols(f); c,d=frows(g)
            for t in s.axis_cuts(cuts,f,'cols'):
                if s.rel(t,a,b)=='in':
                    o=t-a
                    return ('inner',i,o)
            for t in s.axis_cuts(cuts,g,'rows'):
                if s.rel(t,c,d)=='in':
                    return ('inner',i,t-c)
        a,b=frows(ch[0])
        for t in s.axis_cuts(cuts,ch[0],'rows'):
            if s.rel(t,a,b)=='in': return ('rows',t-a)
        a,b=fcols(ch[-1])
        for t in s.axis_cuts(cuts,ch[-1],'cols'):
            if s.rel(t,a,b)=='in': return ('cols',t-a)
        return None
    def do_inner(s,ch,i,o):
        f,g=ch[i],ch[i+1]; a,b=fcols(f); c,d=frows(g)
        return [ch[:i]+(fwith(f,cols=(a,a+o)),fwith(g,rows=(c,c+o)))+ch[i+2:],
                ch[:i]+(fwith(f,cols=(a+o,b)),fwith(g,rows=(c+o,d)))+ch[i+2:]]
    def simp_chain(s,ch):
        """returns None if zero, else (coef, chain-list) -> list of (coef,scal,chain)"""
        # returns list of (Poly, chain)
        i=0
        ch=list(ch)
        changed=True
        while changed:
            changed=False
            for i,f in enumerate(ch):
                if s.empty(frows(f)) or s.empty(fcols(f)): 
                    # an empty inner dimension kills the product; an empty outer dimension is an empty matrix
                    return []
                a=f[0]
                if a==ID:
                    r,c=(f[2],f[3]),(f[4],f[5])
                    if r[0]==c[0] and r[1]==c[1]: del ch[i]; changed=True; break
                    if s.path.eq(r[0],c[0]) and s.path.eq(r[1],c[1]): del ch[i]; changed=True; break
                    if s.path.le(r[1],c[0]) or s.path.le(c[1],r[0]): return []
                    if i>0 and s.path.le(r[0],c[0]) and s.path.le(c[1],r[1]):
                        g=ch[i-1]; x,y=fcols(g); ch[i-1]=fwith(g,cols=(x+(c[0]-r[0]),x+(c[1]-r[0]))); del ch[i]; changed=True; break
                    if i+1<len(ch) and s.path.le(c[0],r[0]) and s.path.le(r[1],c[1]):
                        g=ch[i+1]; x,y=frows(g); ch[i+1]=fwith(g,rows=(x+(r[0]-c[0]),x+(r[1]-c[0]))); del ch[i]; changed=True; break
                    continue
                at=ATOMS[a]
                if at.kind in('low','upp','diag','slow','supp'):
                    r,c=(f[2],f[3]),(f[4],f[5])
                    same=(r==c) or (s.path.eq(r[0],c[0]) and s.path.eq(r[1],c[1]))
                    if not same:
                        if at.kind in('low','diag','slow') and s.path.le(r[1],c[0]): return []
                        if at.kind in('upp','diag','supp') and s.path.le(c[1],r[0]): return []
                    else:
                        if r!=c: ch[i]=(a,f[1],r[0],r[1],r[0],r[1]); f=ch[i]
                        if at.kind in('slow','supp') and is1(r): return []
                        if at.unit and is1(r): del ch[i]; changed=True; break
                        # cancellation with neighbour inverse
                        if i+1<len(ch):
                            g=ch[i+1]
                            if g[0]!=ID and ATOMS[g[0]].inv is at and g[1]==f[1]:
                                if (g[2],g[3],g[4],g[5])==(f[2],f[3],f[4],f[5]):
                                    del ch[i+1]; del ch[i]; changed=True; break
                        if at.inv_of and is1(r) and False: pass
                if at.kind=='perm' and i+1<len(ch):
                    g=ch[i+1]
                    if g[0]==a and g[1]!=f[1]:
                        # P * P^T with the inner index full
                        inner=fcols(f)
                        full=(ZERO,at.rows)
                        if inner==full and frows(g)==full:
                            o1=frows(f); o2=fcols(g)
                            ch[i:i+2]=[(ID,False,o1[0],o1[1],o2[0],o2[1])]; changed=True; break
                if at.kind=='orth' and i+1<len(ch): pass
            if changed: continue
        return [tuple(ch)]
    def expand_inv(s,f):
        """off-diagonal block of an inverse of a triangular matrix; returns None or list of (coef, chain)"""
        at=ATOMS[f[0]]
        if at.inv_of is None or at.kind not in('low','upp'): return None
        r,c=(f[2],f[3]),(f[4],f[5])
        if r==c or (s.path.eq(r[0],c[0]) and s.path.eq(r[1],c[1])): return None
        T=at.inv_of
        # inv[r,c] = - inv[r,r] * T[r, m] * inv[m, c]   with m = between (lower: c0..r0 ; upper: r1..c1)
        if at.kind=='low':
            if not s.path.le(c[1],r[0]): return None
            m=(c[0],r[0])
        else:
            if not s.path.le(r[1],c[0]): return None
            m=(r[1],c[1])
        ch=[(at.name,False,r[0],r[1],r[0],r[1]),(T,False,r[0],r[1],m[0],m[1]),(at.name,False,m[0],m[1],c[0],c[1])]
        if f[1]: ch=[ftrans(x) for x in reversed(ch)]
        return [(-1,tuple(ch))]
    def apply_rules_chain(s,ch):
        for i,f in enumerate(ch):
            for (at,r0,r1,c0,c1,term) in s.rules:
                if f[0]!=at: continue
                if s.path.le(r0,f[2]) and s.path.le(f[3],r1) and s.path.le(c0,f[4]) and s.path.le(f[5],c1):
                    sub=term.sub(f[2]-r0,f[3]-r0,f[4]-c0,f[5]-c0)
                    if f[1]: sub=sub.T()
                    return i,sub
        return None
    def norm_block(s,rows,cols,d):
        """normalise a term given as dict mono->coef; returns list of (blockdict) to be all zero, splitting outer cuts"""
        work=[(rows,cols,dict(d))]; done=[]
        while work:
            rows,cols,d=work.pop()
            s.steps+=1
            if s.steps>4000: raise RuntimeError('normaliser step limit')
            if s.empty((ZERO,rows)) or s.empty((ZERO,cols)): continue
            # simplify everything
            nd={}; again=False
            def put(k,v):
                v=v.subs(s.ssub) if s.ssub else v
                x=nd.get(k,ZERO)+v
                if x.is_zero(): nd.pop(k,None)
                else: nd[k]=x
            for (sc,m),v in d.items():
                # scalar pieces
                items=[((),v)]  # list of (scal, coef)
                for pc,e in sc:
                    if e<0: items=[(scal_mul(q,((pc,e),)),w) for q,w in items]; continue
                    rr=s.piece(pc)
                    if rr is None: items=[(scal_mul(q,((pc,e),)),w) for q,w in items]
                    else:
                        again=True
                        for _ in range(e):
                            items=[(scal_mul(q,p2),w*c2) for q,w in items for (c2,p2) in rr]
                if not items: again=True; continue
                for q,w in items:
                    if not m: put((q,()),w); continue
                    lst=s.simp_chain(m)
                    if not lst: continue
                    for m2 in lst:
                        ar=s.apply_rules_chain(m2) if m2 and s.rules else None
                        if ar:
                            again=True; i,sub=ar
                            for (sc3,m3),v3 in sub.d.items():
                                if not m3 and not sub.is1x1(): pass
                                put(mono(scal_mul(q,sc3),m2[:i]+m3+m2[i+1:]),w*v3)
                            continue
                        ei=None
                        for i,f in enumerate(m2):
                            if f[0]!=ID:
                                ei=s.expand_inv(f)
                                if ei: break
                        if ei:
                            again=True
                            for cf,c2 in ei: put(mono(q,m2[:i]+c2+m2[i+1:]),w*cf)
                            continue
                        if m2!=m: again=True
                        put(mono(q,m2),w)
            d=nd
            if not d: continue
            if again: work.append((rows,cols,d)); continue
            cuts=s.collect([d])
            # scalar-piece inner splits
            hit=None
            for (sc,m),v in d.items():
                for pc,e in sc:
                    r=s.chain_split(pc,cuts) if (len(pc)>1) else None
                    if r and r[0]=='inner':
                        hit=('piece',sc,m,pc,e,r); break
                if hit: break
                if m:
                    r=s.chain_split(m,cuts)
                    if r: hit=('main',sc,m,r); break
                elif not (rows==1 and cols==1):
                    pass
            if hit is None:
                for dd in (rows,cols):
                    if not dd.is_const() and not s.path.lt(ZERO,dd): raise NeedSplit(z(dd)<=0)
                for (sc,m),v in d.items():
                    for f in list(m)+[g for pc,e in sc for g in pc]:
                        a,b=fcols(f)
                        if not (b-a).is_const() and not s.path.lt(a,b): raise NeedSplit(z(b)<=z(a))
                done.append((rows,cols,d)); continue
            if hit[0]=='piece':
                _,sc,m,pc,e,r=hit
                v=d.pop((sc,m)); parts=s.do_inner(pc,r[1],r[2])
                if e!=1: raise RuntimeError('split of power piece')
                rest=tuple(x for x in sc if x[0]!=pc)
                for ch in parts:
                    k=mono(*canon(rest,()) ) ; s2,m2=canon(rest,ch)
                    k=(s2,m); x=d.get(k,ZERO)+v
                    if x.is_zero(): d.pop(k,None)
                    else: d[k]=x
                work.append((rows,cols,d))
            else:
                _,sc,m,r=hit
                if r[0]=='inner':
                    v=d.pop((sc,m))
                    for ch in s.do_inner(m,r[1],r[2]):
                        k=mono(sc,ch); x=d.get(k,ZERO)+v
                        if x.is_zero(): d.pop(k,None)
                        else: d[k]=x
                    work.append((rows,cols,d))
                else:
                    t=MT(rows,cols,d); o=r[1]
                    if r[0]=='rows':
                        work.append((o,cols,t.sub(ZERO,o,ZERO,cols).d)); work.append((rows-o,cols,t.sub(o,rows,ZERO,cols).d))
                    else:
                        work.append((rows,o,t.sub(ZERO,rows,ZERO,o).d)); work.append((rows,cols-o,t.sub(ZERO,rows,o,cols).d))
        return done
    def piece(s,pc):
        """simplify scalar piece; None if unchanged, else list of (coef, scal)"""
        lst=s.simp_chain(pc)
        if not lst: return []
        m=lst[0]
        ar=s.apply_rules_chain(m) if m and s.rules else None
        if ar:
            i,sub=ar; out=[]
            for (sc3,m3),v3 in sub.d.items():
                s2,m2=canon(sc3,m[:i]+m3+m[i+1:]); assert not m2
                out.append((v3,s2))
            return out
        for i,f in enumerate(m):
            if f[0]!=ID:
                at=ATOMS[f[0]]
                ei=s.expand_inv(f)
                if ei:
                    out=[]
                    for cf,c2 in ei:
                        s2,m2=canon((),m[:i]+c2+m[i+1:]); out.append((Poly.c(cf),s2))
                    return out
                if at.inv_of and len(m)==1 and is1((f[2],f[3])) and f[2]==f[4] and f[3]==f[5]:
                    return [(ONE,((canon_piece(((at.inv_of,f[1])+f[2:],)),-1),))]
        if m==pc: return None
        s2,m2=canon((),m)
        return [(ONE,s2)]

def unify_endpoints(path,d,extra=()):
    """rewrite index endpoints that are provably equal on this path to one representative; None if nothing changes"""
    ps=set(extra)
    for (sc,m) in d:
        for ch in tuple(p for p,_ in sc)+(m,):
            for f in ch: ps.update(f[2:6])
    ps=sorted((p for p in ps),key=lambda p:(len(p.d),len(repr(p)),repr(p)))
    rep={}; reps=[]
    for p in ps:
        for q in reps:
            df=p-q
            if df.is_const(): continue
            if path.eq(p,q): rep[p]=q; break
        else: reps.append(p)
    if not rep: return None
    g=lambda p: rep.get(p,p)
    fz=lambda f: (f[0],f[1],g(f[2]),g(f[3]),g(f[4]),g(f[5]))
    out={}
    for (sc,m),v in d.items():
        sc2=()
        for pc,e in sc: sc2=scal_mul(sc2,((canon_piece(tuple(fz(f) for f in pc)),e),))
        k=mono(sc2,tuple(fz(f) for f in m))
        x=out.get(k,ZERO)+v
        if x.is_zero(): out.pop(k,None)
        else: out[k]=x
    return out,g
def equal(path,a,b,rules=(),ssub=None,depth=0,maxdepth=8):
    """decide a==b for all matrices; returns (True,None) or (False,(path,residual))"""
    d=(a-b)
    if not d.d: return True,None
    rows,cols,dd=a.rows,a.cols,d.d
    for att in range(2):
        try:
            N=Normalizer(path,rules,ssub)
            res=N.norm_block(rows,cols,dd)
            if not res: return True,None
            if att==0:
                u=unify_endpoints(path,dd,(rows,cols))
                if u is not None:
                    dd,g=u; rows,cols=g(rows),g(cols)
                    if not dd: return True,None
                    continue
            return False,(path,res)
        except NeedSplit as e:
            if depth>=maxdepth: return False,(path,'undecided split '+str(e.cond))
            for c in (e.cond,z3.Not(e.cond)):
                p2=path.add(c)
                if not p2.feasible(): continue
                ok,w=equal(p2,a,b,rules,ssub,depth+1,maxdepth)
                if not ok: return ok,w
            return True,None

_TK=('low','upp','diag','slow','supp')
def quick_simp(path,t):
    """drop monomials that are zero for structural reasons; canonicalise unit 1x1 blocks"""
    if not any(f[0]!=ID and ATOMS[f[0]].kind in _TK for (sc,m) in t.d for f in list(m)+[g for pc,e in sc for g in pc]) and \
       not any(f[0]==ID for (sc,m) in t.d for f in list(m)+[g for pc,e in sc for g in pc]): return t
    N=Normalizer(path); d={}
    for (sc,m),v in t.d.items():
        items=[((),v)]; dead=False
        for pc,e in sc:
            if e<0: items=[(scal_mul(q,((pc,e),)),w) for q,w in items]; continue
            l=N.simp_chain(pc)
            if not l: dead=True; break
            s2,m2=canon((),l[0])
            if m2: s2=((pc,1),)
            for _ in range(e): items=[(scal_mul(q,s2),w) for q,w in items]
        if dead: continue
        if m:
            l=N.simp_chain(m)
            if not l: continue
            m2=l[0]
        else: m2=m
        for q,w in items:
            k=mono(q,m2); x=d.get(k,ZERO)+w
            if x.is_zero(): d.pop(k,None)
            else: d[k]=x
    return MT(t.rows,t.cols,d)
