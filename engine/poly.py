"""Commutative (Laurent) polynomials with integer/rational coefficients; opaque atoms; z3 back end for order queries."""
from fractions import Fraction
import z3, itertools

REG={}      # atom name -> (sort, info)   sort in 'int','real';  info: None or ('udiv',a,b) ('fresh',..)
_fresh=itertools.count()
def reg(name,sort='int',info=None):
    if name not in REG: REG[name]=(sort,info)
    return name
def fresh(prefix,sort='int'):
    n=f"{prefix}!{next(_fresh)}"; reg(n,sort); return n

class Poly:
    __slots__=('d','_h','_s')
    def __init__(s,d): s.d=d; s._h=None; s._s=None
    @staticmethod
    def c(v): 
        return Poly({():v}) if v!=0 else ZERO
    @staticmethod
    def v(name,sort='int',exp=1):
        reg(name,sort); return Poly({((name,exp),):1})
    def __hash__(s):
        if s._h is None: s._h=hash(frozenset(s.d.items()))
        return s._h
    def __eq__(s,o):
        if isinstance(o,(int,Fraction)): o=Poly.c(o)
        return isinstance(o,Poly) and s.d==o.d
    def __add__(s,o):
        if isinstance(o,(int,Fraction)): o=Poly.c(o)
        if not s.d: return o
        if not o.d: return s
        d=dict(s.d)
        for k,v in o.d.items():
            x=d.get(k,0)+v
            if x==0: d.pop(k,None)
            else: d[k]=x
        return Poly(d)
    __radd__=__add__
    def __neg__(s): return Poly({k:-v for k,v in s.d.items()})
    def __sub__(s,o):
        if isinstance(o,(int,Fraction)): o=Poly.c(o)
        return s+(-o)
    def __rsub__(s,o): return (-s)+o
    def __mul__(s,o):
        if isinstance(o,(int,Fraction)):
            if o==0: return ZERO
            if o==1: return s
            return Poly({k:v*o for k,v in s.d.items()})
        if s.is_const(): return o*s.const()
        if o.is_const(): return s*o.const()
        d={}
        for k,v in s.d.items():
            for k2,v2 in o.d.items():
                m=mmul(k,k2); x=d.get(m,0)+v*v2
                if x==0: d.pop(m,None)
                else: d[m]=x
        return Poly(d)
    __rmul__=__mul__
    def is_const(s): return not s.d or (len(s.d)==1 and () in s.d)
    def const(s): return s.d.get((),0)
    def is_zero(s): return not s.d
    def atoms(s):
        r=set()
        for k in s.d:
            for a,_ in k: r.add(a)
        return r
    def single_atom(s):
        if len(s.d)==1:
            (k,v),=s.d.items()
            if v==1 and len(k)==1 and k[0][1]==1: return k[0][0]
        return None
    def inv(s):
        if len(s.d)==1:
            (k,v),=s.d.items()
            return Poly({tuple((a,-e) for a,e in k): Fraction(1)/v if abs(v)!=1 else v})
        return None
    def coeffs_in(s,atom):
        """dict power-> Poly"""
        r={}
        for k,v in s.d.items():
            e=0; rest=[]
            for a,x in k:
                if a==atom: e=x
                else: rest.append((a,x))
            r.setdefault(e,{})[tuple(rest)]=v
        return {e:Poly(d) for e,d in r.items()}
    def subs(s,m):
        if not m: return s
        if not any(_touches(a,m) for a in s.atoms()): return s
        out=ZERO
        for k,v in s.d.items():
            t=Poly.c(v)
            for a,e in k:
                p=_sub_atom(a,m)
                if e>0:
                    for _ in range(e): t=t*p
                else:
                    q=p.inv()
                    if q is None:
                        q=Poly.v(f"inv({p})",'real')
                    for _ in range(-e): t=t*q
            out=out+t
        return out
    def __repr__(s):
        if s._s is None:
            if not s.d: s._s='0'
            else:
                o=[]
                for k,v in sorted(s.d.items(),key=lambda kv:str(kv[0])):
                    m='*'.join(a if e==1 else f"{a}^{e}" for a,e in k)
                    if not m: o.append(str(v))
                    elif v==1: o.append(m)
                    elif v==-1: o.append('-'+m)
                    else: o.append(f"{v}*{m}")
                s._s='+'.join(o).replace('+-','-')
        return s._s
ZERO=Poly({})
ONE=Poly({():1})
def mmul(a,b):
    if not a: return b
    if not b: return a
    d=dict(a)
    for x,e in b:
        n=d.get(x,0)+e
        if n==0: d.pop(x,None)
        else: d[x]=n
    return tuple(sorted(d.items()))
def _touches(a,m):
    if a in m: return True
    info=REG.get(a,(None,None))[1]
    if info and info[0]=='udiv': return any(_touches(x,m) for x in info[1].atoms()|info[2].atoms())
    if info and info[0]=='min': return any(_touches(x,m) for x in info[1].atoms()|info[2].atoms())
    return False
def _sub_atom(a,m):
    if a in m: return m[a]
    info=REG.get(a,(None,None))[1]
    if info and info[0]=='udiv': return udiv(info[1].subs(m),info[2].subs(m))
    return Poly.v(a,REG[a][0])
def udiv(a,b):
    if b==1: return a
    if a.is_const() and b.is_const() and b.const()>0: return Poly.c(a.const()//b.const())
    if b.is_const() and b.const()>0:
        c=b.const()
        # pull out multiples
        q={k:v//c for k,v in a.d.items() if k!=() and v%c==0}
        r={k:v for k,v in a.d.items() if not (k!=() and v%c==0)}
        c0=r.get((),0)
        if q:
            if c0 and c0//c: 
                q[()]=c0//c; r[()]=c0-c*(c0//c)
                if r[()]==0: r.pop(())
            rp=Poly(r); qp=Poly({k:v for k,v in q.items() if v!=0})
            if rp.is_zero(): return qp
            if rp.is_const() and 0<=rp.const()<c: return qp
            return qp+udiv(rp,b)
    if a==b: return ONE   # b>0 assumed by caller
    n=f"({a})/({b})"; reg(n,'int',('udiv',a,b)); return Poly.v(n)

# ---------------- prover
_zc={}
def zatom(a):
    if a not in _zc:
        so=REG.get(a,('int',None))[0]
        _zc[a]=z3.Real(a) if so=='real' else z3.Int(a)
    return _zc[a]
_zp={}
def z(p):
    if isinstance(p,(int,Fraction)): p=Poly.c(p)
    r=_zp.get(p)
    if r is not None: return r
    ts=[]
    for k,v in p.d.items():
        num=[];den=[]
        for a,e in k:
            za=zatom(a)
            (num if e>0 else den).extend([za]*abs(e))
        t=None
        for x in num: t=x if t is None else t*x
        for x in den: t=(1/x) if t is None else t/x
        if isinstance(v,Fraction) and v.denominator!=1: cv=z3.RealVal(str(v))
        else: cv=z3.IntVal(int(v))
        ts.append(cv if t is None else (t if v==1 else cv*t))
    r=z3.IntVal(0) if not ts else (ts[0] if len(ts)==1 else z3.Sum(ts))
    _zp[p]=r
    return r
def axioms_for(atoms,seen=None):
    seen=set() if seen is None else seen; out=[]
    st=list(atoms)
    while st:
        a=st.pop()
        if a in seen: continue
        seen.add(a)
        info=REG.get(a,(None,None))[1]
        if info and info[0]=='udiv':
            x,y=info[1],info[2]; q=zatom(a)
            if y.is_const(): out.append(z3.And(z(y)*q<=z(x), z(x)<z(y)*q+z(y)))
            else: out.append(z3.Implies(z(y)>0,z3.And(z(y)*q<=z(x), z(x)<z(y)*q+z(y))))
            out.append(z3.Implies(z3.And(z(x)>=0,z(y)>0),z3.And(q>=0,q<=z(x))))
            st+=list(x.atoms()|y.atoms())
    return out

class Stats: queries=0; time=0.0; unknown=0
import time as _t
_vcache={}
def zvars(e):
    i=e.get_id()
    r=_vcache.get(i)
    if r is not None and r[0].eq(e): return r[1]
    s=set(); st=[e]; seen=set()
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: s.add(x.decl().name())
        st+=list(x.children())
    _vcache[i]=(e,s)
    return s

class Path:
    """immutable list of z3 constraints + cached queries"""
    __slots__=('cs','cache','_ax','_sat')
    def __init__(s,cs=()): s.cs=tuple(cs); s.cache={}; s._ax=None; s._sat=None
    def add(s,*c):
        c=[x for x in c if not z3.is_true(x)]
        return Path(s.cs+tuple(c)) if c else s
    def _base(s):
        if s._ax is None:
            vs=set()
            for c in s.cs: vs|=zvars(c)
            s._ax=(vs,axioms_for(vs))
        return s._ax
    def _solve(s,extra,timeout):
        vs,ax=s._base(); seen=set(vs)
        ev=set()
        for e in extra: ev|=zvars(e)
        more=axioms_for(ev,set(vs))
        t0=_t.time(); Stats.queries+=1
        sol=z3.Solver(); sol.set('timeout',timeout)
        sol.add(*s.cs); sol.add(*ax); sol.add(*more); sol.add(*extra)
        r=sol.check(); Stats.time+=_t.time()-t0
        if r==z3.unknown: Stats.unknown+=1
        return r,sol
    def prove(s,c,timeout=4000):
        if z3.is_true(c): return True
        k=c.get_id(); h=s.cache.get(k)
        if h is not None and h[0].eq(c): return h[1]
        r,_=s._solve([z3.Not(c)],timeout)
        v=(r==z3.unsat); s.cache[k]=(c,v); return v
    def feasible(s,*extra,timeout=2000):
        if not extra and s._sat is not None: return s._sat
        r,_=s._solve(list(extra),timeout)
        v=r!=z3.unsat
        if not extra: s._sat=v
        return v
    def model(s,*extra,timeout=5000):
        r,sol=s._solve(list(extra),timeout)
        return sol.model() if r==z3.sat else None
    def le(s,a,b):
        d=b-a
        if d.is_const(): return d.const()>=0
        return s.prove(z(a)<=z(b))
    def lt(s,a,b):
        d=b-a
        if d.is_const(): return d.const()>0
        return s.prove(z(a)<z(b))
    def eq(s,a,b):
        d=b-a
        if d.is_const(): return d.const()==0
        return s.prove(z(a)==z(b))
