"""Loops: an inductive invariant is guessed from one symbolic iteration and then proved (base case and step) by the
executor; nothing the guess claims is used before it is proved."""
from exec import *
import z3

class NoGuess(Exception): pass
MAXUNROLL=70

def mentions(p,k): return any(_at(a,k) for a in p.atoms())
def _at(a,k):
    if a==k: return True
    info=REG.get(a,(None,None))[1]
    return bool(info and info[0]=='udiv' and any(_at(x,k) for x in info[1].atoms()|info[2].atoms()))
def fmentions(f,k): return any(mentions(p,k) for p in f[2:6])
def chmentions(ch,k): return any(fmentions(f,k) for f in ch)
def at(p,k,v): return p.subs({k:P_(v)})
def nxt(p,k): return p.subs({k:Poly.v(k)+1})

def widen(iv,k):
    """union over j<k of the interval iv(j); None when not contiguous"""
    a,b=iv
    if not mentions(a,k) and not mentions(b,k): return None
    if nxt(a,k)==b: return (at(a,k,0),a)
    if nxt(b,k)==a: return (b,at(b,k,0))
    return None
def ends(ch):
    return frows(ch[0]),fcols(ch[-1])

def stack_mono(sc,main,k,one):
    """monomial of a sliding row window (rows move with k) -> monomial of the union of rows"""
    pk=[(p,e) for p,e in sc if chmentions(p,k)]; rest=tuple((p,e) for p,e in sc if not chmentions(p,k))
    if main and chmentions(main,k):
        w=widen(frows(main[0]),k)
        new=None
        if w is not None:
            f=fwith(main[0],rows=w); new=(f,)+main[1:]
            # identity blocks and (block-)diagonal atoms move in both directions
            if fmentions_other(f,k,0) and main[0][0]==ID:
                w2=widen(fcols(main[0]),k)
                if w2: new=(fwith(f,cols=w2),)+main[1:]
        if new is None or _bad(new,k,w): 
            new=gen_tri_row(main,k)
        if new is None: raise NoGuess('row shape')
        main=new
        if not pk: return rest,main
        if len(pk)==1 and one:
            p,e=pk[0]
            if len(p)==1 and e in(1,-1):
                d=diag_factor(p[0],k,e)
                if d is not None: return rest,(d,)+main
        raise NoGuess('row-dependent scalar')
    if not pk: raise NoGuess('window value does not move')
    if not one: raise NoGuess('row-dependent scalar on block')
    if len(pk)==1:
        p,e=pk[0]
        if e==1:
            for q in (p,ctrans(p)):
                w=widen(frows(q[0]),k)
                if w is None: continue
                n=(fwith(q[0],rows=w),)+q[1:]
                if _bad(n,k,w):
                    n=gen_tri_row(q,k)
                    if n is None: continue
                return rest,n+main
    raise NoGuess('scalar shape')
def fmentions_other(f,k,_): return any(mentions(p,k) for p in fcols(f))
def _bad(ch,k,w):
    """k may only occur in the widened row interval of the first factor"""
    f=ch[0]
    if any(mentions(p,k) for p in fcols(f)) and f[0]!=ID: return True
    if f[0]==ID: return False
    return any(fmentions(g,k) for g in ch[1:])
def gen_tri_row(main,k):
    return None
def diag_factor(f,k,e):
    r,c=frows(f),fcols(f)
    if r!=c: return None
    w=widen(r,k)
    if w is None: return None
    if f[0]==ID: return None
    at_=ATOMS[f[0]]
    if at_.kind not in('diag',): return None
    if e==-1: at_=inverse_atom(at_) if at_.inv is None else at_.inv
    return (at_.name,False,w[0],w[1],w[0],w[1])
def stack(t,k,one):
    d={}
    for (sc,m),v in t.d.items():
        if mentions(v,k): raise NoGuess('coefficient depends on iteration')
        if not m and not sc:
            raise NoGuess('constant')
        s2,m2=stack_mono(sc,m,k,one)
        kk=mono(s2,m2); x=d.get(kk,ZERO)+v
        if x.is_zero(): d.pop(kk,None)
        else: d[kk]=x
    return d
def accum_mono(sc,main,v,k):
    """sum over j<k of a monomial with fixed outer window"""
    if mentions(v,k): raise NoGuess('coefficient depends on iteration')
    pk=[]; rest=()
    for p,e in sc:
        if chmentions(p,k):
            if e<0: raise NoGuess('inverse accumulates')
            pk+= [p]*e
        else: rest=scal_mul(rest,((p,e),))
    mk=bool(main) and chmentions(main,k)
    if not pk and not mk: return rest,main,v*Poly.v(k)
    if mk and not pk:
        return rest,_inner(main,k),v
    if len(pk)==1 and not mk:
        return scal_mul(rest,((canon_piece(_inner(pk[0],k)),1),)),main,v
    if len(pk)==2 and not mk:
        for p in (pk[0],ctrans(pk[0])):
            for q in (pk[1],ctrans(pk[1])):
                g=_glue(p,q,k)
                if g: return scal_mul(rest,((canon_piece(g),1),)),main,v
    if len(pk)==1 and mk:
        for q in (pk[0],ctrans(pk[0])):
            g=_glue(main,q,k)
            if g: return rest,g,v
            g=_glue(q,main,k)
            if g: return rest,g,v
    raise NoGuess('accumulation shape')
def _glue(p,q,k):
    a=fcols(p[-1]); b=frows(q[0])
    if a!=b and (b[0]-a[0])!=(b[1]-a[1]): return None
    wa=widen(a,k); wb=widen(b,k)
    if wa is None or wb is None: return None
    ch=p[:-1]+(fwith(p[-1],cols=wa),)+(fwith(q[0],rows=wb),)+q[1:]
    # k may remain only in the junction
    if any(fmentions(f,k) for f in p[:-1]+q[1:]): return None
    if any(mentions(x,k) for x in frows(p[-1])+fcols(q[0])): return None
    return ch
def _inner(ch,k):
    for i in range(len(ch)-1):
        a=fcols(ch[i])
        if any(mentions(x,k) for x in a):
            g=_glue(ch[:i+1],ch[i+1:],k)
            if g: return g
    raise NoGuess('inner junction')
def accum(t,k):
    d={}
    for (sc,m),v in t.d.items():
        s2,m2,v2=accum_mono(sc,m,v,k)
        kk=mono(s2,m2); x=d.get(kk,ZERO)+v2
        if x.is_zero(): d.pop(kk,None)
        else: d[kk]=x
    return MT(t.rows,t.cols,d)

# ---------------------------------------------------------------- guesses for arrays
def merge_rects(ch):
    """join vertically/horizontally adjacent changed rectangles whose terms continue one another"""
    return ch
def guess_array(path,a0,a1,k):
    """list of writer functions describing the array after k iterations, from the effect of iteration k on the initial content"""
    changes=[]
    for (r0,r1,c0,c1,t) in a1.blocks:
        o=read_rect(path,a0,r0,r1,c0,c1,junk=False)
        if o is not None and not (o-t).d: continue
        if o is not None and len(t.d)<6 and len(o.d)<6 and equal(path,o,t)[0]: continue
        changes.append((r0,r1,c0,c1,t,o))
    out=[]
    for (r0,r1,c0,c1,t,o) in coalesce(changes,k):
        rm=mentions(r0,k) or mentions(r1,k); cm=mentions(c0,k) or mentions(c1,k)
        if rm and cm:
            out.append(guess_diag(path,a0,r0,r1,c0,c1,t,k)); continue
        if rm:
            w=widen((r0,r1),k)
            if w is None: raise NoGuess(f'rows {r0}:{r1} not contiguous')
            out.append((w[0],w[1],c0,c1,stack_term(t,k,is1((r0,r1)),w[1]-w[0],c1-c0)))
        elif cm:
            w=widen((c0,c1),k)
            if w is None: raise NoGuess(f'cols {c0}:{c1} not contiguous')
            tt=stack_term(t.T(),k,is1((c0,c1)),w[1]-w[0],r1-r0)
            out.append((r0,r1,w[0],w[1],tt.T()))
        else:
            if o is None: raise NoGuess('fixed window without previous content')
            out.append((r0,r1,c0,c1,o+accum(t-o,k)))
    return out
def stack_term(t,k,one,rows,cols):
    # constants on 1x1 windows
    d={}
    tt=t
    const=t.d.get(UNIT)
    if const is not None and t.rows==1 and t.cols==1:
        raise NoGuess('constant column')
    return MT(rows,cols,stack(tt,k,one))
def guess_diag(path,a0,r0,r1,c0,c1,t,k):
    wr=widen((r0,r1),k); wc=widen((c0,c1),k)
    if wr is None or wc is None: raise NoGuess('diagonal')
    if not (t.rows==1 and t.cols==1 and set(t.d)<= {UNIT}): raise NoGuess('diagonal value')
    old=read_rect(path,a0,wr[0],wr[1],wc[0],wc[1],junk=False)
    if old is None or old.d: raise NoGuess('diagonal old content')
    n=wr[1]-wr[0]
    v=t.d.get(UNIT,ZERO)
    if mentions(v,k): raise NoGuess('diagonal coefficient')
    return (wr[0],wr[1],wc[0],wc[1],MT(n,n,{UNIT:v} if not v.is_zero() else {}))
def coalesce(ch,k):
    """merge adjacent rectangles written by the same iteration (unrolled bodies)"""
    ch=list(ch); again=True
    while again:
        again=False
        for i in range(len(ch)):
            for j in range(len(ch)):
                if i==j: continue
                a,b=ch[i],ch[j]
                if a[1]==b[0] and a[2]==b[2] and a[3]==b[3]:
                    t=join_terms(a[4],b[4],0); o=join_terms(a[5],b[5],0) if a[5] is not None and b[5] is not None else None
                    if t is None: continue
                    ch=[c for n,c in enumerate(ch) if n not in(i,j)]+[(a[0],b[1],a[2],a[3],t,o)]; again=True; break
                if a[3]==b[2] and a[0]==b[0] and a[1]==b[1]:
                    t=join_terms(a[4].T(),b[4].T(),0); o=join_terms(a[5].T(),b[5].T(),0) if a[5] is not None and b[5] is not None else None
                    if t is None: continue
                    ch=[c for n,c in enumerate(ch) if n not in(i,j)]+[(a[0],a[1],a[2],b[3],t.T(),o.T() if o is not None else None)]; again=True; break
            if again: break
    return ch
def join_terms(a,b,axis):
    """vertical concatenation when every monomial of b continues one of a"""
    if not a.d and not b.d: return MT(a.rows+b.rows,a.cols,{})
    if len(a.d)!=len(b.d): return None
    out={}; used=set()
    for (sc,m),v in a.d.items():
        hit=None
        for (sc2,m2),v2 in b.d.items():
            if (sc2,m2) in used or v!=v2: continue
            r=_cont(sc,m,sc2,m2,a,b)
            if r is not None: hit=((sc2,m2),r); break
        if hit is None: return None
        used.add(hit[0]); kk=mono(*hit[1]); out[kk]=out.get(kk,ZERO)+v
    return MT(a.rows+b.rows,a.cols,out)
def _cont(sc,m,sc2,m2,a,b):
    if m and m2 and sc==sc2 and len(m)==len(m2) and m[1:]==m2[1:]:
        f,g=m[0],m2[0]
        if f[0]==g[0] and f[1]==g[1] and fcols(f)==fcols(g) and frows(f)[1]==frows(g)[0]:
            return sc,(fwith(f,rows=(frows(f)[0],frows(g)[1])),)+m[1:]
    if m==m2 and a.rows==1 and b.rows==1 or (not m and not m2):
        # scalar pieces that continue each other
        d1=[p for p in sc if p not in sc2]; d2=[p for p in sc2 if p not in sc]
        if len(d1)==1 and len(d2)==1 and d1[0][1]==1 and d2[0][1]==1:
            for p in(d1[0][0],ctrans(d1[0][0])):
                for q in(d2[0][0],ctrans(d2[0][0])):
                    if len(p)==len(q) and p[1:]==q[1:] and p[0][:2]==q[0][:2] and fcols(p[0])==fcols(q[0]) and frows(p[0])[1]==frows(q[0])[0]:
                        n=(fwith(p[0],rows=(frows(p[0])[0],frows(q[0])[1])),)+p[1:]
                        return tuple(x for x in sc if x!=d1[0]),n+m
    return None

def tri_factors(t):
    out=[]
    for (sc,m),v in t.d.items():
        for ch in [m]+[p for p,e in sc]:
            for f in ch:
                if f[0]!=ID and ATOMS[f[0]].kind in('low','upp') and (f[0],f[1]) not in out: out.append((f[0],f[1]))
    return out
def repl_end(t,a,b):
    """replace the window end point a by b in every factor"""
    def rf(f): return f[:2]+tuple(b if x==a else x for x in f[2:])
    d={}
    for (sc,m),v in t.d.items():
        s2=()
        for p,e in sc: s2=scal_mul(s2,((canon_piece(tuple(rf(f) for f in p)),e),))
        kk=mono(s2,tuple(rf(f) for f in m)); d[kk]=d.get(kk,ZERO)+v
    return d
def guess_extend(path,a0,a1,k,entry):
    """a processed window that grows by one block per iteration: its content keeps the form it has on entry"""
    ch=[]
    for (r0,r1,c0,c1,t) in a1.blocks:
        o=read_rect(path,a0,r0,r1,c0,c1,junk=False)
        if o is not None and not (o-t).d: continue
        ch.append((r0,r1,c0,c1))
    if not ch: return None
    alts=[]
    for axis in (0,1):
        ends=set(); fixed=set(); oth=set()
        for c in ch:
            for x in c[2*axis:2*axis+2]: (ends if mentions(x,k) else fixed).add(x)
            oth.add(c[2-2*axis:4-2*axis])
        if len(oth)!=1 or any(mentions(x,k) for x in list(oth)[0]) or not ends: continue
        o0,o1=list(oth)[0]
        los=[e for e in ends]
        for mv in los:
            d=nxt(mv,k)-mv
            if mentions(d,k) or d.is_zero(): continue
            grow_down=path.le(d,ZERO)
            for fx in list(fixed) or [ZERO]:
                cur=mv; w0=at(cur,k,0)
                lo,hi=(w0,fx) if grow_down else (fx,w0)
                lk,hk=(cur,fx) if grow_down else (fx,cur)
                if lo==hi: continue   # nothing processed yet on entry: no form to extend
                e=read_rect(path,entry,*((lo,hi,o0,o1) if axis==0 else (o0,o1,lo,hi)),junk=False)
                if e is None: continue
                nd=repl_end(e,w0,cur)
                if axis==0: alts.append([(lk,hk,o0,o1,MT(hk-lk,o1-o0,nd))])
                else: alts.append([(o0,o1,lk,hk,MT(o1-o0,hk-lk,nd))])
    return alts or None
def guess_recur(path,a0,a1,k):
    """rows (or columns) solved or multiplied one after the other by a triangular matrix: candidate closed forms"""
    changes=[]
    for (r0,r1,c0,c1,t) in a1.blocks:
        o=read_rect(path,a0,r0,r1,c0,c1,junk=False)
        if o is not None and not (o-t).d: continue
        changes.append((r0,r1,c0,c1,t,o))
    if len(changes)!=1: return None
    r0,r1,c0,c1,t,o=changes[0]
    tf=[]
    for n,tr in tri_factors(t):
        for x in((n,False),(n,True)):
            if x not in tf: tf.append(x)
    alts=[]
    for axis in (0,1):
        iv=(r0,r1) if axis==0 else (c0,c1); other=(c0,c1) if axis==0 else (r0,r1)
        if any(mentions(x,k) for x in other): continue
        w=widen(iv,k)
        if w is None: continue
        old=read_rect(path,a0,*( (w[0],w[1],c0,c1) if axis==0 else (r0,r1,w[0],w[1])),junk=False)
        if old is None: continue
        n=w[1]-w[0]
        for nm,tr in tf[:4]:
            at_=ATOMS[nm]
            for inv in ((True,False) if at_.inv_of is None else (False,True)):
                b=(at_.inv if at_.inv is not None else inverse_atom(at_)) if inv else at_
                T=MT(n,n,{((),((b.name,tr,w[0],w[1],w[0],w[1]),)):ONE})
                val=T.mul(old) if axis==0 else old.mul(T)
                alts.append([(w[0],w[1],c0,c1,val)] if axis==0 else [(r0,r1,w[0],w[1],val)])
    return alts or None
def guess_triinv(path,a0,a1,k):
    """in-place triangular inversion row by row: the processed diagonal square holds the inverse of its triangular part"""
    ch=[]
    for (r0,r1,c0,c1,t) in a1.blocks:
        o=read_rect(path,a0,r0,r1,c0,c1,junk=False)
        if o is not None and not (o-t).d: continue
        ch.append((r0,r1,c0,c1,t))
    if not ch or not any(ATOMS[n].kind in('low','upp') for c in ch for n,tr in tri_factors(c[4])): return None
    alts=[]
    pts=[]
    for c in ch:
        for x in c[:4]:
            if mentions(x,k) and x not in pts: pts.append(x)
    fixed=[a0.rows,a0.cols,ZERO]
    for mv in pts:
        d=nxt(mv,k)-mv
        if mentions(d,k): continue
        for w in ((mv,a0.rows),(ZERO,mv)):
            if w[0]==ZERO and path.le(d,ZERO) or w[0]!=ZERO and not path.le(d,ZERO): continue
            o=read_rect(path,a0,w[0],w[1],w[0],w[1],junk=False)
            if o is None: continue
            for nm,tr in tri_factors(o):
                at_=ATOMS[nm]; iv=at_.inv if at_.inv is not None else inverse_atom(at_)
                n=w[1]-w[0]
                T=MT(n,n,{((),((nm,tr)+w+w,)):ONE}); Ti=MT(n,n,{((),((iv.name,tr)+w+w,)):ONE})
                alts.append([(w[0],w[1],w[0],w[1],o-T+Ti)])
    return alts or None
def guess_rightlook(path,a0,a1,k):
    """blocked triangular solve that updates the remaining part after each block: processed part T^-1.B, remainder B-T.T^-1.B"""
    changes=[]
    for (r0,r1,c0,c1,t) in a1.blocks:
        o=read_rect(path,a0,r0,r1,c0,c1,junk=False)
        if o is not None and not (o-t).d: continue
        changes.append((r0,r1,c0,c1,t))
    if len(changes)!=2: return None
    tf=[]
    for c in changes:
        for n,tr in tri_factors(c[4]):
            at_=ATOMS[n]
            if at_.inv_of is not None: n=at_.inv_of if isinstance(at_.inv_of,str) else at_.inv_of.name
            for x in((n,False),(n,True)):
                if x not in tf: tf.append(x)
    alts=[]
    for a,b in (changes,changes[::-1]):
        for axis in (0,1):
            iv=a[:2] if axis==0 else a[2:4]; rest=b[:2] if axis==0 else b[2:4]
            oth=a[2:4] if axis==0 else a[:2]
            if (b[2:4] if axis==0 else b[:2])!=oth or any(mentions(x,k) for x in oth): continue
            w=widen(iv,k)
            if w is None: continue
            # remaining range: the changed remainder together with this iteration's block
            if rest[0]==iv[1]: q=(iv[0],rest[1])
            elif rest[1]==iv[0]: q=(rest[0],iv[1])
            else: continue
            rd=lambda x:read_rect(path,a0,*((x[0],x[1])+oth if axis==0 else oth+(x[0],x[1])),junk=False)
            oP,oQ=rd(w),rd(q)
            if oP is None or oQ is None: continue
            n=w[1]-w[0]; m=q[1]-q[0]
            for nm,tr in tf[:4]:
                at_=ATOMS[nm]; iv_=at_.inv if at_.inv is not None else inverse_atom(at_)
                Ti=MT(n,n,{((),((iv_.name,tr,w[0],w[1],w[0],w[1]),)):ONE})
                if axis==0:
                    T=MT(m,n,{((),((nm,tr)+((w[0],w[1],q[0],q[1]) if tr else (q[0],q[1],w[0],w[1])),)):ONE}); P=Ti.mul(oP); Q=oQ-T.mul(P)
                    alts.append([(w[0],w[1])+oth+(P,),(q[0],q[1])+oth+(Q,)])
                else:
                    T=MT(n,m,{((),((nm,tr)+((q[0],q[1],w[0],w[1]) if tr else (w[0],w[1],q[0],q[1])),)):ONE}); P=oP.mul(Ti); Q=oQ-P.mul(T)
                    alts.append([oth+(w[0],w[1],P),oth+(q[0],q[1],Q)])
    return alts or None
# ---------------------------------------------------------------- the loop rule
def do_loop(ex,f,cfg,h,st,depth):
    try:
        return loop1(ex,f,cfg,h,st,depth)
    except NeedSplit as e:
        ex.splits=getattr(ex,'splits',0)+1
        if ex.splits>400: raise Unsupported('split limit')
        if ex.debug:
            print('LOOPSPLIT',e.cond)
            if ex.splits==1: import traceback; traceback.print_exc(limit=-6)
        outs=[]
        for c in (e.cond,z3.Not(e.cond)):
            t=st.fork(); t.path=t.path.add(c)
            if t.path.feasible(): outs+=do_loop(ex,f,cfg,h,t,depth)
        return outs

def header_const(ex,f,h,st,depth):
    """True/False when the header's branch condition is a literal constant in this state, else None"""
    t=st.fork(); ins=f.blocks[h]
    if ins[-1].op!='br' or len(ins[-1].x['dests'])==1: return None
    ex.trial+=1
    try:
        for I in ins[:-1]:
            if I.op=='phi': continue
            r=ex.step(f,h,I,t,depth)
            if isinstance(r,list):
                if len(r)!=1 or r[0][0]!='next': return None
                t=r[0][1]
        c=ex.val(t,ins[-1].args[0],ir.Ty('int',1))
        if isinstance(c,BV) and c.z is not None:
            if z3.is_true(c.z): return True
            if z3.is_false(c.z): return False
    except (NeedSplit,Violation,Unsupported): return None
    finally: ex.trial-=1
    return None

def iteration(ex,f,cfg,h,st,depth,body):
    outs=ex.run_region(f,cfg,[(h,st.fork())],(h,body),depth)
    back=[x[2] for x in outs if x[0]=='edge' and x[1][1]==h]
    ext=[x for x in outs if not (x[0]=='edge' and x[1][1]==h)]
    return back,ext

def loop1(ex,f,cfg,h,st,depth):
    body=cfg['loops'][h]
    # constant trip counts are unrolled
    n=0; cur=[st]; outs=[]
    if header_const(ex,f,h,st,depth) is not None:
        while cur:
            s0=cur.pop(); n+=1
            if n>MAXUNROLL: raise Unsupported('unroll limit')
            c=header_const(ex,f,h,s0,depth)
            if c is None:
                outs+=symbolic(ex,f,cfg,h,s0,depth,body); continue
            back,ext=iteration(ex,f,cfg,h,s0,depth,body)
            outs+=ext; cur+=back
        return outs
    return symbolic(ex,f,cfg,h,st,depth,body)

def affine(v0,v1):
    if isinstance(v0,Poly) and isinstance(v1,Poly): return v1-v0
    if isinstance(v0,Ptr) and isinstance(v1,Ptr) and v0.obj==v1.obj: return v1.off-v0.off
    return None
def advance(v,d,k):
    if isinstance(v,Poly): return v+d*Poly.v(k)
    return Ptr(v.obj,v.off+d*Poly.v(k))

def symbolic(ex,f,cfg,h,st0,depth,body):
    phis=[I.res for I in f.blocks[h] if I.op=='phi']
    # 1. concrete first iteration, for the steps of the induction variables
    ex.trial+=1
    try:
        try: back,ext=iteration(ex,f,cfg,h,st0,depth,body)
        except Violation as v: raise Unsupported(f'loop first iteration: {v}')
    finally: ex.trial-=1
    if not back:
        b,e=iteration(ex,f,cfg,h,st0,depth,body); return e
    k=fresh('k')
    pick=min(back,key=lambda s:len(s.sub))
    deltas={}; cellsd={}
    def classify(v0,v1):
        """('same',) ('aff',d) ('mt',) ('hav',)"""
        if repr(v0)==repr(v1): return ('same',)
        d=affine(v0,v1)
        if d is not None: return ('aff',d)
        if isinstance(v0,MT) and isinstance(v1,MT): return ('mt',)
        return ('hav',)
    sub=pick.sub if pick.sub is not st0.sub else {}
    for p in phis:
        deltas[p]=classify(vsub(st0.env[p],sub),pick.env[p])
    for i,o in st0.mem.items():
        o1=pick.mem.get(i)
        if isinstance(o,Cells) and isinstance(o1,Cells):
            for q,(v,sz) in o.cells.items():
                c1=o1.cells.get(q)
                if c1 is None: cellsd[(i,q)]=('hav',)
                else:
                    cl=classify(vsub(v,sub),c1[0])
                    if cl[0]!='same': cellsd[(i,q)]=cl
    # other first-iteration outcomes may move things as well
    for b in back:
        if b is pick: continue
        sb=b.sub if b.sub is not st0.sub else {}
        for i,o in st0.mem.items():
            o1=b.mem.get(i)
            if isinstance(o,Cells) and isinstance(o1,Cells):
                for q,(v,sz) in o.cells.items():
                    c1=o1.cells.get(q)
                    if (i,q) not in cellsd and (c1 is None or repr(c1[0])!=repr(vsub(v,sb))): cellsd[(i,q)]=('hav',) if c1 is None or affine(v,c1[0]) is None and not isinstance(v,MT) else (('mt',) if isinstance(v,MT) else ('hav',))
    hav=set(); havp=set(); forget=set()
    # 2. generic iteration on the initial content -> guess for memory and accumulators
    def mkstate(kp,mem_guess,mt_guess,facts):
        s=st0.fork(); s.path=s.path.add(*facts)
        kk=kp
        sb={k:kk}
        for p in phis:
            c=deltas[p]; v=st0.env[p]
            if p in havp: s.env[p]=_havoc(ex,s,v)
            elif c[0]=='aff': s.env[p]=vsub(advance(v,c[1],k),sb)
            elif c[0]=='mt': s.env[p]=vsub(mt_guess[p],sb) if p in mt_guess else v
            elif c[0]=='hav': s.env[p]=_havoc(ex,s,v)
        for (i,q),c in cellsd.items():
            o=s.mem[i].copy(); v,sz=o.cells[q]
            if (i,q) in hav or c[0]=='hav':
                del o.cells[q]
                if isinstance(v,(MT,Opq)): o.cells[q]=(OPQ,sz)
            elif c[0]=='aff': o.cells[q]=(vsub(advance(v,c[1],k),sb),sz)
            elif c[0]=='mt': o.cells[q]=(vsub(mt_guess[(i,q)],sb) if (i,q) in mt_guess else v,sz)
            s.mem[i]=o
        for i in forget:
            o=s.mem[i].copy(); o.blocks=[]
            if o.fresh: o.ld=None; o.rows=None; o.cols=None
            s.mem[i]=o
        for i,ws in mem_guess.items():
            a=s.mem[i]
            for (r0,r1,c0,c1,t) in ws:
                g=lambda p:p.subs(sb)
                a=write_rect(s.path,a,g(r0),g(r1),g(c0),g(c1),t.subs(sb))
            s.mem[i]=a
        return s
    K=Poly.v(k); base=[z(K)>=0]; nonneg=[]
    for p in phis:
        if deltas[p][0]=='aff' and isinstance(st0.env[p],Poly) and st0.path.le(ZERO,st0.env[p]) and not all(v>=0 for v in deltas[p][1].d.values()):
            nonneg.append(z(advance(st0.env[p],deltas[p][1],k))>=0)
    base=base+nonneg
    ex.trial+=1
    guesses=None; G=None
    try:
        for attempt in range(4):
            try:
                s1=mkstate(K,{},{},base)
                try: b1,e1=iteration(ex,f,cfg,h,s1,depth,body)
                except Unsupported as e:
                    if isinstance(e,Limit) or getattr(ex,'entry',None) is None: raise
                    # only used to find a candidate: run the generic iteration from the function's initial memory
                    s1=mkstate(K,{},{},base)
                    for i,o in ex.entry.mem.items():
                        if isinstance(o,Arr) and isinstance(s1.mem.get(i),Arr): s1.mem[i]=o.subs(s1.sub,lambda v:vsub(v,s1.sub)) if s1.sub else o
                    b1,e1=iteration(ex,f,cfg,h,s1,depth,body)
                if not b1: raise Unsupported('loop: no generic iteration')
                pk=min(b1,key=lambda s:len(s.sub))
                sb=pk.sub if pk.sub is not st0.sub else {}
                mt={}; mg={}; alts={}
                redo=False
                for p in phis:
                    if deltas[p][0]=='mt':
                        v0=vsub(s1.env[p],sb); v1=pk.env[p]
                        try: mt[p]=st0.env[p]+accum(v1-v0,k)
                        except NoGuess: deltas[p]=('hav',); redo=True
                for (i,q),c in cellsd.items():
                    if c[0]=='mt' and (i,q) not in hav:
                        v0=vsub(s1.mem[i].cells[q][0],sb); v1=pk.mem[i].cells.get(q,(None,))[0]
                        try:
                            if not isinstance(v1,MT): raise NoGuess
                            mt[(i,q)]=st0.mem[i].cells[q][0]+accum(v1-v0,k)
                        except NoGuess: hav.add((i,q)); redo=True
                    elif c[0]=='aff':
                        v0=s1.mem[i].cells[q][0]; v1=pk.mem[i].cells.get(q,(None,))[0]
                        if affine(vsub(v0,sb),v1)!=c[1].subs(sb): hav.add((i,q)); redo=True
                for p in phis:
                    if deltas[p][0]=='aff' and affine(vsub(s1.env[p],sb),pk.env[p])!=deltas[p][1].subs(sb): deltas[p]=('hav',); redo=True
                for i,o in st0.mem.items():
                    if isinstance(o,Arr) and i not in forget:
                        o1=pk.mem.get(i)
                        a0=s1.mem[i]
                        if sb: a0=a0.subs(sb,lambda v:vsub(v,sb))
                        if o1.key()==a0.key(): continue
                        if o1.freed and not a0.freed: raise Unsupported('loop frees an outer buffer')
                        try: mg[i]=guess_array(pk.path,a0,o1,k)
                        except NoGuess as e:
                            alt=(guess_extend(pk.path,a0,o1,k,st0.mem[i]) or [])+(guess_recur(pk.path,a0,o1,k) or [])+(guess_rightlook(pk.path,a0,o1,k) or [])+((guess_triinv(pk.path,a0,o1,k) or []) if getattr(ex,'entry',None) is not None else [])
                            if alt: mg[i]=alt[0]; alts[i]=alt; continue
                            if a0.fresh: forget.add(i); redo=True
                            else:
                                raise Unsupported(f'loop invariant for {i}: {e}')
                if redo: continue
                guesses=(mg,mt,b1); break
            except Violation as v: raise Unsupported(f'loop generic iteration: {v}')
        if guesses is None: raise Unsupported('loop: no stable guess')
    finally: ex.trial-=1
    mg,mt,b1=guesses; lemmas=[]
    # guard fact
    conds=[]
    nb=len(s1.path.cs)
    for b in b1:
        ex_=[c for c in b.path.cs[nb:]]
        ex_=[c for c in ex_ if _plain(c,k)]
        conds.append(z3.And(*ex_) if ex_ else z3.BoolVal(True))
    Gk=z3.Or(*conds) if len(conds)>1 else conds[0]
    zk=zatom(k)
    fact=z3.simplify(z3.Or(zk==0,z3.substitute(Gk,(zk,zk-1))))
    facts=[zk>=0]+([] if z3.is_true(fact) else [fact])
    facts+=nonneg
    facts+=bounds_invariants(ex,st0,b1,nb,k,facts)
    for c in facts:
        if not st0.path.prove(z3.substitute(c,(zk,z3.IntVal(0)))): raise Unsupported('loop fact does not hold initially')
    # consequences of the guard used by the nonlinear bounds (n>=0 and k<=q give n*k<=n*q): valid formulas, not assumptions
    mult=set(); bnds=[]
    for p in phis:
        if deltas[p][0]=='aff':
            for kk in deltas[p][1].d:
                for a_,e_ in kk:
                    if e_==1 and st0.path.le(ZERO,Poly.v(a_)): mult.add(a_)
    for mgs in mg.values():
        for w in mgs:
            for x in w[:4]:
                for kk in x.d:
                    if k in dict(kk):
                        for a_,e_ in kk:
                            if a_!=k and e_==1 and st0.path.le(ZERO,Poly.v(a_)): mult.add(a_)
    for b in b1:
        for c in b.path.cs[nb:]:
            if _plain(c,k) and k in zvars(c):
                for q in _cmps(c): bnds+=[x for x in (_lin(q,k) or [])[:1] if x not in bnds]
    for n_ in sorted(mult)[:4]:
        for q in bnds[:3]:
            N_=Poly.v(n_)
            facts_lemma=[z3.Implies(z3.And(z(N_)>=0,z(K)+1<=z(q)),z(N_*K)+z(N_)<=z(N_*q)),z3.Implies(z3.And(z(N_)>=0,z(K)<=z(q)),z(N_*K)<=z(N_*q))]
            lemmas+=facts_lemma
    # 3. step: from the invariant at k, one iteration re-establishes it at k+1
    cands=[mg]
    for i,al in alts.items(): cands=[{**c,i:x} for c in cands for x in al][:12]
    err=None
    lem=lemmas
    for mg,lemmas in [(c,[]) for c in cands]+([(c,lem) for c in cands] if lem else []):
        try:
            nf=len(ex.fails)
            inv=mkstate(K,mg,mt,facts+lemmas)
            if not inv.path.feasible(): raise Unsupported('loop invariant infeasible')
            back,ext=iteration(ex,f,cfg,h,inv,depth,body)
            if len(ex.fails)>nf:
                # an obligation fails inside a loop whose invariant was inferred: undecided rather than wrong
                m=ex.fails[nf]; del ex.fails[nf:]
                raise Unsupported(f'obligation under inferred loop invariant: {m!r}'[:400])
            for b in back: check_step(ex,b,inv,st0,mkstate,K,mg,mt,phis,deltas,cellsd,hav,havp,forget,facts,zk)
            err=None; break
        except (Unsupported,NeedSplit) as e:
            if isinstance(e,NeedSplit):
                if k not in zvars(e.cond): raise
                e=Unsupported(f'loop invariant needs a case split on the iteration number: {e.cond}')
            if isinstance(e,Limit) or (len(cands)==1 and not lem): raise e
            if ex.debug: print('CANDIDATE REJECTED',mg,e)
            del ex.fails[nf:]; err=e
    if err is not None: raise err
    # base case: at k=0 the guess is the initial state
    check_base(ex,st0,mkstate,mg,mt,phis,forget)
    ex.loopnotes.append((ex.where(),h))
    # 4. exits: solve k where the guard determines it
    out=[]
    for x in ext:
        s2=x[2]
        out+= [(x[0],x[1],s3) for s3 in solve_k(s2,k,nb)]
    return out
def _havoc(ex,s,v):
    if isinstance(v,Poly): return Poly.v(fresh('hv'))
    if isinstance(v,BV): return BV(None)
    if isinstance(v,(MT,Opq)): return OPQ
    raise Unsupported('loop-carried '+type(v).__name__)
def _plain(c,k):
    for v in zvars(c):
        if v!=k and _at(v,k): return False
        if v.startswith(('hv!','ld!','undef!','ldm!','k!')) and v!=k and not v.startswith('k!'): pass
    return True
def _cmps(c):
    """comparison subterms of a z3 formula (conjunctions and negations only)"""
    if z3.is_and(c):
        for x in c.children(): yield from _cmps(x)
    elif z3.is_not(c):
        yield from _cmps(c.arg(0))
    elif z3.is_eq(c) or z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c):
        if z3.is_arith(c.arg(0)): yield c
def bounds_invariants(ex,st0,b1,nb,k,facts):
    """linear candidates a(k)<=b from != guards, kept only when inductive"""
    zk=zatom(k); out=[]
    cand=[]
    for b in b1:
        for c in b.path.cs[nb:]:
            if not _plain(c,k) or k not in zvars(c): continue
            for q in _cmps(c):
                if z3.is_eq(q): cand+=[q.arg(0)<=q.arg(1),q.arg(1)<=q.arg(0)]
    for c in cand:
        if not st0.path.prove(z3.substitute(c,(zk,z3.IntVal(0)))): continue
        ok=True
        for b in b1:
            if not b.path.add(c,*facts).prove(z3.substitute(c,(zk,zk+1))): ok=False;break
        if ok: out.append(c)
    return out
def veq(path,a,b):
    if b is OPQ: return True
    if type(a)!=type(b): return False
    if isinstance(a,Poly): return path.eq(a,b)
    if isinstance(a,Ptr): return a.obj==b.obj and path.eq(a.off,b.off)
    if isinstance(a,MT):
        d=a-b
        return not d.d or equal(path,a,b)[0]
    return repr(a)==repr(b)
def check_step(ex,b,inv,st0,mkstate,K,mg,mt,phis,deltas,cellsd,hav,havp,forget,facts,zk):
    def chk(path,depth=0):
        try:
            fx=[z3.substitute(c,(zk,zk+1)) for c in facts]
            for c in fx:
                ex.oblig+=0 if ex.trial else 1
                if not path.prove(c): raise Unsupported('loop fact not preserved')
            e=mkstate_at(path,K+1)
            for p in phis:
                if p in havp or deltas[p][0]=='hav': continue
                ex.oblig+=0 if ex.trial else 1
                if not veq(path,b.env[p],e.env[p]): raise Unsupported(f'loop variable {p} not as predicted')
            compare_mem(ex,path,b,e,st0,cellsd,hav)
        except NeedSplit as s:
            if depth>8: raise Unsupported('loop step splits')
            for c in (s.cond,z3.Not(s.cond)):
                p2=path.add(c)
                if p2.feasible(): chk(p2,depth+1)
    def mkstate_at(path,kp):
        s=mkstate(kp,{},mt,[])
        s.path=path
        sb={K.single_atom():kp}
        for i,ws in mg.items():
            a=s.mem[i]
            for (r0,r1,c0,c1,t) in ws:
                g=lambda p:p.subs(sb)
                a=write_rect(path,a,g(r0),g(r1),g(c0),g(c1),t.subs(sb))
            s.mem[i]=a
        if b.sub is not st0.sub: s.apply_sub({a:p for a,p in b.sub.items()})
        s.path=path
        return s
    chk(b.path)
def isJ(m): return len(m)==1 and m[0][0].startswith('J!') and m[0][2]==m[0][4] and m[0][3]==m[0][5]
def hasJ(t): return any(isJ(m) for sc,m in t.d)
def dropJ(t): return MT(t.rows,t.cols,{kk:v for kk,v in t.d.items() if not isJ(kk[1])})
def compare_mem(ex,path,act,exp,st0,cellsd,hav):
    for i,o in exp.mem.items():
        a=act.mem.get(i)
        if a is None: raise Unsupported(f'object {i} disappeared')
        if isinstance(o,Arr):
            if not isinstance(a,Arr) or a.freed!=o.freed: raise Unsupported('array freed in loop')
            if o.ld is None:
                continue
            if a.ld is None or not(a.ld==o.ld or path.eq(a.ld,o.ld)):
                raise Unsupported(f'layout of {i} changes in the loop')
            if a.key()==o.key(): continue
            for src,dst in ((a,o),(o,a)) if o.fresh else ((a,o),):
                for (r0,r1,c0,c1,t) in src.blocks:
                    if path.le(r1,r0) or path.le(c1,c0): continue
                    x=read_rect(path,dst,r0,r1,c0,c1,junk=(dst is o and o.fresh) or False)
                    if x is None:
                        if o.fresh and dst is o: continue
                        raise Unsupported(f'loop: content of {i} lost')
                    ex.oblig+=0 if ex.trial else 1
                    if not (x-t).d: continue
                    if o.fresh and dst is o and any('junk' in str(kk) for kk in x.d): continue
                    if hasJ(x) and not any(hasJ(bb[4]) for j,oo in exp.mem.items() if j!=i and isinstance(oo,Arr) for bb in oo.blocks):
                        # unspecified content of the opposite triangle: any value is as good as any other
                        t=dropJ(t); x=dropJ(x)
                    ok,w=equal(path,t,x)
                    if not ok: raise Unsupported(f'loop invariant for {i} not inductive: {str(w[1])[:200]}')
        else:
            for q,(v,sz) in o.cells.items():
                c=a.cells.get(q)
                if v is OPQ: continue
                if c is None: raise Unsupported('loop cell lost')
                if not veq(path,c[0],v):
                    raise Unsupported(f'loop cell {i}+{q} not as predicted: {c[0]!r} vs {v!r}'[:300])
def check_base(ex,st0,mkstate,mg,mt,phis,forget):
    s=mkstate(ZERO,mg,mt,[])
    for kk,v in mt.items():
        cur=st0.env[kk] if not isinstance(kk,tuple) else st0.mem[kk[0]].cells[kk[1]][0]
        new=s.env[kk] if not isinstance(kk,tuple) else s.mem[kk[0]].cells[kk[1]][0]
        if (cur-new).d and not equal(st0.path,cur,new)[0]: raise Unsupported('loop base case')
    for i in mg:
        a,b=st0.mem[i],s.mem[i]
        for (r0,r1,c0,c1,t) in b.blocks:
            if st0.path.le(r1,r0) or st0.path.le(c1,c0): continue
            x=read_rect(st0.path,a,r0,r1,c0,c1,junk=False)
            ex.oblig+=0 if ex.trial else 1
            if x is None or ((x-t).d and not equal(st0.path,t,x)[0]): raise Unsupported(f'loop base case for {i}')
def solve_k(s,k,nb):
    zk=zatom(k)
    if k in s.sub: return [s]
    cands=[]
    for c in s.path.cs[nb-1:]:
        if k not in zvars(c): continue
        for q in _cmps(c):
            p=_lin(q,k)
            if p is not None: cands+=p
    seen=set()
    for p in cands:
        if p in seen: continue
        seen.add(p)
        if s.path.eq(Poly.v(k),p):
            s.apply_sub({k:p}); return [s]
    # fork on k==0
    if s.path.feasible(zk==0):
        outs=[]
        t=s.fork(); t.path=t.path.add(zk==0)
        t.apply_sub({k:ZERO}); outs.append(t)
        t=s.fork(); t.path=t.path.add(zk>=1)
        if t.path.feasible():
            for p in seen:
                if t.path.eq(Poly.v(k),p): t.apply_sub({k:p}); break
            outs.append(t)
        return outs
    return [s]
def _lin(q,k):
    """solutions for k of lhs=rhs (and of lhs=rhs+-1) for a comparison linear in k with coefficient +-1"""
    try: l=frompoly(q.arg(0)); r=frompoly(q.arg(1))
    except ValueError: return None
    d=l-r; co=d.coeffs_in(k)
    if set(co)-{0,1} or 1 not in co: return None
    c=co[1]
    if not c.is_const(): return None
    c=c.const(); rest=co.get(0,ZERO)
    out=[]
    for off in (0,1,-1):
        num=-(rest+off)
        if abs(c)==1: out.append(num*c)
        else:
            if all(v%c==0 for v in num.d.values()): out.append(Poly({a:v//c for a,v in num.d.items()}))
    return out
def frompoly(e):
    if z3.is_int_value(e): return Poly.c(e.as_long())
    if z3.is_const(e): return Poly.v(e.decl().name())
    ch=e.children()
    if z3.is_add(e):
        r=ZERO
        for c in ch: r=r+frompoly(c)
        return r
    if z3.is_mul(e):
        r=ONE
        for c in ch: r=r*frompoly(c)
        return r
    if z3.is_sub(e):
        r=frompoly(ch[0])
        for c in ch[1:]: r=r-frompoly(c)
        return r
    if e.decl().kind()==z3.Z3_OP_UMINUS: return -frompoly(ch[0])
    raise ValueError
