"""C13: contracts of the loop/matrix splitters (paladin/blockcuts.inl), proved on the IR of /repo's templates.

Specification (observable behaviour of one splitter object built for an n (or m x n) space and t>=1):
  start_q,r(c) = c*q + min(c,r)   (q = n div nb, r = n - q*nb, nb = number of blocks)
  after initialize():            index 0, begin = start(0) = 0, end = start(1)            (when nb > 0)
  operator++ from block c<nb:    index c+1, and begin/end of block c+1 when c+1 < nb
  isTerminated() <=> index == nb;      start(0) = 0, start(c) <= start(c+1), start(nb) = n
so the blocks [start(c),start(c+1)) are disjoint, in bounds and cover every index exactly once."""
import re,time,z3
import verify as V
from verify import *
class BlockCutsC:
    """5-argument BlockCuts: some positive block sizes (each specialisation's body is checked against this)"""
    trusted=False; params=[]; props=(); name='FFLAS::BlockCuts'
    def apply(s,ex,st,args,I,dem):
        if len(args)!=5: return None
        ex.obligation(st.path.le(ONE,P_(args[4])),'precondition','number of threads / grain must be positive')
        for p,d in zip(args[:2],args[2:4]):
            v=Poly.v(fresh('bs')); st.path=st.path.add(z(v)>=1).add(z3.Or(z(v)<=z(P_(d)),z(v)==1))
            o=st.mem[p.obj].copy(); o.cells[int(p.off.const())]=(v,8); st.mem[p.obj]=o
        return [(st,None)]
BC=BlockCutsC()
L.addre(r'^FFLAS::BlockCuts$',lambda m,bn,dem,g: BC if g is not None and len(g.params)==5 else None)
class Fails(Exception): pass
class Prover:
    def __init__(s,M,lib,consts): s.M=M; s.lib=lib; s.consts=consts; s.ob=0; s.dis=0; s.fails=[]; s.und=[]; s.fns=[]
    def ex(s):
        e=V.Exec(s.M,s.lib,s.consts); e.keep_helpers=True; e.deadline=time.time()+100; return e
    def fn(s,cls,meth):
        for f in s.M.funcs.values():
            if not f.decl and f.dem.startswith(cls+'::'+meth+'('): return f
        # return types may prefix the name
        for f in s.M.funcs.values():
            if not f.decl and (cls+'::'+meth+'(') in f.dem: return f
        raise Unsupported(f'no function {cls}::{meth}')
    def check(s,path,cond,what,lemmas=()):
        s.ob+=1
        p=path
        for l in lemmas: p=p.add(l)
        if p.prove(cond): s.dis+=1; return True
        s.fails.append(dict(kind='contract',msg=what,where='',path=[str(c)[:200] for c in path.cs][:20])); raise Fails
def start(c,q,r): return z(c*q)+z3.If(z(c)<=r,z(c),r)
def mono_lemmas(q,pairs):
    """x<=y and q>=0 give x*q<=y*q (valid)"""
    return [z3.Implies(z3.And(z(a)<=z(b),z(q)>=0),z(a*q)<=z(b*q)) for a,b in pairs]
def divunique(a,b,ic,jc):
    """a = ic*b+jc with 0<=jc<b determines the quotient"""
    Q=udiv(a,b); out=[]
    if Q.is_const(): return out
    zQ,zb=z(Q),z(b)
    out.append(z3.Implies(z3.And(z(b)>=1,z(Q)>=z(ic)+1),z(Q*b)>=z(ic*b+b)))
    out.append(z3.Implies(z3.And(z(b)>=1,z(Q)+1<=z(ic)),z(Q*b)+z(b)<=z(ic*b)))
    out.append(z3.Implies(z(b)>=1,z3.And(z(Q*b)<=z(a),z(a)<z(Q*b+b))))
    return out
def as_int(v):
    if isinstance(v,Poly): return v
    raise Unsupported('accessor value '+repr(v)[:60])
def run1(s,ex,cls,meth,st,this): return ex.run(s.fn(cls,meth),[this],st)
def truth(bv):
    if isinstance(bv,BV):
        if bv.z is None: raise Unsupported('undetermined')
        return bv.z
    if isinstance(bv,Poly): return z(bv)!=0
    raise Unsupported('bool')
def obs(s,ex,cls,st,this,names):
    """accessor values; each must be single-valued in this state"""
    out=[]
    for n in names:
        r=run1(s,ex,cls,n,st,this)
        if len(r)!=1: raise Unsupported('accessor with several outcomes')
        out.append(as_int(r[0][1])); st=r[0][0]
    return out,st
def havoc_mut(st,this,before,after,tag):
    o=st.mem[this.obj].copy(); n=0
    for k in set(before)|set(after):
        if before.get(k)!=after.get(k) or k not in before:
            v=Poly.v(fresh(tag)); st.path=st.path.add(z(v)>=0); o.cells[k]=(v,8); n+=1
    st.mem[this.obj]=o
    return n
def splitter(s,cls,two):
    """prove the contract of one splitter class"""
    ex=s.ex(); st=State()
    n=Poly.v('n'); m=Poly.v('m'); t=Poly.v('t')
    for v,lo in((n,0),(m,0),(t,1)): st.path=st.path.add(z(v)>=lo)
    if 'Single' in cls: st.path=st.path.add(z(t)==1)
    this=ex.new_cells(st,'OS',None,True)
    # constructor: (this, [m,] n, H) with H passed as its single word
    name=re.search(r'(ForStrategy\dD)',cls).group(1)
    cands=[f for f in s.M.funcs.values() if not f.decl and (cls+'::'+name+'(') in f.dem and len(f.params)==(4 if two else 3)]
    if not cands: raise Unsupported('no constructor')
    f=cands[0]
    if f.params[-1][0].k=='ptr':
        h=ex.new_cells(st,'OH',8); st.mem[h.obj].cells[0]=(t,8); ht=h
    else: ht=t
    outs=ex.run(f,[this]+([m,n] if two else [n])+[ht],st)
    if ex.fails: raise Unsupported(repr(ex.fails[0])[:200])
    if not outs: raise Unsupported('constructor does not return')
    spaces=[('ibegin','iend','rownumblocks',m),('jbegin','jend','colnumblocks',n)] if two else [('begin','end','numblocks',n)]
    idx='blockindex'
    for so,_ in outs:
        if not so.path.feasible(): continue
        sub=so.sub
        dims=[sp[3].subs(sub) if sub else sp[3] for sp in spaces]
        before=dict(so.mem[this.obj].cells)
        (nbs),so=obs(s,ex,cls,so,this,[sp[2] for sp in spaces])
        qr=[]
        lem=[]
        for nb,d in zip(nbs,dims):
            q=udiv(d,nb) if not nb.is_const() or nb.const()>0 else ZERO
            qr.append((q,z(d)-z(q*nb)))
            # Euclidean division (valid when nb>=1)
            lem.append(z3.Implies(z(nb)>=1,z3.And(z(q*nb)<=z(d),z(d)<z(q*nb+nb),z(q)>=0)))
        for nb,d in zip(nbs,dims):
            s.check(so.path,z3.And(z(nb)>=0,z3.Implies(z(nb)==0,z(d)==0)) if not two else z(nb)>=0,f'{cls}: number of blocks {nb} must be positive unless the space is empty',lem)
        if two:
            s.check(so.path,z3.Implies(z3.Or(z(nbs[0])==0,z(nbs[1])==0),z3.Or(z(dims[0])==0,z(dims[1])==0)),f'{cls}: no block although the space is not empty',lem)
        # total
        c=Poly.v(fresh('c')); 
        for nb,d,(q,r) in zip(nbs,dims,qr):
            cv=[z(c)>=0,z(c)<z(nb)]
            lm=lem+mono_lemmas(q,[(c+1,nb)])
            s.check(so.path,z3.Implies(z(nb)>=1,start(nb,q,r)==z(d)),f'{cls}: the last block must end at {d}',lem)
            s.check(so.path.add(cv[0]).add(cv[1]),z3.And(start(c,q,r)<=start(c+1,q,r),start(c+1,q,r)<=z(d),start(c,q,r)>=0),f'{cls}: blocks must be increasing and in bounds',lm+mono_lemmas(q,[(ZERO,c)]))
        total=nbs[0]*nbs[1] if two else nbs[0]
        for si,_ in ex.run(s.fn(cls,'initialize'),[this],so):
            after=dict(si.mem[this.obj].cells)
            (i0,),s1=obs(s,ex,cls,si,this,[idx])
            s.check(s1.path,z(i0)==0,f'{cls}: initialize() must select block 0')
            for ter,tv in [(a,b) for a,b in run1(s,ex,cls,'isTerminated',s1,this)]:
                s.check(ter.path,truth(tv)==(z(total)==0),f'{cls}: isTerminated() right after initialize()',lem)
            (vals),s2=obs(s,ex,cls,si,this,[x for sp in spaces for x in sp[:2]])
            p=s2.path
            for nb in nbs: p=p.add(z(nb)>=1)
            if p.feasible():
                for k,(q,r) in enumerate(qr):
                    s.check(p,z3.And(z(vals[2*k])==0,z(vals[2*k+1])==start(ONE,q,r)),f'{cls}: first block of {spaces[k][:2]}',lem)
            # generic step
            g=so.fork()
            # cells changed by initialize or by ++ are arbitrary, tied to the observables only
            g.mem[this.obj]=si.mem[this.obj].copy()
            nmut=havoc_mut(g,this,before,after,'w')
            ic=Poly.v(fresh('ic')); jc=Poly.v(fresh('jc'))
            cs=[ic,jc] if two else [ic]
            for cc,nb in zip(cs,nbs): g.path=g.path.add(z(cc)>=0).add(z(cc)<z(nb)).add(z(nb)>=1)
            cur=ic*nbs[1]+jc if two else ic
            (vals),g=obs(s,ex,cls,g,this,[x for sp in spaces for x in sp[:2]]+[idx])
            eqs=[(vals[-1],cur)]
            g.path=g.path.add(z(vals[-1])==z(cur))
            # make the index concrete in the state when it is a plain cell
            a=vals[-1].single_atom()
            if a is not None: g.apply_sub({a:cur})
            for k,(q,r) in enumerate(qr):
                g.path=g.path.add(z(vals[2*k])==start(cs[k],q,r)).add(z(vals[2*k+1])==start(cs[k]+1,q,r))
            gl=list(lem)
            if two:
                nb=nbs[1]
                # next block is (ic,jc+1) or (ic+1,0)
                cases=[(z(jc)+1<z(nb),ic,jc+1),(z(jc)+1==z(nb),ic+1,ZERO)]
            else: cases=[(z3.BoolVal(True),ic+1,None)]
            for cond,i2,j2 in cases:
                gc=g.fork(); gc.path=gc.path.add(cond)
                if two:
                    # valid facts on the division of the next index
                    for l in divunique(cur+1,nbs[1],i2,j2): gc.path=gc.path.add(l)
                    for l in divunique(cur,nbs[1],ic,jc): gc.path=gc.path.add(l)
                    # i < nr gives i*nc + nc <= nr*nc
                    gc.path=gc.path.add(z3.Implies(z(ic)+1<=z(nbs[0]),z(ic*nbs[1]+nbs[1])<=z(nbs[0]*nbs[1])))
                    gc.path=gc.path.add(z3.Implies(z(ic)+2<=z(nbs[0]),z(ic*nbs[1]+2*nbs[1])<=z(nbs[0]*nbs[1])))
                    gc.path=gc.path.add(z3.Implies(z(ic)+1==z(nbs[0]),z(ic*nbs[1]+nbs[1])==z(nbs[0]*nbs[1])))
                if not gc.path.feasible(): continue
                cs2=[i2,j2] if two else [i2]
                nxt=cur+1
                for sn,_ in ex.run(s.fn(cls,'operator++'),[this],gc):
                    if not sn.path.feasible(): continue
                    ob=[x for sp in spaces for x in sp[:2]]+[idx]
                    v2,sx=obs(s,ex,cls,sn,this,ob)
                    sb=sx.sub
                    W=lambda p: p.subs(sb) if sb else p
                    s.check(sx.path,z(v2[-1])==z(W(nxt)),f'{cls}: operator++ must advance to the next block',gl)
                    for ter,tv in run1(s,ex,cls,'isTerminated',sx,this):
                        s.check(ter.path,truth(tv)==(z(W(nxt))==z(W(total))),f'{cls}: isTerminated() exactly after the last block',gl)
                    p=sx.path
                    for cc,nb in zip(cs2,nbs): p=p.add(z(W(cc))<z(W(nb)))
                    if not p.feasible(): continue
                    for k,(q,r) in enumerate(qr):
                        s.check(p,z3.And(z(v2[2*k])==start(W(cs2[k]),W(q),r),z(v2[2*k+1])==start(W(cs2[k])+1,W(q),r)),f'{cls}: block after operator++ in {spaces[k][:2]}',gl)
    s.fns+=[cls+'::'+x for x in (name,'initialize','operator++','isTerminated')]
def blockcuts5(s,f,tval=None):
    """block sizes between 1 and max(dimension,1)"""
    ex=s.ex(); st=State()
    R=ex.new_cells(st,'OR',8); C=ex.new_cells(st,'OC',8)
    m,n=Poly.v('m'),Poly.v('n'); t=Poly.v('t') if tval is None else Poly.c(tval)
    for v,lo in((n,0),(m,0))+(((t,1),) if tval is None else ()): st.path=st.path.add(z(v)>=lo)
    if 'Single' in f.dem: st.path=st.path.add(z(t)==1)
    outs=ex.run(f,[R,C,m,n,t],st)
    if ex.fails: raise Unsupported(repr(ex.fails[0])[:200])
    for so,_ in outs:
        if not so.path.feasible(): continue
        for p,nm,d in((R,'row',m),(C,'column',n)):
            v=so.mem[p.obj].cells.get(0,(None,))[0]
            if not isinstance(v,Poly): raise Unsupported('block size value '+repr(v)[:80])
            W=lambda x: x.subs(so.sub) if so.sub else x
            s.check(so.path,z3.And(z(v)>=1,z3.Or(z(v)<=z(W(d)),z(v)==1)),f'{f.dem}: {nm} block size must be between 1 and max(dimension,1)')
    if tval is None: s.fns.append(f.dem)
def blockcuts5_all(s,f):
    ob=(s.ob,s.dis)
    try: blockcuts5(s,f)
    except Unsupported as e:
        s.ob,s.dis=ob
        for t in range(1,65): blockcuts5(s,f,t)
        s.fns.append(f.dem+' (up to 64 threads)'); s.und.append(f'{f.dem}: more than 64 threads: {e}')
def prove(tmp,tier,seed):
    import build,ir
    t0=time.time(); V.Stats.time=getattr(V.Stats,'time',0)
    M=ir.parse_module(build.irgen('cuts',tmp)); P=Prover(M,V.L,build.field_consts(M))
    classes=sorted({m.group(0) for f in M.funcs.values() for m in [re.search(r'FFLAS::ForStrategy\dD<[^()]*?>(?=::)',f.dem)] if m})
    if not classes: raise RuntimeError('no splitter class found')
    todo=[(c,lambda c=c: splitter(P,c,'2D' in c)) for c in classes]
    todo+=[(f.dem,lambda f=f: blockcuts5_all(P,f)) for f in M.funcs.values() if not f.decl and V.basename(f.dem)=='FFLAS::BlockCuts' and len(f.params)==5]
    def one(k):
        nm,fn=todo[k]
        P.ob=P.dis=0; P.fails=[]; P.und=[]; P.fns=[]
        try: fn()
        except Fails: pass
        except NeedSplit as e: P.und.append(f'{nm}: split {e}')
        except (Unsupported,Violation) as e: P.und.append(f'{nm}: {e}'[:300])
        except Exception as e: P.und.append(f'{nm}: {type(e).__name__} {e}'[:300])
        return P.ob,P.dis,P.fails,P.und,P.fns
    outs=pmap(one,len(todo),4)
    return dict(obligations=sum(o[0] for o in outs),discharged=sum(o[1] for o in outs),fails=[x for o in outs for x in o[2]],undecided=[x for o in outs for x in o[3]],functions=[x for o in outs for x in o[4]],solver_time=round(time.time()-t0,1),evaluations=0)
def pmap(f,n,procs):
    """f(0..n-1) in forked workers; a worker that dies leaves its items undecided"""
    import os,pickle,tempfile
    d=tempfile.mkdtemp(prefix='pm_'); pids=[]
    for w in range(procs):
        pid=os.fork()
        if pid==0:
            try:
                for k in range(w,n,procs):
                    r=f(k); pickle.dump(r,open(f'{d}/{k}.t','wb')); os.rename(f'{d}/{k}.t',f'{d}/{k}')
            finally: os._exit(0)
        pids.append(pid)
    for p in pids: os.waitpid(p,0)
    out=[]
    for k in range(n):
        try: out.append(pickle.load(open(f'{d}/{k}','rb')))
        except Exception: out.append((0,0,[],[f'item {k}: worker died'],[]))
    import shutil; shutil.rmtree(d,ignore_errors=True)
    return out
if __name__=='__main__':
    import sys
    r=prove('/tmp/w','quick',1); print({k:v for k,v in r.items() if k!='functions'}); print(len(r['functions']))
