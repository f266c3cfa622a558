"""Check every function that has a (non trusted) contract against its body."""
import sys,time,itertools
from lib import *
import ir

def esz_list(f):
    """element sizes of pointer parameters, from the demangled signature"""
    return esz_of(f.dem)
class Result:
    def __init__(s,name): s.name=name; s.status=None; s.fails=[]; s.oblig=0; s.cases=0; s.time=0; s.reason=''; s.trusted=set(); s.inlined=set(); s.uses=set()
def setup_variant(ex,f,k,flags,alias):
    st=State(); args=[]; ptrs=[]; dims=[]; lds=[]
    esz=esz_list(f)
    for (pn,*pk),(t,n) in zip(k.params,f.params):
        kind=(pk[0] if pk else 'any').rstrip('?')
        if kind in ENUMS: args.append(Poly.c(flags[pn]))
        elif kind=='dim':
            v=Poly.v(pn); st.path=st.path.add(z(v)>=0); args.append(v); dims.append(v)
        elif kind=='ld':
            v=Poly.v(pn); st.path=st.path.add(z(v)>=1); args.append(v); lds.append(v)
        elif kind=='el':
            if t.k=='ptr':
                p=ex.new_cells(st,'P'+pn,8); st.mem[p.obj].cells[0]=(MT.scalar(Poly.v(pn,'real')),esz); args.append(p)
            else: args.append(MT.scalar(Poly.v(pn,'real')))
        elif kind=='ptr':
            src=alias.get(pn)
            nm=src or pn
            if nm not in st.mem: st.mem[nm]=Arr(nm,esz,None,None,None)
            args.append(Ptr(nm,ZERO))
        else:
            if t.k=='ptr':
                args.append(ex.new_cells(st,'O'+pn,None,True))
                if kind=='H': st.mem['O'+pn].hav=True
            else: args.append(ex.fresh_of(st,t,pn))
    # extra IR params beyond the contract
    for (t,n) in f.params[len(k.params):]:
        args.append(ex.new_cells(st,'O'+n,None,True) if t.k=='ptr' else ex.fresh_of(st,t,n))
    c=Ctx(ex,st,'setup')
    cargs=list(args[:len(k.params)])
    k.call(c,cargs)
    if st.sub: args=[vsub(a,st.sub) for a in args]
    # leading dimensions at least the number of columns
    for o in list(st.mem.values()):
        if isinstance(o,Arr) and o.ld is not None and not (o.cols==1):
            st.path=st.path.add(z(o.ld)>=z(o.cols))
    return c.st,args
def verify_function(M,lib,f,k,consts,deadline=60,aliases=({},),flagsel=None,mk=Exec):
    R=Result(f.dem); t0=time.time()
    ens=[p for p in k.params if len(p)>1 and p[1] in ENUMS]
    combos=list(itertools.product(*[ENUMS[p[1]] for p in ens])) if ens else [()]
    try:
        for al in aliases:
            for cb in combos:
                flags={p[0]:v for p,v in zip(ens,cb)}
                if flagsel and not flagsel(flags): continue
                ex=mk(M,lib,consts); ex.deadline=t0+deadline
                verify_case(ex,f,k,flags,al,R)
                R.oblig+=ex.oblig; R.inlined|=ex.inlined; R.uses|=ex.used
                if R.fails: break
            if R.fails: break
        R.status='fail' if R.fails else 'ok'
    except Unsupported as e:
        R.status='fail' if R.fails else 'unsupported'; R.reason=str(e)
    R.time=time.time()-t0
    return R
def verify_case(ex,f,k,flags,al,R):
    try: st0,args=setup_variant(ex,f,k,flags,al)
    except Reshape: raise Unsupported('setup')
    base=st0.fork(); ex.entry=st0.fork() if 'C09' in k.props else None   # candidate search of in-place inversions only
    ctx=str({**flags,**({'alias':al} if al else {})})
    R.cases+=1
    try:
        outs=ex.run(f,args,st0)
    except Violation as v:
        R.fails.append(Fail(v.kind,v.msg,ctx)); return
    for fl in ex.fails: fl.where=ctx+' '+fl.where; R.fails.append(fl)
    if not outs and not ex.fails: raise Unsupported('no terminating path')
    for st,ret in outs:
        check_post(ex,f,k,base,args,st,ret,ctx,R)
        if R.fails: return
def check_post(ex,f,k,base,args,st,ret,ctx,R,depth=0):
    # expected state: run the contract on the initial state under the final path
    if depth==0:
        # dimensions confined to {0,1} on this path are decided separately
        for v in [a for a in args if isinstance(a,Poly)]:
            at_=v.single_atom() if hasattr(v,'single_atom') else None
            if at_ is None or at_ in st.sub: continue
            if st.path.le(v,ONE) and not st.path.le(v,ZERO):
                for val in (0,1):
                    s2=st.fork(); s2.path=s2.path.add(z(v)==val)
                    if not s2.path.feasible(): continue
                    if val==1: s2.apply_sub({at_:ONE}); 
                    check_post(ex,f,k,base,args,s2,ret if val==0 else vsub(ret,{at_:ONE}) if ret is not None else None,ctx,R,0 if val else 1)
                    if R.fails: return
                return
    b=base.fork(); b.path=st.path
    if st.sub: b.apply_sub(st.sub)
    a2=[vsub(a,st.sub) if st.sub else a for a in args]
    try:
        c=Ctx(ex,b); ex.trial+=1
        try: er=k.call(c,list(a2[:len(k.params)]))
        finally: ex.trial-=1
        for i,o in base.mem.items():
            if not isinstance(o,Arr): continue
            compare(ex,c.st.mem[i],st.mem[i],st,ctx,i,R,getattr(c,'tri_out',{}).get(i))
            if R.fails: return
        if isinstance(er,MT):
            r=ex.as_el(ret)
            ex.oblig+=1
            if r is OPQ: raise Unsupported('opaque result')
            ok,w=equal(st.path,r,er)
            if not ok: R.fails.append(Fail('postcondition',f"returned value {r!r} differs from specified {er!r}"[:400],ctx,st.path))
    except NeedSplit as e:
        if depth>10: raise Unsupported('split depth in postcondition')
        for cnd in (e.cond,z3.Not(e.cond)):
            s2=st.fork(); s2.path=s2.path.add(cnd)
            if s2.path.feasible(): check_post(ex,f,k,base,args,s2,ret,ctx,R,depth+1)
            if R.fails: return
    except Violation as v:
        raise Unsupported('contract not applicable to its own precondition: '+str(v))
def drop_opposite(path,d,uplo):
    """remove what only lives strictly in the undesignated triangle of a diagonal block"""
    bad='slow' if uplo==Upper else 'supp'; out={}
    for (sc,m),v in d.d.items():
        if len(m)==1 and m[0][0]!=ID and factor_kind(m[0])==bad:
            f=m[0]; r,c_=frows(f),fcols(f)
            if r==c_ or (path.eq(r[0],c_[0]) and path.eq(r[1],c_[1])): continue
        out[(sc,m)]=v
    return MT(d.rows,d.cols,out)
def compare(ex,exp,act,st,ctx,name,R,tri=None):
    if act.freed: R.fails.append(Fail('frame',f"{name} was freed",ctx,st.path)); return
    cover=ZERO
    for (r0,r1,c0,c1,t) in act.blocks:
        if tri is not None:
            # only the designated triangle is specified
            if tri==Upper and st.path.le(c1,r0+1) and st.path.le(c1,r0): continue
            if tri==Lower and st.path.le(r1,c0): continue
        e=read_rect(st.path,exp,r0,r1,c0,c1)
        ex.oblig+=1
        if (e-t).d=={}: continue
        if tri is not None and (r0==c0 or st.path.eq(r0,c0)) and (r1==c1 or st.path.eq(r1,c1)):
            t=drop_opposite(st.path,t,tri); e=drop_opposite(st.path,e,tri)
        ok,w=equal(st.path,t,e)
        if not ok:
            p,res=w
            R.fails.append(Fail('postcondition',f"{name}[{r0}:{r1},{c0}:{c1}] computed {t!r} specified {e!r} residual {str(res)[:300]}",ctx,p)); return
