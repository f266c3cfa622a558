"""Symbolic executor over LLVM IR: every function is checked against its contract; callees are replaced by theirs."""
import re, sys, time, itertools, z3
from fractions import Fraction
from poly import *
from mat import *
from mem import *
import ir

sys.setrecursionlimit(20000)

DEBUG=False
class State:
    __slots__=('path','frames','mem','sub','notes')
    def __init__(s): s.path=Path(); s.frames=[{}]; s.mem={}; s.sub={}; s.notes=()
    def fork(s):
        t=State(); t.path=s.path; t.frames=[dict(f) for f in s.frames]; t.mem=dict(s.mem); t.sub=s.sub; t.notes=s.notes; return t
    @property
    def env(s): return s.frames[-1]
    def apply_sub(s,m):
        m={a:p for a,p in m.items() if not (p.single_atom()==a)}
        if not m: return
        fv=lambda v: vsub(v,m)
        for f in s.frames:
            for k in list(f): f[k]=fv(f[k])
        for k in list(s.mem): s.mem[k]=s.mem[k].subs(m,fv)
        n={a:p.subs(m) for a,p in s.sub.items()}; n.update(m); s.sub=n
    def assume(s,bv,val):
        """returns state or None when infeasible"""
        if bv.z is None: return s
        c=bv.z if val else z3.Not(bv.z)
        c=z3.simplify(c)
        if z3.is_true(c): 
            return s
        if z3.is_false(c): return None
        s.path=s.path.add(c)
        if not s.path.feasible(): return None
        m=bv.t if val else bv.f
        if m: s.apply_sub({a:p.subs(s.sub) for a,p in m.items()} if s.sub else m)
        return s

def vsub(v,m):
    if isinstance(v,Poly): return v.subs(m)
    if isinstance(v,MT): return v.subs(m)
    if isinstance(v,Ptr): return Ptr(v.obj,v.off.subs(m))
    if isinstance(v,tuple): return tuple(vsub(x,m) for x in v)
    if isinstance(v,BV):
        g=lambda q: None if q is None else ({a:p.subs(m) for a,p in q.items() if a not in m} or None)
        return BV(v.z,g(v.t),g(v.f))
    if isinstance(v,list): return [vsub(x,m) for x in v]
    return v

def eq_sub(a,b):
    """substitution making a==b, or None"""
    d=a-b
    neg={}
    for k_ in d.d:
        for at_,e_ in k_:
            if e_<0: neg[at_]=max(neg.get(at_,0),-e_)
    if neg: d=d*Poly({tuple(sorted(neg.items())):1})
    best=None
    for k,v in d.d.items():
        if len(k)==1 and k[0][1]==1 and v in(1,-1):
            at=k[0][0]
            if any(at in dict(k2) for k2 in d.d if k2!=k): continue
            if REG.get(at,(None,None))[1]: continue
            # prefer replacing by something simple
            rest=Poly({k2:v2 for k2,v2 in d.d.items() if k2!=k})*(-v)
            touched=any(_touch(at2,at) for at2 in rest.atoms())
            if touched: continue
            sc=(0 if rest.is_const() else 1+len(rest.d), at)
            if best is None or sc<best[0]: best=(sc,{at:rest})
    return best[1] if best else None
def _touch(a,b):
    if a==b: return True
    info=REG.get(a,(None,None))[1]
    return bool(info and info[0]=='udiv' and any(_touch(x,b) for x in info[1].atoms()|info[2].atoms()))

def basename(dem):
    """qualified function name without template arguments/parameters"""
    if dem.startswith('_ZN'):
        m=re.match(r'_ZNK?',dem); t=dem[m.end():]; out=[]; d=0; i=0
        while i<len(t):
            if t[i].isdigit() and d==0:
                n=re.match(r'\d+',t[i:]).group(); i+=len(n); out.append(t[i:i+int(n)]); i+=int(n); continue
            if t[i]=='I':
                # skip template args up to the next identifier of a known method
                m2=re.match(r'I[A-Za-z]*?E(?=\d)',t[i:])
                if m2: i+=m2.end(); continue
                break
            break
        return '::'.join(out)
    s=dem.replace('operator()','operator_call').replace('operator<<','operator_shl').replace('operator->','operator_arrow').replace('operator<','operator_lt').replace('operator>','operator_gt').replace('operator new','operator_new').replace('operator delete','operator_delete')
    out='';d=0
    for i,ch in enumerate(s):
        if ch=='<': d+=1
        elif ch=='>': d-=1
        elif d==0:
            if ch=='(':
                if s[i:i+21]=='(anonymous namespace)': out+='anon'; 
                else: break
            out+=ch
    out=out.strip()
    out=re.sub(r'\(anonymous namespace\)?','anon',out)
    return out.split(' ')[-1]

class Liveness:
    pass
def analyse(f):
    """CFG, RPO, loops, liveness of a parsed function (cached)"""
    if hasattr(f,'cfg'): return f.cfg
    ir.body(f)
    succ={}
    for b,ins in f.blocks.items():
        t=ins[-1] if ins else None; s=[]
        if t is None: pass
        elif t.op=='br': s=list(dict.fromkeys(t.x['dests']))
        elif t.op=='switch': s=list(dict.fromkeys([t.x['default']]+[d for _,d in t.x['cases']]))
        elif t.op=='invoke': s=[t.x['normal']]
        succ[b]=s
    # rpo (iterative dfs)
    seen=set(); post=[]
    st=[(f.entry,iter(succ[f.entry]))]; seen.add(f.entry)
    while st:
        b,it=st[-1]
        for n in it:
            if n not in seen: seen.add(n); st.append((n,iter(succ[n]))); break
        else: post.append(b); st.pop()
    rpo=list(reversed(post)); idx={b:i for i,b in enumerate(rpo)}
    pred={b:[] for b in rpo}
    for b in rpo:
        for n in succ[b]: pred[n].append(b)
    # dominators
    dom={rpo[0]:{rpo[0]}}
    ch=True
    allb=set(rpo)
    for b in rpo[1:]: dom[b]=set(allb)
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[dom[p] for p in pred[b]]
            n=set.intersection(*ps) if ps else set(); n=n|{b}
            if n!=dom[b]: dom[b]=n; ch=True
    loops={}
    for b in rpo:
        for n in succ[b]:
            if n in dom[b]:
                body={n,b}; w=[b] if b!=n else []
                while w:
                    x=w.pop()
                    for p in pred[x]:
                        if p not in body: body.add(p); w.append(p)
                loops.setdefault(n,set()).update(body)
    # liveness
    use={};de={}
    for b in rpo:
        u=set();d=set()
        for I in f.blocks[b]:
            if I.op=='phi':
                if I.res: d.add(I.res)
                continue
            for v in _vals(I):
                if v not in d: u.add(v)
            if I.res: d.add(I.res)
        use[b]=u; de[b]=d
    phiuse={}
    for b in rpo:
        for I in f.blocks[b]:
            if I.op=='phi':
                for v,p in I.x['inc']:
                    if v[0]=='v': phiuse.setdefault(p,set()).add(v[1])
    livein={b:set() for b in rpo}
    ch=True
    while ch:
        ch=False
        for b in reversed(rpo):
            out=set(phiuse.get(b,()))
            for n in succ[b]:
                phis={I.res for I in f.blocks[n] if I.op=='phi'}
                out|=livein[n]-phis
            li=use[b]|(out-de[b])
            phis={I.res for I in f.blocks[b] if I.op=='phi'}
            li|=phis
            if li!=livein[b]: livein[b]=li; ch=True
    f.cfg=dict(succ=succ,rpo=rpo,idx=idx,pred=pred,loops=loops,livein=livein)
    return f.cfg
def _vals(I):
    for a in I.args:
        yield from _v1(a)
    for t,v in I.x.get('idx',()) if I.op=='getelementptr' else (): yield from _v1(v)
    c=I.x.get('callee')
    if c: yield from _v1(c)
def _v1(a):
    if a and a[0]=='v': yield a[1]
    elif a and a[0]=='agg':
        for t,x in a[1]: yield from _v1(x)

class Fail:
    def __init__(s,kind,msg,where,path=None,model=None): s.kind=kind; s.msg=msg; s.where=where; s.path=path; s.model=model
    def __repr__(s): return f"[{s.kind}] {s.where}: {s.msg}"

IGN=re.compile(r'^(std::|__cxa|_Unwind|__clang_call_terminate|omp_set|std::__|operator delete|__gxx|vp_ignore)')

class Exec:
    def __init__(s,M,contracts,consts=None,inline_only=None):
        s.M=M; s.C=contracts; s.consts=consts or {}
        s.fails=[]; s.oblig=0; s.trial=0; s.cur=[]; s.ids=itertools.count(1); s.entry=None
        s.used=set(); s.inlined=set(); s.deadline=None; s.maxstates=4000; s.nstates=0
        s.loopnotes=[]; s.debug=DEBUG
    # ------------------------------------------------ objects
    def new_cells(s,st,name,size=None,lazy=False):
        i=name
        if not name.startswith('L'):
            k=0
            while i in st.mem: k+=1; i=f"{name}#{k}"
        st.mem[i]=Cells(i,size,lazy); return Ptr(i,ZERO)
    def new_arr(s,st,name,esz,size):
        i=name; k=0
        while i in st.mem: k+=1; i=f"{name}#{k}"
        st.mem[i]=Arr(i,esz,None,None,None,size,True); return Ptr(i,ZERO)
    # ------------------------------------------------ obligations
    def where(s): return ' > '.join(s.cur[-3:])
    def obligation(s,ok,kind,msg,st=None):
        if s.trial:
            if not ok: raise Violation(kind,msg)
            return
        s.oblig+=1
        if not ok: raise Violation(kind,msg)
    # ------------------------------------------------ values
    def val(s,st,v,ty=None):
        k=v[0]
        if k=='v':
            try: return st.env[v[1]]
            except KeyError: raise Unsupported('undefined value %'+v[1])
        if k=='i':
            if ty is not None and ty.k=='int' and ty.a==1: return TRUE if v[1] else FALSE
            return Poly.c(v[1])
        if k=='f':
            x=v[1]
            if x!=x or x in(float('inf'),float('-inf')): return OPQ
            fr=Fraction(x)
            return MT.scalar(Poly.c(int(fr) if fr.denominator==1 else fr))
        if k=='null': return NULL
        if k=='undef': return OPQ
        if k=='zero':
            if ty is not None and ty.k=='fp': return MT.scalar(ZERO)
            if ty is not None and ty.k=='int': return FALSE if ty.a==1 else ZERO
            if ty is not None and ty.k=='vec': return ('vec',MT.zero(1,ty.n))
            if ty is not None and ty.k=='ptr': return NULL
            return OPQ
        if k=='g':
            n=v[1]
            if n in s.M.funcs: return FnPtr(n)
            return s.global_ptr(st,n)
        if k=='agg':
            if ty is not None and ty.k=='vec': return OPQ
            return tuple(s.val(st,x,t) for t,x in v[1])
        if k=='cexpr':
            # getelementptr on a global etc.
            toks=v[2]
            g=[t for t in toks if t[0]=='@']
            if g and v[1]=='getelementptr':
                n=g[0][1:].strip('"')
                p=s.global_ptr(st,n)
                return Ptr(p.obj,Poly.v(fresh('goff')))
            return OPQ
        return OPQ
    def global_ptr(s,st,n):
        oid='glob:'+n
        if oid not in st.mem:
            c=Cells(oid,None,True); st.mem[oid]=c
            d=s.M.globals.get(n,'')
            m=re.search(r'(?:constant|global)\s+(i\d+|double|float)\s+(\S+?),',d+',')
            m2=re.search(r'constant \[\d+ x i(\d+)\] \[([^\]]*)\]',d)
            if m2:
                w=int(m2.group(1))//8
                if w:
                    c.lazy=False
                    for k,e in enumerate(m2.group(2).split(',')): c.cells[k*w]=(Poly.c(int(e.split()[-1])),w)
            if m and 'constant' in d:
                try:
                    if m.group(1)[0]=='i': c.cells[0]=(Poly.c(int(m.group(2))),int(m.group(1)[1:])//8)
                    else:
                        p=ir.P(ir.lex(m.group(2))); v=p.val(ir.Ty('fp',m.group(1))); c.cells[0]=(s.val(st,v),8 if m.group(1)=='double' else 4)
                except Exception: pass
        return Ptr(oid,ZERO)
    def fresh_of(s,st,ty,name='u'):
        t=ir.resolve(s.M,ty)
        if t.k=='int':
            if t.a==1: return BV(z3.Bool(fresh(name,'bool')))
            v=Poly.v(fresh(name)); 
            if t.a>=64: st.path=st.path.add(z(v)>=0)
            return v
        if t.k=='fp': return OPQ
        if t.k=='ptr': return s.new_cells(st,name,None,True)
        if t.k=='struct': return tuple(s.fresh_of(st,e,name) for e in t.a)
        return OPQ
    # ------------------------------------------------ memory access
    def as_el(s,v):
        if isinstance(v,MT): return v
        if isinstance(v,Poly): return MT.scalar(v)
        return OPQ
    def load(s,st,p,ty):
        if not isinstance(p,Ptr):
            raise Unsupported(f'load through {p!r}')
        if p.obj.startswith('const:'):
            return MT.scalar(Poly.c(int(p.obj[6:])))
        o=st.mem[p.obj]
        sz,_=ir.size_align(s.M,ty)
        if isinstance(o,Cells):
            if not p.off.is_const():
                if o.lazy: return s.fresh_of(st,ty,'ld')
                raise Unsupported('symbolic offset into local object')
            k=p.off.const()
            c=o.cells.get(k)
            if c is not None and (c[1]==sz):
                return c[0]
            t=ir.resolve(s.M,ty)
            if c is not None: # size mismatch
                if isinstance(c[0],Poly) and t.k=='int': return c[0]
                if isinstance(c[0],MT): return c[0]
                return s.fresh_of(st,ty,'ldm')
            if t.k in('struct',) :
                return s.fresh_of(st,ty,'ld')
            if o.lazy and t.k=='int' and t.a>=64: v=OPQ
            elif o.lazy and t.k=='ptr':
                nid=f"{p.obj}->{k}"
                if nid not in st.mem: st.mem[nid]=Cells(nid,None,True); st.mem[nid].org=(p.obj,k)
                v=Ptr(nid,ZERO)
            else: v=s.fresh_of(st,ty,'ld' if o.lazy else 'undef')
            n=o.copy(); n.cells[k]=(v,sz); st.mem[p.obj]=n
            return v
        if isinstance(o,Arr):
            off=div_bytes(p.off,o.esz)
            if off is None: raise Unsupported('misaligned element access')
            t=ir.resolve(s.M,ty)
            if t.k=='vec' or (sz>o.esz and sz%o.esz==0):
                n=sz//o.esz
                return ('vec',s.read_win(st,Ptr(p.obj,p.off),None,1,n))
            if sz!=o.esz: raise Unsupported('element size mismatch')
            return s.read_win(st,p,None,1,1)
        raise Unsupported('load from '+type(o).__name__)
    def store(s,st,p,v,ty):
        if not isinstance(p,Ptr): raise Unsupported(f'store through {p!r}')
        if p.obj.startswith('const:'): raise Violation('write-const','store to a field constant')
        o=st.mem[p.obj]
        sz,_=ir.size_align(s.M,ty)
        if isinstance(o,Cells):
            if not p.off.is_const():
                if o.lazy:
                    return
                raise Unsupported('symbolic offset store into local object')
            k=p.off.const(); n=o.copy()
            if o.hav and isinstance(v,(MT,Poly)) and not (isinstance(v,Poly) and sz<8): v=OPQ
            for q in [q for q,(vv,zz) in n.cells.items() if q!=k and q<k+sz and k<q+zz]: del n.cells[q]
            n.cells[k]=(v,sz); st.mem[p.obj]=n; return
        if isinstance(o,Arr):
            t=ir.resolve(s.M,ty)
            if t.k=='vec' or (sz>o.esz and sz%o.esz==0):
                n=sz//o.esz
                if isinstance(v,tuple) and v[0]=='vec': s.write_win(st,p,None,1,n,v[1]); return
                raise Unsupported('vector store of '+repr(v))
            if sz!=o.esz: raise Unsupported('element size mismatch')
            e=s.as_el(v)
            if e is OPQ: e=MT.atom(mkatom(fresh('opq'),1,1))
            s.write_win(st,p,None,1,1,e); return
        raise Unsupported('store to '+type(o).__name__)
    def locate(s,st,p,ld,m,n):
        if not isinstance(p,Ptr):
            if p is NULL and (P_(m)==0 or P_(n)==0 or st.path.le(P_(m),ZERO) or st.path.le(P_(n),ZERO)): return None
            if p is NULL: raise Violation('null','null pointer dereference')
            raise Unsupported('matrix pointer '+repr(p))
        o=st.mem[p.obj]
        if isinstance(o,Cells):
            if P_(m)==1 and P_(n)==1: return ('cell',p)
            raise Unsupported(f'matrix access {m}x{n} to local object {p.obj}')
        off=div_bytes(p.off,o.esz)
        if off is None: raise Unsupported('misaligned')
        w,new=locate(st.path,o,p.obj,off,ld,m,n)
        if new is not None: st.mem[p.obj]=new
        return w
    def get(s,st,w):
        if w is None: return MT.zero(0,0)
        if isinstance(w,tuple):
            v=s.load(st,w[1],ir.Ty('fp','double')); v=s.as_el(v)
            if v is OPQ: raise Unsupported('opaque element used as value')
            return v
        t=quick_simp(st.path,read_rect(st.path,st.mem[w.obj],w.r0,w.r1,w.c0,w.c1))
        return t.T() if w.tr else t
    def put(s,st,w,t):
        if w is None: return
        if isinstance(w,tuple):
            o=st.mem[w[1].obj]; k=w[1].off.const(); n=o.copy(); 
            n.cells[k]=(t,o.cells[k][1] if k in o.cells else 8); st.mem[w[1].obj]=n; return
        if w.tr: t=t.T()
        st.mem[w.obj]=write_rect(st.path,st.mem[w.obj],w.r0,w.r1,w.c0,w.c1,t)
    def read_win(s,st,p,ld,m,n):
        w=s.locate(st,p,ld,m,n); return s.get(st,w)
    def write_win(s,st,p,ld,m,n,t):
        w=s.locate(st,p,ld,m,n); s.put(st,w,t)
    # element references (field elements by reference)
    def el_get(s,st,p):
        if isinstance(p,Ptr) and p.obj.startswith('const:'): return MT.scalar(Poly.c(int(p.obj[6:])))
        if not isinstance(p,Ptr): raise Unsupported('element pointer '+repr(p))
        o=st.mem[p.obj]
        if isinstance(o,Cells):
            if not p.off.is_const(): return OPQ
            c=o.cells.get(p.off.const())
            if c is None:
                return OPQ
            return s.as_el(c[0]) if not (isinstance(c[0],tuple)) else OPQ
        return s.read_win(st,p,None,1,1)
    def el_put(s,st,p,v,sz=8):
        o=st.mem[p.obj]
        if isinstance(o,Cells):
            n=o.copy(); k=p.off.const()
            if k in n.cells: sz=n.cells[k][1]
            n.cells[k]=(v,sz); st.mem[p.obj]=n
        else:
            if v is OPQ: v=MT.atom(mkatom(fresh('opq'),1,1))
            s.write_win(st,p,None,1,1,v)
    # ------------------------------------------------ running a function body
    def run(s,f,args,st,depth=0):
        """execute body of f; returns list of (state, retval)"""
        if depth>60: raise Unsupported('inline depth (recursion without contract): '+basename(f.dem))
        cfg=analyse(f)
        st=st.fork(); env={}
        for (t,n),a in zip(f.params,args): env[n]=a
        st.frames.append(env)
        s.cur.append(basename(f.dem).split('::')[-1])
        try:
            outs=s.run_region(f,cfg,[(f.entry,st)],None,depth)
        finally: s.cur.pop()
        res=[]
        for kind,x,stt in outs:
            assert kind=='ret'
            pre=f'L{len(stt.frames)}:'
            for k in [k for k in stt.mem if k.startswith(pre)]: del stt.mem[k]
            stt.frames.pop(); res.append((stt,x))
        return s.merge_rets(res)
    def merge_rets(s,res):
        if len(res)<2: return res
        d={}; out=[]
        for st,v in res:
            k=(repr(v),repr([sorted((a,repr(b)) for a,b in f.items()) for f in st.frames]) ,tuple(sorted((i,o.key()) for i,o in st.mem.items() if not (isinstance(o,Cells) and False))),tuple(sorted((a,repr(p)) for a,p in st.sub.items())))
            if k in d: 
                o=d[k]; o[0].path=join_path(o[0].path,st.path)
            else:
                d[k]=[st,v]; out.append(d[k])
        return [(a,b) for a,b in out]
    def run_region(s,f,cfg,start,loop,depth):
        """worklist execution. loop=None for whole function, or (header,bodyset) for one iteration.
           returns list of ('ret',val,st) | ('edge',(pred,target),st)"""
        idx=cfg['idx']; pend={}
        for b,st in start: pend.setdefault(b,[]).append((None,st))
        outs=[]; first=True
        while pend:
            b=min(pend,key=lambda x:idx[x])
            sts=pend.pop(b)
            sts=s.merge(f,cfg,b,sts)
            for prev,st in sts:
                s.nstates+=1
                if s.nstates>s.maxstates: raise Unsupported('state limit')
                if s.deadline and time.time()>s.deadline: raise Limit('time limit')
                if b in cfg['loops'] and not (loop and b==loop[0] and prev is None):
                    for kind,x,st2 in s.do_loop(f,cfg,b,st,depth):
                        if kind=='ret': outs.append((kind,x,st2))
                        else:
                            pr,tg=x
                            if loop and (tg==loop[0] or tg not in loop[1]): outs.append(('edge',(pr,tg),st2))
                            else: pend.setdefault(tg,[]).append((pr,st2))
                    continue
                for kind,x,st2 in s.run_block(f,b,st,depth):
                    if kind=='ret': outs.append((kind,x,st2)); continue
                    tg=x
                    s.phis(f,b,tg,st2)
                    if loop and (tg==loop[0] or tg not in loop[1]): outs.append(('edge',(b,tg),st2))
                    else: pend.setdefault(tg,[]).append((b,st2))
        return outs
    def phis(s,f,b,tg,st):
        new={}
        for I in f.blocks[tg]:
            if I.op!='phi': break
            for v,p in I.x['inc']:
                if p==b: new[I.res]=s.val(st,v,I.ty); break
        st.env.update(new)
    def merge(s,f,cfg,b,sts):
        live=cfg['livein'][b]
        for _,st in sts:
            e=st.env
            for k in [k for k in e if k not in live]: del e[k]
        if len(sts)<2: return sts
        d={}
        for pr,st in sts:
            k=(tuple(sorted((a,repr(v)) for a,v in st.env.items())),
               tuple(sorted((i,o.key()) for i,o in st.mem.items())),
               tuple(sorted((a,repr(p)) for a,p in st.sub.items())))
            if k in d: d[k][1].path=join_path(d[k][1].path,st.path)
            else: d[k]=[pr,st]
        return [tuple(v) for v in d.values()]
    # ------------------------------------------------ blocks
    def run_block(s,f,b,st,depth):
        """returns list of ('br',target,st)|('ret',v,st)"""
        outs=[]; work=[(0,st)]
        ins=f.blocks[b]
        while work:
            i,st=work.pop()
            while True:
                I=ins[i]
                if I.op=='phi': i+=1; continue
                try:
                    snap=st
                    cand=s.step(f,b,I,st,depth)
                except NeedSplit as e:
                    alive=[]
                    for c in (e.cond,z3.Not(e.cond)):
                        t=st.fork(); t.path=t.path.add(c)
                        if t.path.feasible(): alive.append((i,t))
                    s.splits=getattr(s,'splits',0)+1
                    if s.debug: print('SPLIT',s.where(),str(e.cond)[:100],'|',I.line.strip()[:90])
                    if s.splits>400: raise Unsupported('split limit')
                    work+=alive; break
                except Violation as v:
                    if s.trial: raise
                    s.fails.append(Fail(v.kind,v.msg,f"{s.where()} at `{I.line.strip()[:160]}`",st.path)); break
                if cand is None: i+=1; continue
                if isinstance(cand,list):
                    for c in cand:
                        if c[0]=='next': work.append((i+1,c[1]))
                        else: outs.append(c)
                    break
                raise RuntimeError
        return outs
    # ------------------------------------------------ instructions
    def step(s,f,b,I,st,depth):
        op=I.op; env=st.env
        if op=='br':
            d=I.x['dests']
            if len(d)==1: return [('br',d[0],st)]
            c=s.val(st,I.args[0],ir.Ty('int',1))
            return s.branch(st,c,[('br',d[0])],[('br',d[1])])
        if op=='ret':
            return [('ret',s.val(st,I.args[0],I.ty) if I.args else None,st)]
        if op in('unreachable','resume'): return []
        if op=='switch':
            v=s.val(st,I.args[0],I.ty); outs=[]
            if isinstance(v,BV): raise Unsupported('switch on bool')
            if not isinstance(v,Poly):
                return [('br',t,st.fork()) for t in dict.fromkeys([x for _,x in I.x['cases']]+[I.x['default']])]
            if v.is_const():
                for c,t in I.x['cases']:
                    if c==v.const(): return [('br',t,st)]
                return [('br',I.x['default'],st)]
            rest=st.fork()
            for c,t in I.x['cases']:
                t2=st.fork().assume(s.cmp_eq(v,Poly.c(c)),True)
                if t2: outs.append(('br',t,t2))
                if rest: rest=rest.assume(s.cmp_eq(v,Poly.c(c)),False)
            if rest: outs.append(('br',I.x['default'],rest))
            return outs
        if op=='alloca':
            t=ir.resolve(s.M,I.ty); sz,_=ir.size_align(s.M,I.ty)
            env[I.res]=s.new_cells(st,f'L{len(st.frames)}:{I.res}',sz)
            if not getattr(s,'keep_helpers',False) and I.ty.k=='named' and 'Helper' in I.ty.a: st.mem[env[I.res].obj].hav=True
            return None
        if op=='load':
            env[I.res]=s.load(st,s.val(st,I.args[0]),I.ty); return None
        if op=='store':
            s.store(st,s.val(st,I.args[1]),s.val(st,I.args[0],I.ty),I.ty); return None
        if op=='getelementptr': env[I.res]=s.gep(st,I); return None
        if op in('call','invoke'): return s.call(f,b,I,st,depth)
        if op=='icmp': 
            r=s.icmp(st,I)
            if isinstance(r,list): return r
            env[I.res]=r; return None
        if op=='fcmp':
            env[I.res]=s.fcmp(st,I); return None
        if op in ir.BIN:
            r=s.binop(st,I)
            if isinstance(r,list): return r
            env[I.res]=r; return None
        if op in ir.CAST:
            v=s.val(st,I.args[0],I.x['from'])
            if op in('zext','sext') and isinstance(v,BV):
                hi=1 if op=='zext' else -1
                return s.branch_vals(st,I.res,v,Poly.c(hi),ZERO)
            if op in('uitofp','sitofp'):
                if isinstance(v,BV): return s.branch_vals(st,I.res,v,MT.scalar(ONE),MT.scalar(ZERO))
                env[I.res]=s.itof(v)
            elif op in('fptoui','fptosi'):
                if isinstance(v,MT): env[I.res]=v
                else:
                    env[I.res]=s.fresh_of(st,I.ty,'f2i')
            elif op=='trunc' and I.ty.k=='int' and I.ty.a==1:
                if isinstance(v,BV): env[I.res]=v
                elif isinstance(v,Poly):
                    r=v-2*udiv(v,Poly.c(2)); env[I.res]=s.cmp_eq(r,ONE)
                else: env[I.res]=BV(None)
            elif op=='bitcast':
                env[I.res]=v
            elif op=='ptrtoint':
                env[I.res]=('pint',v)
            elif op=='inttoptr': env[I.res]=v[1] if isinstance(v,tuple) and v and v[0]=='pint' else OPQ
            else: env[I.res]=v
            return None
        if op=='fneg':
            v=s.val(st,I.args[0],I.ty)
            if isinstance(v,MT): env[I.res]=-v
            elif isinstance(v,tuple) and v[0]=='vec': env[I.res]=('vec',-v[1])
            else: env[I.res]=OPQ
            return None
        if op=='freeze': env[I.res]=s.val(st,I.args[0],I.ty); return None
        if op=='select':
            c=s.val(st,I.args[0],I.x['cty']); a=s.val(st,I.args[1],I.ty); d=s.val(st,I.args[2],I.ty)
            if not isinstance(c,BV): raise Unsupported('vector select')
            if I.ty.k=='int' and I.ty.a==1 and isinstance(a,BV) and isinstance(d,BV):
                pass
            if repr(a)==repr(d): env[I.res]=a; return None
            return s.branch_vals(st,I.res,c,a,d)
        if op=='extractvalue':
            v=s.val(st,I.args[0],I.ty)
            for k in I.x['idx']:
                if isinstance(v,tuple): v=v[k]
                else: v=OPQ
            env[I.res]=v; return None
        if op=='insertvalue':
            v=s.val(st,I.args[0],I.ty); x=s.val(st,I.args[1])
            n=len(ir.resolve(s.M,I.ty).a)
            l=list(v) if isinstance(v,tuple) else [OPQ]*n
            l[I.x['idx'][0]]=x; env[I.res]=tuple(l); return None
        if op=='landingpad': return []
        if op=='fence': return None
        if I.res: env[I.res]=OPQ; s.unk=getattr(s,'unk',set()); s.unk.add(op); return None
        raise Unsupported('instruction '+op)
    def itof(s,v):
        if isinstance(v,MT): return v
        if isinstance(v,Poly): return MT.scalar(v)
        return OPQ
    def branch(s,st,c,tl,fl):
        if isinstance(c,Poly): c=s.cmp_eq(c,ZERO); tl,fl=fl,tl
        if not isinstance(c,BV): c=BV(None)
        outs=[]
        if c.z is not None:
            if z3.is_true(c.z): return [x+(st,) for x in tl]
            if z3.is_false(c.z): return [x+(st,) for x in fl]
            pt=st.path.prove(c.z); 
            if pt:
                a=st.assume(c,True)
                return [x+(a,) for x in tl] if a else []
            if st.path.prove(z3.Not(c.z)):
                a=st.assume(c,False)
                return [x+(a,) for x in fl] if a else []
        a=st.fork().assume(c,True)
        if a: outs+= [x+(a,) for x in tl]
        d=st.fork().assume(c,False)
        if d: outs+= [x+(d,) for x in fl]
        return outs
    def branch_vals(s,st,res,c,a,d):
        outs=[]
        for x in s.branch(st,c,[('next',1)],[('next',0)]):
            t=x[2]; 
            v=a if x[1] else d
            # values may need the substitution that the branch introduced
            if t.sub is not st.sub: v=vsub(v,t.sub)
            t.env[res]=v; outs.append(('next',t))
        return outs
    def cmp_eq(s,a,b):
        d=a-b
        if d.is_const(): return TRUE if d.const()==0 else FALSE
        a,b=_split_sign(d)
        return BV(z(a)==z(b),eq_sub(a,b),None)
    def icmp(s,st,I):
        p=I.x['pred']; a=s.val(st,I.args[0],I.ty); b=s.val(st,I.args[1],I.ty)
        if I.ty.k=='ptr' or isinstance(a,(Ptr,Null)) or isinstance(b,(Ptr,Null)):
            if p in('eq','ne'):
                r=None
                if isinstance(a,Ptr) and isinstance(b,Ptr):
                    if a.obj!=b.obj: r=FALSE
                    else:
                        d_=reduce_pos(st.path,a.off-b.off); r=s.cmp_eq(d_,ZERO)
                elif a is NULL and b is NULL: r=TRUE
                elif (a is NULL and isinstance(b,Ptr)) or (b is NULL and isinstance(a,Ptr)): r=FALSE
                else: r=BV(None)
                return s.bnot(r) if p=='ne' else r
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj:
                a,b=a.off,b.off
                if p[0]=='u': p='s'+p[1:]   # offsets within one object: no wrap-around
            else: return BV(None)
        if isinstance(a,BV) and isinstance(b,BV):
            if a.z is None or b.z is None: return BV(None)
            if z3.is_true(b.z) or z3.is_false(b.z):
                pos=(p=='eq')==z3.is_true(b.z); return a if pos else s.bnot(a)
            return BV(a.z==b.z) if p=='eq' else BV(a.z!=b.z)
        if isinstance(a,MT) or isinstance(b,MT):
            return s.elcmp(p,a,b)
        if not isinstance(a,Poly) or not isinstance(b,Poly): return BV(None)
        if p=='eq': return s.cmp_eq(a,b)
        if p=='ne': return s.bnot(s.cmp_eq(a,b))
        if p[0]=='u':
            # unsigned: a mathematically negative operand is a wrapped (huge) value
            na=not st.path.le(ZERO,a); nb=not st.path.le(ZERO,b)
            if na: raise_if_undecided(st,a)
            if nb: raise_if_undecided(st,b)
            if na and not nb: return TRUE if p in('ugt','uge') else FALSE
            if nb and not na: return TRUE if p in('ult','ule') else FALSE
        q=p[1:]
        d=reduce_pos(st.path,a-b); a,b=_split_sign(d)
        za,zb=z(a),z(b)
        if d.is_const():
            c=d.const(); r={'lt':c<0,'le':c<=0,'gt':c>0,'ge':c>=0}[q]; return TRUE if r else FALSE
        return BV({'lt':za<zb,'le':za<=zb,'gt':za>zb,'ge':za>=zb}[q])
    def bnot(s,b):
        if b.z is None: return b
        if z3.is_true(b.z): return FALSE
        if z3.is_false(b.z): return TRUE
        return BV(z3.Not(b.z),b.f,b.t)
    def elcmp(s,p,a,b):
        """comparison of two field elements (residues): only equality with known constants is interpreted"""
        a=s.as_el(a); b=s.as_el(b)
        if a is OPQ or b is OPQ: return BV(None)
        if p in('eq','ne','oeq','une','ueq','one'):
            pa,pb=a.is_scalar_poly(),b.is_scalar_poly()
            neg=p in('ne','une','one')
            r=None
            if pa is not None and pb is not None:
                d=pa-pb
                if d.is_zero(): r=TRUE
                elif d.is_const(): r=FALSE
                else: r=BV(z(pa)==z(pb),eq_sub(pa,pb),None)
            elif (a-b).d=={}: r=TRUE
            else: return BV(None)
            return s.bnot(r) if neg else r
        return BV(None)
    def fcmp(s,st,I):
        a=s.val(st,I.args[0],I.ty); b=s.val(st,I.args[1],I.ty)
        return s.fcmp_vals(st,I.x['pred'],a,b)
    def fcmp_vals(s,st,p,a,b):
        if isinstance(a,MT) and isinstance(b,MT): return s.elcmp(p,a,b)
        return BV(None)
    def binop(s,st,I):
        op=I.op; a=s.val(st,I.args[0],I.ty); b=s.val(st,I.args[1],I.ty)
        if I.ty.k=='vec':
            if isinstance(a,tuple) and isinstance(b,tuple) and a[0]==b[0]=='vec':
                if op in('fadd','add'): return ('vec',a[1]+b[1])
                if op in('fsub','sub'): return ('vec',a[1]-b[1])
            return OPQ
        if isinstance(a,BV) or isinstance(b,BV):
            if isinstance(a,BV) and isinstance(b,BV):
                if op=='and':
                    if a.z is not None and z3.is_false(a.z) or (b.z is not None and z3.is_false(b.z)): return FALSE
                    if a.z is None or b.z is None: return BV(None)
                    t=dict(a.t or {}); t.update(b.t or {})
                    return BV(z3.And(a.z,b.z),a.t or b.t,None)
                if op=='or':
                    if a.z is None or b.z is None: return BV(None)
                    return BV(z3.Or(a.z,b.z),None,a.f or b.f)
                if op=='xor':
                    if b.z is not None and z3.is_true(b.z): return s.bnot(a)
                    if a.z is None or b.z is None: return BV(None)
                    return BV(z3.Xor(a.z,b.z))
            return OPQ
        if isinstance(a,tuple) and a and a[0]=='pint' or (isinstance(b,tuple) and b and b[0]=='pint'):
            # pointer arithmetic on integers (alignment tests, pointer differences)
            if op=='sub' and isinstance(a,tuple) and isinstance(b,tuple) and isinstance(a[1],Ptr) and isinstance(b[1],Ptr) and a[1].obj==b[1].obj:
                return a[1].off-b[1].off
            if op in('add','sub') and isinstance(a,tuple) and isinstance(a[1],Ptr) and isinstance(b,Poly):
                return ('pint',Ptr(a[1].obj,a[1].off+b if op=='add' else a[1].off-b))
            return s.fresh_of(st,I.ty,'pi')
        if isinstance(a,MT) or isinstance(b,MT) or op[0]=='f':
            a,b=s.as_el(a),s.as_el(b)
            if a is OPQ or b is OPQ: return OPQ
            if op in('fadd','add'): return a+b
            if op in('fsub','sub'): return a-b
            if op in('fmul','mul'): return a*b
            if op=='fdiv':
                q=b.inv_scalar()
                pb=b.is_scalar_poly(); pa=a.is_scalar_poly()
                return OPQ
            if op=='shl':
                pb=b.is_scalar_poly()
                if pb is not None and pb.is_const(): return a*Poly.c(2**pb.const())
            return OPQ
        if not isinstance(a,Poly) or not isinstance(b,Poly):
            return OPQ
        if op=='add': return a+b
        if op=='sub': return a-b
        if op=='mul': return a*b
        if op=='shl' and b.is_const(): return a*(2**b.const())
        if op in('shl','lshr'):
            if not b.is_const():
                if op=='shl':
                    # x>>e1<<e2 : only the linear consequences are kept
                    at=a.single_atom(); info=REG.get(at,(None,None))[1] if at else None
                    n=f"shl[{a},{b}]"; reg(n,'int'); fc=[zatom(n)>=0]
                    if info and info[0]=='udiv' and info[2].single_atom() and info[2].single_atom().startswith('p2[') and REG[info[2].single_atom()][1]:
                        e1=REG[info[2].single_atom()][1][1]; c=e1-b
                        if c.is_const() and c.const()>=0: fc.append((2**c.const())*zatom(n)<=z(info[1]))
                    if st.path.le(ZERO,a) and st.path.le(ZERO,b):
                        st.path=st.path.add(*fc); return Poly.v(n)
                    return OPQ
                y=s.pow2(st,b)
                if y is not None: return udiv(a,y)
        if op in('lshr','ashr') and b.is_const(): 
            return udiv(a,Poly.c(2**b.const()))
        if op in('udiv','sdiv'):
            return udiv(a,b)
        if op in('urem','srem'):
            return a-b*udiv(a,b)
        if op=='and' and b.is_const():
            c=b.const()
            if c>=0 and (c&(c+1))==0: return a-(c+1)*udiv(a,Poly.c(c+1))
            if c<0 and ((-c)&(-c-1))==0: return (-c)*udiv(a,Poly.c(-c))
        if op=='and' and a.is_const() and a.const()>=0 and (a.const()&(a.const()+1))==0: 
            c=a.const(); return b-(c+1)*udiv(b,Poly.c(c+1))
        if op=='xor' and b.is_const() and b.const()==-1: return -a-1
        if op=='or' and 'disjoint' in I.line: return a+b
        if a.is_const() and b.is_const():
            x,y=a.const(),b.const()
            r={'and':x&y,'or':x|y,'xor':x^y}.get(op)
            if r is not None: return Poly.c(r)
        v=s.fresh_of(st,I.ty,'bit')
        return v
    def pow2(s,st,e):
        if not st.path.le(ZERO,e): return None
        n=f"p2[{e}]"; reg(n,'int',('pow2',e)); st.path=st.path.add(zatom(n)>=1); return Poly.v(n)
    def gep(s,st,I):
        p=s.val(st,I.args[0]); idx=I.x['idx']; ty=I.ty
        r=ir.resolve(s.M,ty)
        if ty.k=='named' and len(idx)>=2 and idx[1][1][0]=='i':
            c=s.consts.get((ty.a,idx[1][1][1]))
            if c is not None: return Ptr('const:%d'%c,ZERO)
        if not isinstance(p,Ptr): 
            if p is NULL and all(s.val(st,v,t)==0 for t,v in idx): return NULL
            return OPQ
        off=p.off; cur=ty
        for j,(t,v) in enumerate(idx):
            x=s.val(st,v,t)
            if not isinstance(x,Poly): 
                raise Unsupported('symbolic index of kind '+repr(x)[:40])
            if j==0: sz,_=ir.size_align(s.M,cur); off=off+x*sz
            else:
                rt=ir.resolve(s.M,cur)
                if rt.k=='struct':
                    o,e=ir.field_off(s.M,cur,x.const()); off=off+o; cur=e
                elif rt.k in('arr','vec'):
                    cur=rt.a; sz,_=ir.size_align(s.M,cur); off=off+x*sz
                else: raise Unsupported('gep')
        return Ptr(p.obj,off)
    # ------------------------------------------------ calls
    def call(s,f,b,I,st,depth):
        c=I.x['callee']; 
        if c[0]=='asm': raise Unsupported('inline asm')
        fn=None
        if c[0]=='g': fn=c[1]
        else:
            v=s.val(st,c)
            if isinstance(v,FnPtr): fn=v.n
            else:
                fn=s.devirt(st,v,I)
                if fn is None: raise Unsupported('indirect call')
        args=[s.val(st,a,t) for a,t in zip(I.args,I.x['atys'])]
        def cont(outs):
            r=[]
            for st2,v in outs:
                if I.res is not None: st2.env[I.res]=v
                if I.op=='invoke':
                    r.append(('br',I.x['normal'],st2))
                else: r.append(('next',st2))
            return r
        if fn.startswith('llvm.'): return cont(s.intrinsic(st,fn,args,I))
        g=s.M.funcs.get(fn)
        dem=g.dem if g else fn
        bn=basename(dem)
        k=s.C.lookup(bn,dem,g)
        if k is not None:
            s.used.add(('T:' if getattr(k,'trusted',False) else '')+k.name)
            s.cur.append('call '+bn.split('::')[-1])
            try: return cont(k.apply(s,st,args,I,dem))
            finally: s.cur.pop()
        if IGN.match(bn) or IGN.match(dem):
            if g is None or g.decl or bn.startswith('std::'):
                if g is not None and not g.decl and len(g.text)<40 :
                    pass
                elif I.ty.k=='void': return cont([(st,None)])
                else: return cont([(st,s.fresh_of(st,I.ty,'ext'))])
        if g is None or g.decl:
            raise Unsupported('external function '+bn)
        s.inlined.add(bn)
        return cont(s.run(g,args,st,depth+1))
    def devirt(s,st,v,I):
        """virtual call on a field object: all Givaro vtables of the hierarchy agree on the method in a slot"""
        if not isinstance(v,Ptr): return None
        o=st.mem.get(v.obj)
        if not isinstance(o,Cells) or o.org is None: return None
        par,slot=o.org; slot//=8
        if not hasattr(s.M,'vt'):
            s.M.vt=[]
            for n,d in s.M.globals.items():
                if n.startswith('_ZTVN6Givaro'):
                    s.M.vt.append([x for x in re.findall(r'ptr (null|@[\w.$]+)',d)][2:])
        names={}
        for vt in s.M.vt:
            if slot<len(vt) and vt[slot]!='null':
                fn=vt[slot][1:]; g=s.M.funcs.get(fn)
                if g is None: continue
                b=basename(g.dem).split('::')[-1]
                if b=='__cxa_pure_virtual' or len(g.params)!=len(I.args): continue
                names.setdefault(b,fn)
        if len(names)==1: return list(names.values())[0]
        return None
    def intrinsic(s,st,fn,args,I):
        if fn.startswith(('llvm.lifetime','llvm.dbg','llvm.assume','llvm.experimental.noalias','llvm.invariant','llvm.prefetch','llvm.stackrestore','llvm.trap')): return [(st,None)]
        if fn.startswith(('llvm.memcpy','llvm.memmove')):
            d,sr,n=args[:3]; s.memcpy(st,d,sr,n); return [(st,None)]
        if fn.startswith('llvm.memset'):
            d,v,n=args[:3]
            if isinstance(d,Ptr) and isinstance(st.mem[d.obj],Cells):
                o=st.mem[d.obj].copy(); o.lazy=True; o.cells={}; st.mem[d.obj]=o
                return [(st,None)]
            if isinstance(d,Ptr) and isinstance(v,Poly) and v.is_zero():
                o=st.mem[d.obj]; q=div_bytes(n,o.esz)
                if q is not None: s.write_win(st,d,None,1,q,MT.zero(1,q)); return [(st,None)]
            raise Unsupported('memset')
        if fn.startswith('llvm.fmuladd') or fn.startswith('llvm.fma'):
            a,b,c=args
            if all(isinstance(x,MT) for x in args): return [(st,a*b+c)]
            if all(isinstance(x,tuple) and x[0]=='vec' for x in args): return [(st,OPQ)]
            return [(st,OPQ)]
        if fn.startswith(('llvm.umax','llvm.smax','llvm.umin','llvm.smin')):
            a,b=args
            if isinstance(a,Poly) and isinstance(b,Poly):
                if not (st.path.le(a,b) or st.path.le(b,a)): raise NeedSplit(z(a)<=z(b))
                le=st.path.le(a,b); mx='max' in fn
                return [(st,b if le==mx else a)]
        if I.ty.k=='void': return [(st,None)]
        return [(st,s.fresh_of(st,I.ty,'intr'))]
    def memcpy(s,st,d,sr,n):
        if not isinstance(d,Ptr) or not isinstance(sr,Ptr): raise Unsupported('memcpy')
        if sr.obj.startswith('const:'): raise Unsupported('memcpy const')
        od,os_=st.mem[d.obj],st.mem[sr.obj]
        if isinstance(od,Cells) and isinstance(os_,Cells):
            if not (d.off.is_const() and sr.off.is_const() and n.is_const()):
                raise Unsupported('memcpy symbolic')
            a,b,c=d.off.const(),sr.off.const(),n.const()
            nd=od.copy()
            for q in [q for q in nd.cells if a<=q<a+c]: del nd.cells[q]
            for q,(v,zz) in os_.cells.items():
                if b<=q and q+zz<=b+c: nd.cells[q-b+a]=(v,zz)
            if os_.lazy: nd.lazy=True
            st.mem[d.obj]=nd; return
        if isinstance(od,Arr) and isinstance(os_,Arr):
            q=div_bytes(n,od.esz)
            if q is None: raise Unsupported('memcpy size')
            t=s.read_win(st,sr,None,1,q); s.write_win(st,d,None,1,q,t); return
        if isinstance(os_,Arr) and isinstance(od,Cells):
            q=div_bytes(n,os_.esz)
            if q==1: s.el_put(st,d,s.read_win(st,sr,None,1,1),os_.esz); return
        raise Unsupported('memcpy kinds')
    # ------------------------------------------------ loops
    def do_loop(s,f,cfg,h,st,depth):
        from loops import do_loop
        return do_loop(s,f,cfg,h,st,depth)

def reduce_pos(path,d):
    """divide by common factors that are provably positive"""
    if d.is_const() or not d.d: return d
    ks=list(d.d)
    com=set.intersection(*[set(a for a,e in k if e>0) for k in ks])
    for at in com:
        if path.prove(zatom(at)>0):
            e=min(dict(k)[at] for k in ks)
            d=d*Poly({((at,-e),):1})
            ks=list(d.d)
    import math
    g=0
    for v in d.d.values():
        if isinstance(v,int): g=math.gcd(g,v)
        else: g=1
    if g>1: d=Poly({k:v//g for k,v in d.d.items()})
    return d
def _split_sign(d):
    a=Poly({k:v for k,v in d.d.items() if v>0}); b=Poly({k:-v for k,v in d.d.items() if v<0})
    return a,b
def raise_if_undecided(st,a):
    if st.path.prove(z(a)<0): return
    raise NeedSplit(z(a)>=0)

def join_path(p,q):
    if p is q: return p
    a={c.get_id():c for c in p.cs}; b={c.get_id():c for c in q.cs}
    common=[c for c in p.cs if c.get_id() in b]
    ra=[c for c in p.cs if c.get_id() not in b]; rb=[c for c in q.cs if c.get_id() not in a]
    if not ra or not rb: return Path(common)
    A=z3.And(*ra) if len(ra)>1 else ra[0]; B=z3.And(*rb) if len(rb)>1 else rb[0]
    o=z3.simplify(z3.Or(A,B))
    if z3.is_true(o): return Path(common)
    return Path(tuple(common)+(z3.Or(A,B),))
