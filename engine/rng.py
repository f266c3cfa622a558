"""C03: range contracts. Every function that delays reductions is executed symbolically over LLVM IR with the magnitude of each
   operand block as ghost state: obligations are that no value exceeds the largest exactly representable integer, that callees
   receive operands inside the bounds announced in their helper, and that the bounds a helper reports contain the output.
   Scalars (dimensions, bounds) are z3 reals with integrality facts where they matter; a caller is checked against the callee's
   contract. Block disjointness is what C01/C02 prove; here a block is identified by its base and offset expression."""
import re,time,itertools,z3
import ir,build
from lib import basename
class Un(Exception): pass
class Undecided(Exception): pass
class Stop(Exception): pass
R=z3.Real
def rv(x): return z3.RealVal(x)
Z0,Z1=rv(0),rv(1)
class P:   # pointer
    __slots__=('o','off')
    def __init__(s,o,off=0): s.o=o; s.off=off
    def key(s):
        o=s.off
        if isinstance(o,int): return (s.o,o)
        o=z3.simplify(o,som=True,arith_lhs=True)
        return (s.o,int(o.as_long()) if z3.is_rational_value(o) and o.denominator_as_long()==1 else o.sexpr())
    def __repr__(s): return f'&{s.o}+{s.off}'
DIV=z3.Function('DIV',z3.RealSort(),z3.RealSort(),z3.BoolSort())   # ghost: multiple of 2^levels
class St:
    def __init__(s): s.mem={}; s.rng={}; s.pc=[]; s.lz=[]; s.log=[]
    def fork(s): t=St(); t.mem=dict(s.mem); t.rng=dict(s.rng); t.pc=list(s.pc); t.lz=list(s.lz); t.log=list(s.log); return t
class Stats: queries=0; time=0.0
def zmin(a,b): return z3.If(a<=b,a,b)
def zmax(a,b): return z3.If(a>=b,a,b)
def zabs(a): return z3.If(a>=0,a,-a)
# ---------------------------------------------------------------- fields
INFO={ # class, element -> (balanced, largest exactly representable, largest cardinality)
 ('Modular','double'):(0,2**53-1,94906266),('Modular','float'):(0,2**24-1,4096),('Modular','long'):(0,2**63-1,3037000500),('Modular','int'):(0,2**31-1,46341),
 ('ModularBalanced','double'):(1,2**53-1,189812531),('ModularBalanced','float'):(1,2**24-1,8191),('ModularBalanced','long'):(1,2**63-1,6074000999),('ModularBalanced','int'):(1,2**31-1,92683)}
class Fld:
    def __init__(s,cls,el):
        s.cls,s.el=cls,el; bal,s.max,s.card=INFO[(cls,el)]; s.MAX=rv(s.max); s.p=R('p')
        if bal: s.h=R('Fmax'); s.hi=s.h; s.lo=-s.h; s.ax=[s.p>=3,s.p<=s.card,s.h*2+1==s.p]; s.mone=rv(-1)
        else: s.lo=Z0; s.hi=s.p-1; s.ax=[s.p>=2,s.p<=s.card]; s.mone=s.p-1
def field_of(dem):
    m=re.search(r'Givaro::(Modular(?:Balanced)?)<(\w+)',dem)
    return (m.group(1),m.group(2)) if m else None
HM=['FieldMin','FieldMax','Amin','Amax','Bmin','Bmax','Cmin','Cmax','Outmin','Outmax','MaxStorableValue','recLevel']
class Ex:
    def __init__(s,M,consts,fld,deadline=60):
        s.M=M; s.consts=consts; s.F=fld; s.n=itertools.count(); s.oblig=0; s.fails=[]; s.uses=set(); s.inl=set(); s.t1=time.time()+deadline; s.hoff=helper_offsets(M)
        s.full={}; s.shr={}; s.depthm=None; s.body_of=None; s.quot={}; s.dvc={}; s.vc={}; s.stops=[]; s.stopped=[]; s.p4={}; s.p4x=[]; s.dvq={}; s.org={}; s.ovf=False; s.paths=0
    # ---- logic
    def sol1(s,cs,tmo,logic):
        S=z3.SolverFor(logic) if logic else z3.Solver()
        S.set('timeout',tmo)
        for c in cs: S.add(c)
        return S.check(),S
    def sol(s,st,extra,tmo,ints=False):
        Stats.queries+=1; t=time.time(); cs=list(s.F.ax)+list(st.pc)+list(extra)
        if tmo>=5000 and not ints:
            for sl in s.slices(st.pc,extra):
                r,S=s.sol1(list(s.F.ax)+sl+list(extra),500,None)
                if r==z3.unsat: Stats.time+=time.time()-t; return r,S
        r,S=s.sol1(cs,min(tmo,700),None)
        if r==z3.unknown and not ints:
            cs2=[c for c in cs if not s.hasdiv(c)]       # fewer hypotheses: only unsat counts
            r2,S2=s.sol1(cs2,min(tmo,2500),'QF_NRA')
            if r2==z3.unsat or len(cs2)==len(cs): r,S=r2,S2
        if r==z3.unknown and tmo>=5000:
            sels=[]; seen=set(); w=list(reversed(cs))
            while w:
                e=w.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_const(e) and z3.is_bool(e) and str(e).startswith('sel!'): sels.append(e)
                w+=e.children()
            sels.sort(key=lambda e:int(str(e).split('!')[1]))
            r,S=s.cases(cs,sels,tmo,ints)
        Stats.time+=time.time()-t
        return r,S
    def hasdiv(s,e):
        i=e.get_id()
        if i not in s.dvq:
            w=[e]; seen=set(); f=False
            while w and not f:
                x=w.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id()); f=z3.is_app(x) and x.decl().name()=='DIV'; w+=x.children()
            s.dvq[i]=(e,f)
        return s.dvq[i][1]
    def quick(s,st,extra):
        for sl in s.slices(st.pc,extra):
            if len(sl)>60: break
            r,_=s.sol1(list(s.F.ax)+sl+list(extra),200,None)
            if r==z3.unsat: return True
        return False
    def vars(s,e):
        i=e.get_id()
        if i in s.vc: return s.vc[i][1]
        out=set(); seen=set(); w=[e]
        while w:
            x=w.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(str(x))
            w+=x.children()
        s.vc[i]=(e,out); return out
    def slices(s,pc,extra):
        """growing subsets of the path condition around the goal (a subset that refutes the negated goal is enough)"""
        hubs={'p','Fmax'}; V=set()
        for e in extra: V|=s.vars(e)
        last=-1
        for _ in range(4):
            sl=[c for c in pc if (s.vars(c)-hubs)&V or not (s.vars(c)-hubs)]
            if len(sl)==last or len(sl)==len(pc): return
            last=len(sl)
            inner=[c for c in pc if s.vars(c)-hubs<=V]
            if inner: yield inner
            yield sl
            for c in sl: V|=s.vars(c)-hubs
    def cases(s,cs,sels,tmo,ints):
        """split an undecided query on the recorded joins"""
        if not sels: return s.sol1(cs,tmo,None)
        last=None
        for v in(sels[0],z3.Not(sels[0])):
            if time.time()>s.t1: raise Un('time limit')
            c2=cs+[v]; r,S=s.sol1(c2,700,None)
            if r==z3.unknown and not ints: r,S=s.sol1(c2,2500,'QF_NRA')
            if r==z3.unknown: r,S=s.cases(c2,sels[1:],tmo,ints)
            if r==z3.sat: return r,S
            if r==z3.unknown: return r,S
            last=S
        return z3.unsat,last
    def feasible(s,st,c):
        if time.time()>s.t1: raise Un('time limit')
        r,_=s.sol(st,[c],1500); return r!=z3.unsat
    def prove(s,st,c,msg,kind='range'):
        if time.time()>s.t1: raise Un('time limit')
        s.oblig+=1
        c=z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c): return
        cs=c.children() if z3.is_and(c) else [c]
        for x in cs:
            r,S=s.sol(st,[z3.Not(x)],8000)
            if r==z3.unsat: continue
            if r==z3.sat:
                r2,S2=s.sol(st,[z3.Not(x)]+st.lz,6000)
                if r2==z3.sat: S=S2; r2,S2=s.sol(st,[z3.Not(x)]+st.lz+s.integral(st,x),12000,True)
                if r2==z3.unsat: continue
                if r2==z3.sat: S=S2
                r=r2
            if r==z3.unknown:
                if s.fails: raise Stop()
                raise Undecided('solver undecided: '+msg)
            m=S.model(); vals=', '.join(f'{d.name()}={m[d]}' for d in m.decls() if d.arity()==0)[:1200]
            s.fails.append(dict(kind=kind,msg=msg+' -- counterexample '+vals,where=' > '.join(st.log[-6:]),path=[])); 
            st.pc.append(c)
            if len(s.fails)>=3: raise Stop()
            return
    def integral(s,st,x):
        """integrality of every variable that holds an integer in the program (all but quotients before truncation)"""
        vs={}; seen=set(); st_=list(st.pc)+[x]+list(s.F.ax)
        while st_:
            e=st_.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind()==z3.Z3_OP_UNINTERPRETED and z3.is_real(e) and not str(e).startswith('q!'): vs[e.get_id()]=e
            st_+=e.children()
        return [z3.IsInt(v) for v in vs.values()]
    def fresh(s,n): return R(f'{n}!{next(s.n)}')
    # ---- memory
    def load(s,st,p,ty):
        if not isinstance(p,P): raise Un('load from '+repr(p)[:50])
        k=p.key()
        if k in st.mem: return st.mem[k]
        if p.o.startswith('const:'): return rv(int(p.o[6:]))
        if p.o=='const!mone': return s.F.mone
        if ty.k=='ptr': v=P('ld!%d'%next(s.n)); s.org[v.o]=(p.o,p.off)
        else:
            v=s.fresh('ld_'+re.sub(r'\W','',p.o)[:12])
            if ty.k=='int' and ty.a==1: v=z3.Bool(str(v))
        st.mem[k]=v; return v
    def store(s,st,p,v):
        if not isinstance(p,P): raise Un('store to '+repr(p)[:50])
        st.mem[p.key()]=v
    def rget(s,st,p):
        k=p.key()
        if k in st.rng: return st.rng[k]
        return st.rng.get((p.o,'*'))
    # ---- values
    def val(s,env,v,ty=None):
        if v[0]=='v':
            if v[1] not in env: raise Un('value '+v[1])
            return env[v[1]]
        if v[0]=='i':
            if ty is not None and ty.k=='int' and ty.a==1: return z3.BoolVal(bool(v[1]))
            return rv(v[1])
        if v[0]=='f': return rv(str(v[1]) if not isinstance(v[1],float) else repr(v[1])) if not isinstance(v[1],float) or abs(v[1])<1e300 else rv(10)**400
        if v[0] in('null','zero'):
            if ty is not None and ty.k in('int','fp'): return rv(0)
            return P('null')
        if v[0] in('undef','poison'): return s.fresh('undef') if ty is None or ty.k!='ptr' else P('undef')
        if v[0]=='g': return P('g:'+v[1])
        if v[0]=='ce': return P('g:ce')
        raise Un('value '+repr(v)[:80])
    def rel(s,pred,a,b,isint):
        pr=pred[-2:]
        if pr in('eq','ne') or pred in('oeq','ueq','one','une'):
            eq= pred in('eq','oeq','ueq')
            if eq: return a==b
            return a!=b
        c=1 if isint else 0
        if pr=='lt': return a+c<=b if isint else a<b
        if pr=='le': return a<=b
        if pr=='gt': return a>=b+c if isint else a>b
        if pr=='ge': return a>=b
        raise Un('pred '+pred)
    def neg(s,c):
        """negation with integrality of dimension comparisons (a<=b-1 vs b<=a)"""
        if c.get_id() in s.intneg: return s.intneg[c.get_id()][1]
        return z3.Not(c)
    intneg={}
    def icmp(s,pred,a,b):
        c=s.rel(pred,a,b,True)
        if not z3.is_expr(c): c=z3.BoolVal(c)
        inv={'eq':'ne','ne':'eq','lt':'ge','le':'gt','gt':'le','ge':'lt'}
        base=pred[-2:]
        if base=='eq': n=z3.Or(a<=b-1,a>=b+1)
        elif base=='ne': c=z3.Or(a<=b-1,a>=b+1); n=(a==b)
        else: n=s.rel(inv[base],a,b,True)
        s.intneg[c.get_id()]=(c,n); return c
    # ---- execution
    def run(s,f,args,st,depth=0):
        if depth>14: raise Un('inline depth')
        ir.body(f); s.cfg(f)
        env={n:a for (t,n),a in zip(f.params,args)}
        return s.block(f,f.entry,None,env,st,depth,frozenset(),frozenset())
    def cfg(s,f):
        if hasattr(f,'_loops'): return
        succ={b:[] for b in f.blocks}
        for b,ins in f.blocks.items():
            I=ins[-1]
            succ[b]=list(I.x.get('dests',()))+([I.x['default']]+[d for _,d in I.x['cases']] if I.op=='switch' else [])+([I.x['normal']] if I.op=='invoke' else [])
        seen=set(); back=[]; 
        def dfs(root):
            stack=[(root,iter(succ[root]))]; on={root}; seen.add(root)
            while stack:
                u,it=stack[-1]
                for w in it:
                    if w in on: back.append((u,w))
                    elif w not in seen: seen.add(w); on.add(w); stack.append((w,iter(succ[w]))); break
                else: stack.pop(); on.discard(u)
        dfs(f.entry)
        pred={}
        for b,ss in succ.items():
            for x in ss: pred.setdefault(x,[]).append(b)
        loops={}
        for u,h in back:
            body=loops.setdefault(h,{h}); w=[u]
            while w:
                x=w.pop()
                if x in body: continue
                body.add(x); w+=pred.get(x,[])
        f._loops=loops; f._succ=succ
        # immediate post-dominators on the graph without back edges
        bs=set(back); fs={b:[x for x in ss if (b,x) not in bs] for b,ss in succ.items()}
        order=[]; seen2=set()
        def post(b):
            stack=[(b,iter(fs[b]))]; seen2.add(b)
            while stack:
                u,it=stack[-1]
                for w in it:
                    if w not in seen2: seen2.add(w); stack.append((w,iter(fs[w]))); break
                else: stack.pop(); order.append(u)
        post(f.entry)
        pd={}
        for b in order:   # successors first
            ss=[x for x in fs[b] if x in pd and f.blocks[x][-1].op not in('unreachable','resume')]
            pd[b]={b}|(set.intersection(*[pd[x] for x in ss]) if ss else set())
        f._ip={}
        for b in order:
            c=pd[b]-{b}
            for x in c:
                if pd[x]>=c: f._ip[b]=x
    def block(s,f,b,prev,env,st,depth,exitonly,inside):
        """exitonly: loop headers whose body may not be entered any more; inside: headers of loops being iterated once"""
        work=[]; 
        if b in f._loops and b not in exitonly:
            if b in inside: # second arrival: only the exit may be taken
                return s.body(f,b,0,prev,env,st,depth,exitonly|{b},inside)
            outs=s.body(f,b,0,prev,dict(env),st.fork(),depth,exitonly|{b},inside)   # zero iterations
            # find what an iteration changes, then run one generic iteration from a state where all of that is unknown
            chm,chr_=set(),set()
            for attempt in range(6):
                e2=dict(env); s2=st.fork(); pv={}
                for k in chm:
                    v=st.mem.get(k); 
                    if isinstance(v,P): raise Un('pointer changed in a loop')
                    s2.mem[k]=z3.Bool('hv!%d'%next(s.n)) if v is not None and z3.is_bool(v) else s.fresh('hv')
                for k in chr_: s2.rng[k]=None
                for I in f.blocks[b]:
                    if I.op!='phi': break
                    if I.ty.k=='ptr':
                        v0=[v for v,l in I.x['inc'] if l==prev]; v0=s.val(env,v0[0],I.ty) if v0 else env[I.res]; pv[I.res]=P(v0.o+'~',s.fresh('poff')); s2.rng[(v0.o+'~','*')]=None
                    else:
                        pv[I.res]=s.fresh('it'); 
                        if I.ty.k=='int': s2.pc.append(pv[I.res]>=0)
                e2.update(pv)
                s._mute=getattr(s,'_mute',0)
                no,nf=s.oblig,len(s.fails)
                fin=s.body(f,b,0,'#havoc',e2,s2,depth,exitonly,inside|{b})
                nm,nr=set(),set()
                for t,_ in s._backs.get((id(f),b,depth),[])+fin:
                    for k,v in t.mem.items():
                        if k[0].startswith('a!') and k not in st.mem: continue
                        if k not in s2.mem or not same(s2.mem[k],v):
                            if k in st.mem: nm.add(k)
                    for k,v in t.rng.items():
                        if k not in s2.rng or not same(s2.rng[k],v): nr.add(k)
                s._backs.pop((id(f),b,depth),None)
                if nm<=chm and nr<=chr_: break
                chm|=nm; chr_|=nr; s.oblig=no; del s.fails[nf:]
            else: raise Un('loop state does not stabilise')
            return outs+fin
        return s.body(f,b,0,prev,env,st,depth,exitonly,inside)
    _backs={}
    def body(s,f,b,i0,prev,env,st,depth,exitonly,inside):
        if time.time()>s.t1: raise Un('time limit')
        ins=f.blocks[b]
        if i0==0 and prev!='#havoc':
            upd={}
            for I in ins:
                if I.op!='phi': break
                for v,l in I.x['inc']:
                    if l==prev: upd[I.res]=s.val(env,v,I.ty); break
                else: raise Un('phi')
            env.update(upd)
        for i in range(i0,len(ins)):
            I=ins[i]; op=I.op
            if op=='phi': continue
            if op=='alloca': env[I.res]=P('a!%d.%s'%(next(s.n),I.res)); continue
            if op=='load': env[I.res]=s.load(st,s.val(env,I.args[0]),I.ty); continue
            if op=='store': s.store(st,s.val(env,I.args[1]),s.val(env,I.args[0],I.ty)); continue
            if op=='getelementptr': env[I.res]=s.gep(env,I); continue
            if op in('call','invoke'):
                rs=s.call(f,I,env,st,depth)
                if rs is not None:
                    out=[]
                    for st2,rv_ in rs:
                        e2=dict(env) if len(rs)>1 else env
                        if I.res: e2[I.res]=rv_
                        if op=='invoke': out+=s.jump(f,b,I.x['normal'],e2,st2,depth,exitonly,inside)
                        else: out+=s.body(f,b,i+1,prev,e2,st2,depth,exitonly,inside)
                    return out
                raise Un('call')
            if op=='br':
                D=I.x['dests']
                if len(D)==1: return s.jump(f,b,D[0],env,st,depth,exitonly,inside)
                c=s.val(env,I.args[0],ir.Ty('int',1)); return s.fork2(f,b,c,D[0],D[1],env,st,depth,exitonly,inside)
            if op=='switch':
                v=s.val(env,I.args[0],I.ty); out=[]; rest=[]
                for c,d in I.x['cases']:
                    q=(v==c); rest.append(z3.Or(v<=c-1,v>=c+1))
                    if s.feasible(st,q):
                        s2=st.fork(); s2.pc.append(q); out+=s.jump(f,b,d,dict(env),s2,depth,exitonly,inside)
                q=z3.And(rest) if rest else z3.BoolVal(True)
                if s.feasible(st,q): s2=st.fork(); s2.pc.append(q); out+=s.jump(f,b,I.x['default'],dict(env),s2,depth,exitonly,inside)
                return out
            if op=='ret': return [(st,s.val(env,I.args[0],I.ty) if I.args else None)]
            if op in('unreachable','resume'): return []
            env[I.res]=s.arith(env,st,I)
        raise Un('block end')
    def jump(s,f,b,d,env,st,depth,exitonly,inside):
        if s.stops and s.stops[-1]==(id(f),d,depth):
            env=dict(env); upd={}
            for I in f.blocks[d]:
                if I.op!='phi': break
                for v,l in I.x['inc']:
                    if l==b: upd[I.res]=s.val(env,v,I.ty); break
            env.update(upd); s.stopped[-1].append((st,env)); return []
        for h in list(exitonly):
            L=f._loops.get(h)
            if L and b in L and b==h and d in L: return []         # body of a finished loop
            if L and b in L and d not in L: exitonly=exitonly-{h}; inside=inside-{h}
        for h in list(inside):
            L=f._loops[h]
            if b==h and d not in L: return []      # leaving without an iteration is the zero-iteration case, handled separately
            if d==h and b in L: s._backs.setdefault((id(f),h,depth),[]).append((st.fork(),None))
        return s.block(f,d,b,env,st,depth,exitonly,inside)
    def fork2(s,f,b,c,t,e,env,st,depth,exitonly,inside):
        if not z3.is_expr(c): c=z3.BoolVal(bool(c))
        out=[]; c1=z3.simplify(c)
        j=f._ip.get(b); hin=[h for h,L in f._loops.items() if b in L]
        if j is not None and not(z3.is_true(c1) or z3.is_false(c1)) and [h for h,L in f._loops.items() if j in L and h!=j]==hin and (b not in f._loops):
            key=(id(f),j,depth); s.stops.append(key); s.stopped.append([]); n0=len(st.pc)
            try: out=s.arms(f,b,c,c1,t,e,env,st,depth,exitonly,inside)
            finally: s.stops.pop(); got=s.stopped.pop()
            merged=[]
            for x in got:
                for i,y in enumerate(merged):
                    m=s.joine(y,x,n0)
                    if m is not None: merged[i]=m; break
                else: merged.append(x)
            if DBG and len(merged)>1: print('unmerged',len(got),len(merged),basename(f.dem),b,j,got[0][0].log[-3:],got[-1][0].log[-3:])
            for st2,e2 in merged:
                if s.stops and s.stops[-1]==key: s.stopped[-1].append((st2,e2)); continue
                out=out+(s.block if j in f._loops else lambda f_,j_,p_,*a: s.body(f_,j_,0,p_,*a))(f,j,'#havoc',e2,st2,depth,exitonly,inside)
            return out
        if DBG and not(z3.is_true(c1) or z3.is_false(c1)): print('fork',basename(f.dem),b,j,b in f._loops)
        return s.arms(f,b,c,c1,t,e,env,st,depth,exitonly,inside)
    def joine(s,x,y,n0):
        a,ea=x; b,eb=y
        r=s.join(a,None,b,None,n0)
        if r is None: return None
        sel=s.lastsel; e={}
        for k in ea:
            if k not in eb: continue
            p,q=ea[k],eb[k]
            if same(p,q): e[k]=p
            elif isinstance(p,P) or isinstance(q,P) or p is None or q is None:
                if isinstance(p,P) and isinstance(q,P) and p.o.startswith('a!') : continue
                if isinstance(p,P) and isinstance(q,P) and p.o.startswith('mm!') and q.o.startswith('mm!'): continue
                return None
            else:
                kk=(p.get_id(),q.get_id())
                if kk in s.mixc: e[k]=s.mixc[kk][0]; continue
                m=z3.Bool('mb!%d'%next(s.n)) if z3.is_bool(p) else s.fresh('mg')
                s.mixc[kk]=(m,p,q); r[0].pc.append(m==z3.If(sel,p,q)); e[k]=m
        return r[0],e
    def arms(s,f,b,c,c1,t,e,env,st,depth,exitonly,inside):
        out=[]
        for q,d in((c,t),(s.neg(c),e)):
            if z3.is_true(c1) and d is e and q is not c: continue
            if z3.is_false(c1) and q is c: continue
            if not (z3.is_true(c1) or z3.is_false(c1)) and not s.feasible(st,q): continue
            s2=st.fork(); s2.pc.append(q); out+=s.jump(f,b,d,dict(env),s2,depth,exitonly,inside)
        return out
    def gep(s,env,I):
        p=s.val(env,I.args[0]); idx=I.x['idx']; ty=I.ty
        if ty.k=='named' and len(idx)>=2 and idx[1][1][0]=='i':
            c=s.consts.get((ty.a,idx[1][1][1]))
            if c is not None: return P('const:%d'%c) if c>=0 or 'ZRing' in ty.a or 'Balanced' in ty.a else P('const!mone')
        if not isinstance(p,P): raise Un('gep base')
        off=p.off; cur=ty
        for j,(t,v) in enumerate(idx):
            x=s.val(env,v,t); c=x.as_long() if z3.is_rational_value(x) and x.denominator_as_long()==1 else None
            if j==0: sz,_=ir.size_align(s.M,cur); off=off+(c*sz if c is not None else x*sz)
            else:
                rt=ir.resolve(s.M,cur)
                if rt.k=='struct': o,cur=ir.field_off(s.M,cur,c); off=off+o
                else: cur=rt.a; sz,_=ir.size_align(s.M,cur); off=off+(c*sz if c is not None else x*sz)
        return P(p.o,off)
    def arith(s,env,st,I):
        op=I.op
        a=[s.val(env,x,I.x.get('from',I.ty) if op!='select' else None) for x in I.args] if op!='select' else None
        if op=='select':
            c=s.val(env,I.args[0],ir.Ty('int',1)); x,y=s.val(env,I.args[1],I.ty),s.val(env,I.args[2],I.ty)
            if isinstance(x,P) or isinstance(y,P):
                if isinstance(x,P) and isinstance(y,P) and x.o==y.o: return P(x.o,z3.If(c,rv(x.off) if isinstance(x.off,int) else x.off,rv(y.off) if isinstance(y.off,int) else y.off))
                raise Un('select of pointers')
            return z3.If(c,x,y)
        if op=='fneg': return -a[0]
        if op in('icmp','fcmp'):
            if isinstance(a[0],P) or isinstance(a[1],P):
                if a[0].key()==a[1].key(): v=True
                elif a[0].o!=a[1].o: v=False
                else: raise Un('pointer compare')
                return z3.BoolVal(v if I.x['pred']=='eq' else not v)
            if z3.is_bool(a[0]) or z3.is_bool(a[1]):
                x,y=[q if z3.is_bool(q) else q!=0 for q in a]; return (x==y) if I.x['pred']=='eq' else z3.Xor(x,y)
            if op=='icmp':
                d=z3.simplify(a[0]-a[1])
                if z3.is_add(d) or not z3.is_rational_value(z3.simplify(a[1])): st.pc.append(z3.Or(d<=0,d>=1) if I.x['pred'][1:]!='lt' else z3.Or(d<=-1,d>=0))
                return s.icmp(I.x['pred'],a[0],a[1])
            r=s.rel(I.x['pred'],a[0],a[1],False)
            for i in(0,1):
                if a[i].get_id() in s.quot and z3.is_expr(r):   # comparison with a quotient, multiplied out
                    _,x,y=s.quot[a[i].get_id()]; o=a[1-i]*y; l,h=(x,o) if i==0 else (o,x)
                    st.pc.append(z3.Implies(y>0,r==s.rel(I.x['pred'],l,h,False)))
                    l,h=h,l; st.pc.append(z3.Implies(y<0,r==s.rel(I.x['pred'],l,h,False)))
            return r
        if op in('add','fadd'): return a[0]+a[1]
        if op in('sub','fsub'): return a[0]-a[1]
        if op in('mul','fmul'):
            r=a[0]*a[1]
            if s.ovf and op=='mul': s.prove(st,z3.And(r<=s.F.MAX,r>=-s.F.MAX),'integer product leaves the representable range')
            return r
        if op in('bitcast','freeze','fpext','fptrunc','uitofp','sitofp','sext'):
            if op=='uitofp' or op=='sitofp':
                if z3.is_bool(a[0]): return z3.If(a[0],Z1,Z0)
            return a[0]
        if op=='zext':
            return z3.If(a[0],Z1,Z0) if z3.is_bool(a[0]) else a[0]
        if op=='trunc':
            if I.ty.a==1: return a[0]!=0
            return a[0]
        if op=='fdiv':
            q=s.fresh('q'); b=a[1]; s.quot[q.get_id()]=(q,a[0],b)
            st.pc.append(z3.Implies(b!=0,q*b==a[0])); st.pc.append(z3.Implies(z3.And(b==0,a[0]>0),q>=rv(2)**80)); return q
        if op in('fptoui','fptosi'):
            q=s.fresh('fl')
            if a[0].get_id() in s.quot:
                _,x,y=s.quot[a[0].get_id()]; st.pc.append(z3.Implies(z3.And(x>=0,y>0),z3.And(q*y<=x)))
            st.pc+= [z3.Implies(a[0]>=0,z3.And(q<=a[0],q>a[0]-1,q>=0,z3.Or(q==0,q>=1)))]; return q
        if op in('udiv','sdiv','urem'):
            k=(a[0].get_id(),a[1].get_id())
            if k not in s.dvc: s.dvc[k]=(s.fresh('dv'),s.fresh('rm'),a[0],a[1])
            q,r=s.dvc[k][:2]; g=z3.And(a[0]>=0,a[1]>0)
            st.pc.append(z3.Implies(g,z3.And(q>=0,z3.Or(q==0,q>=1),q<=a[0],r>=0,z3.Or(r==0,r>=1),r<=a[1]-1,r<=a[0])))
            if z3.is_rational_value(a[1]): st.pc.append(a[0]==q*a[1]+r)
            elif op=='sdiv': st.pc.append(z3.Implies(g,z3.And(q*a[1]<=a[0],a[0]<=q*a[1]+a[1]-1)))
            else: st.lz.append(z3.Implies(g,a[0]==q*a[1]+r))
            return r if op=='urem' else q
        if op in('and','or','xor') and I.ty.k=='int' and I.ty.a==1:
            x,y=[q if z3.is_bool(q) else q!=0 for q in a]
            return z3.And(x,y) if op=='and' else z3.Or(x,y) if op=='or' else z3.Xor(x,y)
        if op in('shl','lshr','and','or','xor','ashr'):
            cb=z3.simplify(a[1]) if z3.is_expr(a[1]) and not z3.is_bool(a[1]) else a[1]
            if op=='shl' and z3.is_rational_value(cb) and cb.denominator_as_long()==1 and 0<=cb.numerator_as_long()<40: return (z3.If(a[0],rv(1),rv(0)) if z3.is_bool(a[0]) else a[0])*(2**cb.numerator_as_long())
            q=s.fresh('bit'); st.pc.append(z3.Or(q==0,q>=1))
            if op=='lshr': st.pc+=[q<=a[0],q>=0]; s.shr[q.get_id()]=(q,a[0],a[1]); st.pc.append(z3.Implies(z3.And(a[0]>=1,a[1]>=1),q>=1)) # assumption: no more levels than the dimension has bits
            if op=='shl' and a[0].get_id() in s.shr and z3.simplify(s.shr[a[0].get_id()][2]-1-a[1]).eq(rv(0)): x,w=s.shr[a[0].get_id()][1:]; st.pc+=[2*q<=x,q>=a[0],z3.Implies(DIV(x,w),2*q==x),DIV(q,w-1)]
            return q
        raise Un('op '+op)
    def merge(s,outs,n0):
        """join the return states of an inlined callee that differ in scalars only"""
        res=[]
        for st,v in outs:
            for i,(t,w) in enumerate(res):
                m=s.join(t,w,st,v,n0)
                if m is not None: res[i]=m; break
            else: res.append((st,v))
        return res
    def join(s,a,va,b,vb,n0):
        if len(a.pc)<n0 or len(b.pc)<n0 or any(not x.eq(y) for x,y in zip(a.pc[:n0],b.pc[:n0])): return None
        ca=z3.And(a.pc[n0:]) if len(a.pc)>n0 else z3.BoolVal(True); cb=z3.And(b.pc[n0:]) if len(b.pc)>n0 else z3.BoolVal(True)
        def mix(x,y):
            if same(x,y): return x
            if isinstance(x,P) or isinstance(y,P) or x is None or y is None: raise Un('mix %r %r'%(x,y))
            kk=(x.get_id(),y.get_id())
            if kk in s.mixc: return s.mixc[kk][0]
            if z3.is_bool(x): m=z3.Bool('mb!%d'%next(s.n))
            else: m=s.fresh('mg')
            s.mixc[kk]=(m,x,y); defs.append(m==z3.If(sel,x,y)); return m
        s.mixc={}; defs=[]; sel=z3.Bool('sel!%d'%next(s.n)); s.lastsel=sel
        try:
            v=mix(va,vb) if va is not vb else va
            mem={}
            for k in set(a.mem)|set(b.mem):
                if k in a.mem and k in b.mem:
                    try: mem[k]=mix(a.mem[k],b.mem[k])
                    except Un:
                        if not k[0].startswith('a!'): raise
                elif k[0].startswith(('a!','mm!')): continue
                else: mem[k]=a.mem.get(k,b.mem.get(k))   # first read of the same unknown cell
            rg={}
            for k in set(a.rng)|set(b.rng):
                x,y=[t.rng[k] if k in t.rng else t.rng.get((k[0],'*'),'?') for t in (a,b)]
                if x=='?' or y=='?': continue      # temporaries of one arm only
                if x is None or y is None:
                    if x is not y: raise Un('range')
                    rg[k]=None; continue
                if x[2] is not None and y[2] is not None and not all(same(p,q) for p,q in zip(x[2],y[2])): raise Un('mix')
                if not(same(x[0],y[0]) and same(x[1],y[1])): raise Un('range')
                ux,uy=[w[3] if len(w)>3 else 'end' for w in(x,y)]
                if ux is not uy and not (ux==uy=='end'): raise Un('mix')
                rg[k]=(x[0],x[1],x[2] if x[2] is not None else y[2])+((ux,) if ux!='end' else ())
        except Un as e:
            if DBG: print('nojoin',e,a.log[-3:],b.log[-3:])
            return None
        st=St(); st.mem=mem; st.rng=rg; st.pc=a.pc[:n0]+[z3.If(sel,ca,cb)]+defs; st.lz=a.lz+[x for x in b.lz if not any(x is y for y in a.lz)]; st.log=list(a.log); return st,v
    def devirt(s,v,I):
        if not isinstance(v,P) or v.o not in s.org or not isinstance(s.org[v.o][1],int): return None
        slot=s.org[v.o][1]//8; names={}
        for n,d in s.M.globals.items():
            if n.startswith('_ZTVN6Givaro'):
                vt=re.findall(r'ptr (null|@[\w.$]+)',d)[2:]
                if slot<len(vt) and vt[slot]!='null':
                    g=s.M.funcs.get(vt[slot][1:])
                    if g is None: continue
                    b=basename(g.dem).split('::')[-1]
                    if b=='__cxa_pure_virtual' or len(g.params)!=len(I.args): continue
                    names.setdefault(b,vt[slot][1:])
        return list(names.values())[0] if len(names)==1 else None
    # ---- calls
    def call(s,f,I,env,st,depth):
        c=I.x['callee']
        if c[0]!='g':
            v=s.val(env,c,ir.Ty('ptr')) if c[0]=='v' else None; fn=s.devirt(v,I)
            if fn is None: raise Un('indirect call')
        else: fn=c[1]
        g=s.M.funcs.get(fn); dem=g.dem if g is not None else fn
        args=[s.val(env,a,t) for a,t in zip(I.args,I.x['atys'])]
        if fn.startswith('llvm.'):
            if re.match(r'llvm\.(lifetime|dbg|assume|stacksave|stackrestore)',fn): return [(st,None)]
            if fn.startswith('llvm.memcpy'):
                d,q=args[0],args[1]
                for k,v in list(st.mem.items()):
                    if k[0]==q.o and isinstance(k[1],int) and isinstance(q.off,int) and k[1]>=q.off: st.mem[(d.o,d.off+k[1]-q.off)]=v
                return [(st,None)]
            if fn.startswith('llvm.memset'): return [(st,None)]
            if fn.startswith('llvm.fabs'): return [(st,zabs(args[0]))]
            if fn.startswith('llvm.fmuladd') or fn.startswith('llvm.fma'): return [(st,args[0]*args[1]+args[2])]
            if fn.startswith('llvm.floor'):
                q=s.fresh('fl'); st.pc+=[q<=args[0],q>args[0]-1]; return [(st,q)]
            raise Un(fn)
        bn=basename(dem); st.log.append(bn.split('::')[-1])
        import rngspec
        r=rngspec.contract(s,f,bn,dem,args,st,I)
        if r is not NotImplemented:
            s.uses.add(bn); return r
        if g is None or g.decl: raise Un('call of undefined '+dem[:100])
        s.inl.add(bn); n0=len(st.pc); base=list(st.pc)
        return s.merge(s.run(g,args,st,depth+1),n0)
def same(a,b):
    if a is b: return True
    if a is None or b is None: return a is b
    if isinstance(a,tuple): return isinstance(b,tuple) and same(a[0],b[0]) and same(a[1],b[1])
    if isinstance(a,P): return isinstance(b,P) and a.key()==b.key()
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
def helper_offsets(M):
    """byte offsets of the helper members, per helper class, read off the probe functions of the driver"""
    if hasattr(M,'_hoff'): return M._hoff
    d={}
    for f in M.funcs.values():
        m=re.search(r'vp_h_(\w+)<(FFLAS::MMHelper<.*)>\(',f.dem)
        if not m or f.decl: continue
        ir.body(f); off=0; ok=False
        for b in f.order:
            for I in f.blocks[b]:
                if I.op=='getelementptr':
                    cur=I.ty; off=0
                    for j,(t,v) in enumerate(I.x['idx']):
                        if j==0: continue
                        o,cur=ir.field_off(M,cur,v[1]); off+=o
                    ok=True
        d.setdefault(norm(m.group(2)),{})[m.group(1)]=off
    M._hoff=d; return d
import os
DBG=os.environ.get('RDBG')
def norm(t): return re.sub(r'\s+','',t)
