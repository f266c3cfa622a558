"""C17: forwarding contracts of the C interface (interfaces/libs/*.C). The wrappers are taken from the IR of /repo's files;
   every normally returning path of a wrapper is enumerated symbolically (arguments are symbols, memory is a map of the
   wrapper's own locals) and must contain exactly one call of the template routine the wrapper is named after, on the field
   the arguments designate, with every argument forwarded in its position, and return that call's result."""
import os,re,subprocess,itertools,json
import ir,build
from lib import basename
class Un(Exception): pass
LIBS=['fflas_lvl1','fflas_lvl2','fflas_lvl3','ffpack']
SUF=re.compile(r'(_[123])?(_modular)?_(double|float|int32_t)$')
# wrappers named after the in-place form of a template overload
INPL={'freducein':'freduce','fgetrsin':'fgetrs','fgesvin':'fgesv','Invertin':'Invert','getTriangularin':'getTriangular','getEchelonFormin':'getEchelonForm','getReducedEchelonFormin':'getReducedEchelonForm','fgetrsv':'fgetrs'}
# operations whose two vector operands are interchangeable by their own contracts
SYM={'fequal_1','fdot_1','fswap_1'}
OUT1={'Det'}   # template returns its result through a leading reference argument
def expected(name,tgt,body):
    """documented correspondence between the wrapper's arguments (field and representation flag removed) and the template's"""
    if re.match(r'p\w*EchelonForm$',tgt): return [body[:7]+[('const',0)]+body[7:]]   # default number of threads
    if SUF.sub(r'\1',name) in SYM: return [body,body[:1]+body[3:5]+body[1:3]]
    return [body]
EXTRA={'ftrtri':[r'\d+'],'Det':['0','0']}   # trailing arguments that are the template's own tuning defaults
ELT={'double':'double','float':'float','int32_t':'int','int':'int'}
def cname(f):
    m=re.match(r'(\w+)\(',f.dem); return m.group(1) if m else f.name
def is_wrapper(f):
    n=cname(f)
    return not f.decl and not n.startswith('_') and (f.name==n or f.name.startswith('_Z%d%s'%(len(n),n)))
def target(name):
    n=SUF.sub('',name); return INPL.get(n,n)
class Interp:
    def __init__(s,M,tgt,expand=None): s.M=M; s.tgt=tgt; s.n=itertools.count(); s.paths=0; s.expand=expand or (lambda c,dem,g: False)
    def v(s,env,mem,a,ty=None):
        if a[0]=='v':
            if a[1] in env: return env[a[1]]
            raise Un('value '+a[1])
        if a[0] in('i','f'): return ('const',a[1])
        if a[0] in('null','zero'): return ('const',0)
        if a[0]=='undef': return ('undef',)
        if a[0]=='g': return ('global',a[1])
        raise Un('value '+repr(a)[:80])
    def run(s,f,args,depth=0):
        """-> list of (conds, calls, retval)"""
        env={n:a for (t,n),a in zip(f.params,args)}
        return s.block(f,None,None,env,{},[],[],depth,0)
    def block(s,f,b,prev,env,mem,conds,calls,depth,steps):
        ir.body(f)
        if b is None: b=f.entry
        while True:
            steps+=1
            if steps>400: raise Un('loop')
            upd={}
            for I in f.blocks[b]:
                if I.op!='phi': break
                for val,lab in I.x['inc']:
                    if lab==prev: upd[I.res]=s.v(env,mem,val,I.ty); break
                else: raise Un('phi')
            env.update(upd); nxt=None
            for I in f.blocks[b]:
                op=I.op
                if op=='phi': continue
                if op=='alloca': env[I.res]=('loc',f'{I.res}.{depth}.{next(s.n)}'); continue
                if op=='store':
                    a,p=I.args[0],I.args[1]; p=s.v(env,mem,p)
                    if p[0]!='loc': raise Un('store to '+repr(p)[:60])
                    mem[p]=s.v(env,mem,a,I.ty if I.ty is not None else None); continue
                if op=='load':
                    p=s.v(env,mem,I.args[0]); 
                    if p in mem: env[I.res]=mem[p]
                    elif p[0]=='loc': env[I.res]=('undef',)
                    else: env[I.res]=('load',p,len(calls))
                    continue
                if op in('zext','trunc','sext','bitcast','freeze'):
                    x=s.v(env,mem,I.args[0]); t=I.ty
                    if x[0]=='par' and x[2]=='i1' : env[I.res]=x
                    elif op in('bitcast','freeze'): env[I.res]=x
                    elif x[0]=='const': env[I.res]=x
                    else: env[I.res]=('cast',op,repr(t),x)
                    continue
                if op in('call','invoke'):
                    r=s.call(f,I,env,mem,conds,calls,depth)
                    if isinstance(r,list):
                        outs=[]
                        for (cd,cl,rv,me) in r:
                            e2=dict(env); 
                            if I.res: e2[I.res]=rv
                            m2=dict(me)
                            if op=='invoke': outs+=s.block(f,I.x['normal'],b,e2,m2,cd,cl,depth,steps)
                            else: outs+=s.rest(f,b,I,e2,m2,cd,cl,depth,steps,prev)
                        return outs
                    if I.res: env[I.res]=r
                    if op=='invoke': nxt=I.x['normal']; break
                    continue
                if op=='br':
                    D=I.x['dests']
                    if len(D)==2:
                        c=s.v(env,mem,I.args[0]); neg=False
                        while c[0]=='not': c=c[1]; neg=not neg
                        T,F=(D[1],D[0]) if neg else D
                        if c[0]=='const': nxt=T if c[1] else F; break
                        known=[v for x,v in conds if x==c]
                        if known: nxt=T if known[0] else F; break
                        out=[]
                        for val,lab in((True,T),(False,F)): out+=s.block(f,lab,b,dict(env),dict(mem),conds+[(c,val)],list(calls),depth,steps)
                        return out
                    nxt=D[0]; break
                if op=='ret':
                    s.paths+=1
                    return [(conds,calls,s.v(env,mem,I.args[0],I.ty) if I.args else None,mem)]
                if op in('unreachable','resume'): return []
                if op=='icmp' or op=='fcmp':
                    env[I.res]=('cmp',I.x.get('pred'),)+tuple(s.v(env,mem,a) for a in I.args); continue
                if op=='xor' : 
                    a,c=[s.v(env,mem,x,I.ty) for x in I.args]
                    env[I.res]=('not',a) if c==('const',1) or c==('const',-1) else ('op','xor',a,c); continue
                if op=='getelementptr':
                    env[I.res]=('gep',s.v(env,mem,I.args[0]),re.sub(r'.*getelementptr ','',I.line)[:200]); continue
                env[I.res]=(('op',op,I.x.get('pred'))+tuple(s.v(env,mem,a,I.ty) for a in I.args))
            if nxt is None: raise Un('block end '+b)
            prev,b=b,nxt
    def rest(s,f,b,I0,env,mem,conds,calls,depth,steps,prev):
        # continue the block after instruction I0: run on a copy of the function with a split block
        g=ir.Func(f.name); g.params=f.params; g.blocks=dict(f.blocks); g.entry=f.entry; g.dem=f.dem
        k=next(i for i,x in enumerate(f.blocks[b]) if x is I0)
        nb=b+'.r%d'%k; g.blocks[nb]=f.blocks[b][k+1:]
        for l,bl in list(g.blocks.items()):
            n2=[]
            for x in bl:
                if x.op=='phi':
                    y=ir.Instr('phi',x.res,x.ty,x.args,dict(x.x),x.line)
                    y.x['inc']=list(y.x['inc'])+[(v,nb) for v,lab in y.x['inc'] if lab==b]
                    n2.append(y)
                else: n2.append(x)
            g.blocks[l]=n2
        return s.block(g,nb,prev,env,mem,conds,calls,depth,steps)
    def call(s,f,I,env,mem,conds,calls,depth):
        cal=I.x['callee']
        if cal[0]!='g': raise Un('indirect call')
        cal=cal[1]; args=[s.v(env,mem,a) for a in I.args]
        g=s.M.funcs.get(cal); dem=g.dem if g is not None else cal; bn=basename(dem)
        if cal.startswith('llvm.'):
            if 'lifetime' in cal or 'dbg' in cal or 'assume' in cal: return None
            raise Un(cal)
        if 'Givaro::Modular' in dem and re.search(r'::~\w+\(',dem): return None
        if 'Givaro::Modular' in dem and (re.search(r'C[12]E|CI2',cal)):
            x=args[1] if len(args)>1 else ('undef',)
            if x[0]=='loc': x=mem.get(x,('undef',))
            cls=re.search(r'Givaro::(Modular(?:Balanced)?)<(\w+)',dem)
            mem[args[0]]=('field',cls.group(1),cls.group(2),x); return None
        if 'Givaro::' in dem and 'cardinality' in dem: return ('card',mem.get(args[0],args[0]))
        if bn.split('::')[-1]==s.tgt and bn!=f.name and not s.expand(cal,dem,g):
            A=[]
            for a in args:
                if a in mem: a=mem[a]
                A.append(a)
            r=('ret',len(calls)); calls.append((bn,dem,A)); return r
        if g is not None and not g.decl and not re.match(r'(FFLAS|FFPACK)::',bn) or (g is not None and not g.decl and s.expand(cal,dem,g)):
            if depth>6: raise Un('depth')
            sub=Interp.run; env2={n:a for (t,n),a in zip(g.params,args)}
            return s.block(g,None,None,env2,dict(mem),list(conds),list(calls),depth+1,0)
        A=[mem.get(a,a) for a in args]
        r=('ret',len(calls)); calls.append((bn,dem,A)); return r
def check(M,f):
    name=cname(f); tgt=target(name); pars=[]
    for t,n in f.params: pars.append(('par',n,'i1' if t.k=='int' and t.a==1 else repr(t)))
    it=Interp(M,tgt); names=[p[1].lstrip('%') for p in pars]
    paths=it.run(f,pars); fails=[]; obl=0
    modular='_modular' in name
    body=pars[1:] if modular else pars[:]
    pos=None
    if modular and names[-1]=='positive' or (modular and body and body[-1][2]=='i1' and names[-1].startswith('pos')): pos=body[-1]; body=body[:-1]
    if not paths: raise Un('no returning path')
    for conds,calls,ret,mem in paths:
        def bad(msg): fails.append(dict(kind='forwarding',msg=f'{name}: {msg}',where=str([(c[1] if c[0]=="par" else str(c)[:40],v) for c,v in conds])))
        obl+=1
        if len(calls)!=1: bad('calls '+(', '.join(c[0] for c in calls) or 'nothing')+f' instead of {tgt} exactly once'); continue
        bn,dem,A=calls[0]
        if bn.split('::')[-1]!=tgt: bad(f'calls {bn} instead of {tgt}'); continue
        A=list(A)
        if modular:
            obl+=1
            F=A.pop(0) if A else ('undef',)
            et=re.search(r'_(double|float|int32_t)$',name).group(1)
            if F[0]!='field': bad('first argument is not a field built by the wrapper'); continue
            if F[3]!=pars[0]: bad(f'field modulus is {F[3]} instead of the argument p')
            if F[2]!=ELT[et]: bad(f'field over {F[2]} instead of {et}')
            if pos is not None:
                v=[val for c,val in conds if c==pos]
                want='Modular' if v and v[0] else 'ModularBalanced'
                if not v: bad('the representation does not depend on the argument positive')
                elif F[1]!=want: bad(f'{F[1]} used for positive={v[0]}')
            elif F[1]!='Modular' and F[1]!='ModularBalanced': bad('field '+F[1])
        other=[c for c,_ in conds if c!=pos]
        if other: bad('forwarding depends on '+str(other)[:100])
        out=None
        if tgt in OUT1 and A: out=A.pop(0)
        best=None
        for B in expected(name,tgt,body):
            errs=[]
            for i,p in enumerate(B):
                if i>=len(A): errs.append(f'argument {show(p)} is not forwarded'); break
                if A[i]!=p: errs.append(f'argument {i+1} of {tgt} is {show(A[i])} instead of {show(p)}')
            for i,a in enumerate(A[len(B):]):
                if a[0]!='field' and not(i<len(EXTRA.get(tgt,[])) and re.fullmatch(EXTRA[tgt][i],show(a))): errs.append(f'extra argument {len(B)+i+1} of {tgt} is {show(a)}')
            if best is None or len(errs)<len(best): best=errs
        obl+=len(A)
        for e in best: bad(e)
        if f.ret is not None and f.ret.k!='void':
            obl+=1
            if ret!=('ret',0) and not(out is not None and (ret[0]=='load' and ret[1] in(('ret',0),out) or ret==('undef',))): bad(f'returns {show(ret)} instead of the result of {tgt}')
    return obl,fails
def show(a):
    if a is None: return 'nothing'
    if a[0]=='par': return a[1]
    if a[0]=='const': return str(a[1])
    return str(a)[:80]

def decls(path):
    """function names declared by a C header of the interface (comments and disabled parts removed)"""
    r=subprocess.run(['clang-18','-x','c','-std=c11','-fsyntax-only','-w','-Xclang','-ast-dump=json','-I',build.HERE+'/engine/include','-I',build.REPO,path],capture_output=True,text=True)
    if r.returncode and not r.stdout: raise Un(r.stderr[:300])
    out=[]
    for d in json.loads(r.stdout)['inner']:
        if d.get('kind')=='FunctionDecl':
            f=(d.get('loc',{}).get('file') or '')
            out.append((d['name'],d['type']['qualType']))
    return out
def irfile(lib,tmp):
    src=os.path.join(tmp,lib+'_w.cc'); open(src,'w').write('#include "fflas-ffpack/interfaces/libs/%s.C"\n'%lib)
    ll=os.path.join(tmp,lib+'_w.ll'); o=os.path.join(tmp,lib+'_w.o.ll')
    r=subprocess.run(build.CXX+['-I',build.HERE+'/engine/include','-I',build.REPO,'-S','-emit-llvm',src,'-o',ll],capture_output=True,text=True)
    if r.returncode: raise Un('extraction failed: '+r.stderr[:600])
    r=subprocess.run(['opt-18','-S','-passes=sroa,simplifycfg',ll,'-o',o],capture_output=True,text=True)
    if r.returncode: raise Un('opt: '+r.stderr[:300])
    os.unlink(ll); return o
ENUMC='#include "fflas-ffpack/interfaces/libs/fflas_c.h"\n#include "fflas-ffpack/interfaces/libs/ffpack_c.h"\n#include "fflas-ffpack/fflas/fflas.h"\n#include "fflas-ffpack/ffpack/ffpack.h"\n'
ENUMS=[('FflasNoTrans','FFLAS::FflasNoTrans'),('FflasTrans','FFLAS::FflasTrans'),('FflasUpper','FFLAS::FflasUpper'),('FflasLower','FFLAS::FflasLower'),('FflasNonUnit','FFLAS::FflasNonUnit'),('FflasUnit','FFLAS::FflasUnit'),('FflasLeft','FFLAS::FflasLeft'),('FflasRight','FFLAS::FflasRight'),
 ('FfpackSlabRecursive','FFPACK::FfpackSlabRecursive'),('FfpackTileRecursive','FFPACK::FfpackTileRecursive'),('FfpackSingular','FFPACK::FfpackSingular')]
def prove(tmp,tier,seed):
    R=dict(obligations=0,discharged=0,fails=[],undecided=[],evaluations=0,functions=[],backend='symbolic path enumeration over LLVM IR')
    from concurrent.futures import ThreadPoolExecutor
    def one(l):
        try: return irfile(l,tmp)
        except Un as e: return e
    with ThreadPoolExecutor(4) as ex: irs=list(ex.map(one,LIBS))
    defined={}; src={}
    for l,o in zip(LIBS,irs):
        if isinstance(o,Un): R['undecided'].append(f'{l}: {o}'); continue
        M=ir.parse_module(o)
        for f in M.funcs.values():
            if not is_wrapper(f): continue
            n=cname(f); defined[n]=f.name==n
            try: ob,fl=check(M,f)
            except Un as e: R['undecided'].append(f'{n}: {e}'); continue
            except RecursionError: R['undecided'].append(n+': recursion'); continue
            R['obligations']+=ob; R['discharged']+=ob-min(ob,len(fl)); R['functions'].append(n)
            for x in fl: x['where']='interfaces/libs/%s.C %s'%(l,x['where'])
            R['fails']+=fl
        os.unlink(o)
    # every declared C entry point exists with C linkage; the C enumerators have the library's values
    for h in('fflas_c','ffpack_c'):
        try: D=decls(os.path.join(build.REPO,'fflas-ffpack/interfaces/libs/%s.h'%h))
        except Exception as e: R['undecided'].append(f'{h}.h: {str(e)[:200]}'); continue
        for n,ty in D:
            if not SUF.search(n) and n not in defined: continue
            R['obligations']+=1
            if defined.get(n) is True: R['discharged']+=1
            elif not any(isinstance(o,Un) for o in irs): R['fails'].append(dict(kind='linkage',msg=f'{n}: declared C entry point '+('is defined with C++ linkage only' if n in defined else 'is not defined'),where=f'interfaces/libs/{h}.h'))
    src=os.path.join(tmp,'enumc.cc')
    with open(src,'w') as g:
        g.write(ENUMC)
        for a,b in ENUMS: g.write('static_assert((int)::%s==(int)%s,"%s");\n'%(a,b,a))
    r=subprocess.run(build.CXX+['-I',build.HERE+'/engine/include','-I',build.REPO,'-fsyntax-only',src],capture_output=True,text=True)
    R['obligations']+=len(ENUMS); bad=re.findall(r'static assertion failed[^\n]*?: (\w+)',r.stderr)
    if r.returncode and not bad: R['undecided'].append('enumerators: '+r.stderr[:300]); R['obligations']-=len(ENUMS)
    else:
        R['discharged']+=len(ENUMS)-len(bad)
        for b in bad: R['fails'].append(dict(kind='enumerator',msg=f'C enumerator {b} differs from the library value',where='interfaces/libs/*_c.h'))
    return R
