"""Runs one property: extraction, proof jobs, concrete stand-ins and replays, evidence."""
import os,sys,re,time,json,itertools,pickle,signal,subprocess,tempfile,shutil,traceback
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(HERE,'engine'))
import build
NCPU=max(2,min(8,os.cpu_count() or 4))
HARNESS_FLAGS=['-std=gnu++17','-O1','-fexpensive-optimizations','-DNDEBUG','-march=haswell','-fopenmp','-w']
LIBS=['-lgivaro','-lopenblas','-lgmpxx','-lgmp']
FIELDNAMES={0:'Modular<double>',1:'Modular<float>',2:'Modular<int64_t>',3:'ModularBalanced<double>',4:'ModularBalanced<int64_t>',5:'Modular<int32_t>',6:'ModularBalanced<float>',7:'ModularBalanced<int32_t>'}

class Job:
    """a forked piece of work with its own time limit"""
    def __init__(s,name,limit,cost=1.0): s.name=name; s.limit=limit; s.cost=cost; s.res=None; s.pid=None; s.deps=[]; s.done=False; s.after=[]
    def work(s): raise NotImplementedError
    def start(s,tmp):
        s.file=tempfile.mktemp(dir=tmp); s.t0=time.time()
        pid=os.fork()
        if pid==0:
            code=0
            try:
                os.setpgid(0,0)
                import resource; resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30)) if isinstance(s,ProofJob) else None
                r=s.work()
                with open(s.file,'wb') as f: pickle.dump(r,f)
            except BaseException as e:
                try:
                    with open(s.file,'wb') as f: pickle.dump(('error',type(e).__name__+': '+str(e)[:600]+' '+traceback.format_exc()[-1500:]),f)
                except BaseException: pass
            finally: os._exit(code)
        s.pid=pid
    def poll(s):
        p,_=os.waitpid(s.pid,os.WNOHANG)
        if p==0:
            if time.time()-s.t0>s.limit:
                try: os.killpg(s.pid,signal.SIGKILL)
                except OSError:
                    try: os.kill(s.pid,signal.SIGKILL)
                    except OSError: pass
                os.waitpid(s.pid,0); s.res=('timeout','time limit %ds'%s.limit); s.done=True; s.time=time.time()-s.t0; return True
            return False
        s.time=time.time()-s.t0
        try:
            with open(s.file,'rb') as f: s.res=pickle.load(f)
            os.unlink(s.file)
        except Exception as e: s.res=('error','no result (killed)')
        s.done=True; return True
def run_jobs(jobs,tmp,total_deadline,width=NCPU,stop=None):
    wait=sorted(jobs,key=lambda j:-j.cost); live=[]
    while wait or live:
        now=time.time()
        if now>total_deadline or (stop and stop()):
            for j in live: 
                try: os.killpg(j.pid,signal.SIGKILL)
                except OSError: pass
                os.waitpid(j.pid,0); j.res=('timeout','total time limit'); j.done=True; j.time=now-j.t0
            for j in wait: j.res=('timeout','total time limit'); j.done=True; j.time=0
            return
        for j in list(wait):
            if len(live)>=width: break
            if all(d.done for d in j.deps): wait.remove(j); j.start(tmp); live.append(j)
        for j in list(live):
            if j.poll(): live.remove(j); wait+=j.after_done()  if hasattr(j,'after_done') else []; wait.sort(key=lambda j:-j.cost)
        time.sleep(0.02)

class ProofJob(Job):
    def __init__(s,key,mod,fname,flags,limit,cost):
        Job.__init__(s,key,limit,cost); s.mod=mod; s.fname=fname; s.flags=flags
    def work(s):
        import verify as V
        M,lib,consts=s.mod
        f=M.funcs[s.fname]; bn=V.basename(f.dem); k=lib.lookup(bn,f.dem,f)
        q0=(V.Stats.queries,V.Stats.time) if hasattr(V.Stats,'time') else (V.Stats.queries,0)
        R=V.verify_function(M,lib,f,k,consts,deadline=s.limit-5,flagsel=lambda fl: fl==s.flags)
        d=dict(status=R.status,oblig=R.oblig,cases=R.cases,time=R.time,reason=R.reason[:300],queries=V.Stats.queries-q0[0],solver=(V.Stats.time-q0[1]) if hasattr(V.Stats,'time') else 0,
               inlined=sorted(R.inlined),uses=sorted(str(x) for x in R.uses),fails=[])
        for x in R.fails[:3]:
            d['fails'].append(dict(kind=x.kind,msg=x.msg[:2500],where=str(x.where)[:400],path=[str(c)[:300] for c in x.path.cs][:40] if getattr(x,'path',None) is not None else []))
        return ('ok',d)
class ArrJob(ProofJob):
    """element-wise contract of one function (engine/arr.py)"""
    def work(s):
        import arr
        M,lib,consts=s.mod; f=M.funcs[s.fname]; k=lib.variants(arr.basename(f.dem),f.dem,f)[s.vi]
        q0=(arr.Stats.queries,arr.Stats.time)
        R=arr.verify(M,lib,f,k,consts,s.flags,deadline=s.limit-5)
        return ('ok',dict(status=R['status'],oblig=R['oblig'],cases=1,time=R['time'],reason=R['reason'][:300],queries=arr.Stats.queries-q0[0],solver=arr.Stats.time-q0[1],inlined=R['inlined'],uses=[str(x) for x in R['uses']],fails=R['fails'][:3]))
class LemmaJob(ProofJob):
    def work(s):
        import importlib
        r=importlib.import_module(s.fname).lemmas(); bad=[n for n,ok in r if not ok]
        return ('ok',dict(status='unsupported' if bad else 'ok',oblig=len(r)-len(bad),cases=1,time=0,reason='lemma not proved: '+', '.join(bad) if bad else '',inlined=[],uses=[],fails=[]))
class CmdJob(Job):
    def __init__(s,name,cmd,limit,cost=50,env=None): Job.__init__(s,name,limit,cost); s.cmd=cmd; s.env=env
    def work(s):
        e=dict(os.environ); e.update(s.env or {})
        r=subprocess.run(s.cmd,capture_output=True,text=True,env=e)
        return ('ok',dict(rc=r.returncode,out=r.stdout[-20000:],err=r.stderr[-4000:]))

def short(dem):
    return re.sub(r'\s+',' ',dem)[:160]

def harness_build(name,field,tmp,extra=(),src=None):
    out=os.path.join(tmp,'hx_%s_%s'%(name,field)+('_'+str(abs(hash(tuple(extra)))%99991) if extra else ''))
    cmd=['g++']+HARNESS_FLAGS+['-DFIELD=%d'%field]+list(extra)+['-I'+HERE+'/engine/include2','-I'+HERE+'/harness','-I'+build.REPO,HERE+'/harness/'+(src or name)+'.cpp','-o',out]+LIBS
    return out,CmdJob('build harness %s field %d'%(name,field),cmd,600,cost=1000)

def known(prop):
    f=os.path.join(HERE,'known-findings.txt'); out=[]
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'known: property=(\S+) match=/(.*?)/ (.*)',l.strip())
            if m and m.group(1)==prop: out.append((re.compile(m.group(2)),m.group(3)))
    return out

def baseline(prop):
    f=os.path.join(HERE,'engine','baseline.json')
    try: return json.load(open(f)).get(prop,{})
    except Exception: return {}

def run_property(prop,plan,tier,seed,save_baseline=False):
    t0=time.time()
    tmp=tempfile.mkdtemp(prefix='vp_%s_'%prop)
    try: return _run(prop,plan,tier,seed,t0,tmp,save_baseline)
    finally: shutil.rmtree(tmp,ignore_errors=True)

def _run(prop,plan,tier,seed,t0,tmp,save_baseline):
    thorough=tier=='thorough'
    total=t0+(plan.get('total_thorough',3000) if thorough else plan.get('total',780))
    base={}
    for q in plan.get('props',[])+[prop]: base.update(baseline(q))
    props=set(plan.get('props',[])+[prop])
    # ---- harness builds + IR generation
    hspecs=[]; jobs=[]; builds={}
    for h in plan.get('harness',[]):
        src=h['src']; extra=tuple(h.get('flags',()))
        for fi in h.get('fields',[0]):
            key=(src,fi,extra)
            if key not in builds: builds[key]=harness_build(src,fi,tmp,extra); jobs.append(builds[key][1])
            hspecs.append((h,fi,builds[key]))
    irjobs={}
    class IrJob(Job):
        def work(s): return ('ok',build.irgen(s.name,tmp,s.extra))
    for d in plan.get('drivers',[])+[a['driver'] for a in plan.get('arr',[])]:
        if (d if isinstance(d,str) else d[0]) in irjobs: continue
        j=IrJob(d if isinstance(d,str) else d[0],300,5000); j.extra=() if isinstance(d,str) else tuple(d[1]); irjobs[j.name]=j; jobs.append(j)
    notes=[]; hruns=[]
    # IR first so that proofs can start early
    run_jobs(list(irjobs.values()),tmp,total)
    pjobs=[]; funcs_info={}; seen_fn=set()
    if irjobs:
        import verify as V, ir
        sys.setrecursionlimit(20000)
    for n,j in irjobs.items():
        if j.res[0]!='ok': notes.append('extraction of driver %s failed: %s'%(n,str(j.res[1])[:1500])); continue
        M=ir.parse_module(j.res[1]); consts=build.field_consts(M); mod=(M,V.L,consts)
        for f in M.funcs.values():
            if f.decl: continue
            bn=V.basename(f.dem); k=V.L.lookup(bn,f.dem,f)
            if k is None or k.trusted or not props&set(getattr(k,'props',())): continue
            if plan.get('dem') and not re.search(plan['dem'],f.dem): continue
            ens=[p for p in k.params if len(p)>1 and p[1] in V.ENUMS]
            for cb in (itertools.product(*[V.ENUMS[p[1]] for p in ens]) if ens else [()]):
                flags={p[0]:v for p,v in zip(ens,cb)}
                key='%s|%s|%s'%(n,f.dem,','.join('%s=%s'%x for x in flags.items()))
                b=base.get(key,{})
                if b.get('s')=='skip' and not thorough: continue
                if plan.get('props'):
                    if b and b.get('s')!='ok': notes.append('not attempted (outside the reach of the executor, see the property that owns its contract): '+key[:200]); continue
                    if (f.dem,str(flags)) in seen_fn: continue
                    seen_fn.add((f.dem,str(flags)))
                lim=plan.get('job_limit',240)
                if b and b.get('s')=='ok': lim=min(lim*2,max(lim,6*b.get('t',1)))
                elif b: lim=min(lim,20)
                pj=ProofJob(key,mod,f.name,flags,lim,b.get('t',30) if not b or b.get('s')=='ok' else 5); pj.fn=f.dem; pjobs.append(pj)
    for a in plan.get('arr',[]):
        import importlib,arr
        lm=importlib.import_module(a['lib']); lib=lm.LA; n=a['driver']
        if irjobs[n].res[0]!='ok': continue
        M=ir.parse_module(irjobs[n].res[1]); mod=(M,lib,build.field_consts(M))
        def lim_cost(key):
            b=base.get(key,{}); lim=plan.get('job_limit',200)
            if b and b.get('s')=='ok': return min(lim*2,max(lim,6*b.get('t',1))),b.get('t',30)
            return (min(lim,30),5) if b else (lim,30)
        if hasattr(lm,'lemmas'):
            key='lemmas '+a['lib']; l,c=lim_cost(key); pj=LemmaJob(key,None,a['lib'],{},l,c); pj.fn=key; pjobs.append(pj)
        for f in M.funcs.values():
            if f.decl: continue
            if a.get('dem') and not re.search(a['dem'],f.dem): continue
            if a.get('quickskip') and not thorough and re.search(a['quickskip'],f.dem): continue
            for vi,k in enumerate(lib.variants(arr.basename(f.dem),f.dem,f)):
                if not props&set(k.props): continue
                if plan.get('dem') and not re.search(plan['dem'],f.dem): continue
                ens=[p for p in k.params if len(p)>1 and p[1] in arr.ENUMS]
                for cb in itertools.product(*[arr.ENUMS[p[1]] for p in ens]):
                    flags={p[0]:v for p,v in zip(ens,cb)}
                    key='arr %s|%s|%s%s'%(n,f.dem,','.join('%s=%s'%x for x in flags.items()),k.note)
                    if base.get(key,{}).get('s')=='skip' and not thorough: continue
                    l,c=lim_cost(key); pj=ArrJob(key,mod,f.name,flags,l,c); pj.vi=vi; pj.fn=f.dem; pjobs.append(pj)
    # ---- harness runs follow their builds
    seeds=[seed]
    for h,fi,(out,bj) in hspecs:
        bud=h.get('thorough_budget',h.get('budget',15)*8) if thorough else h.get('budget',15)
        for mode in h.get('modes',['']):
            env=dict(VERIF_SEED=str(seed),HX_BUDGET=str(bud),VERIF_TIER=tier,OMP_NUM_THREADS=str(h.get('threads',1)),OPENBLAS_NUM_THREADS='1'); env.update(h.get('env',{}))
            hj=CmdJob('run %s %s field %d'%(h['src'],mode,fi),[out]+([mode] if mode else []),bud*6+300,cost=400,env=env)
            hj.deps=[bj]; hj.spec=(h,fi,mode,env); hruns.append(hj)
    custom=[]
    for c in plan.get('custom',[]):
        cj=CustomJob(c,tmp,tier,seed); custom.append(cj)
    bjobs=[b[1] for b in builds.values()]
    run_jobs(bjobs+hruns+pjobs+custom,tmp,total)
    # ---- evaluate
    proofs={}; failed=[]; undecided=[]; ok=[]
    oblig=disch=0; solver=0; queries=0; used=set(); inl=set()
    for p in pjobs:
        if p.res[0]!='ok': st='undecided'; d=dict(status='unsupported',reason=p.res[1],oblig=0,fails=[])
        else: d=p.res[1]
        oblig+=d.get('oblig',0); queries+=d.get('queries',0); solver+=d.get('solver',0)
        if d['status']=='ok': ok.append(p); disch+=d['oblig']; used|=set(d['uses']); inl|=set(d['inlined'])
        elif d['status']=='fail' and plan.get('kinds') and not any(re.search(plan['kinds'],x['kind']) for x in d['fails']):
            undecided.append((p,dict(d,status='unsupported',reason='stopped at a value obligation that belongs to another property')))
        elif d['status']=='fail': failed.append((p,d)); disch+=max(0,d['oblig']-len(d['fails']))
        else: undecided.append((p,d)); disch+=d.get('oblig',0)
    hev=hnt=0; samples=[]; hfail=[]; hbad=[]
    for hj in hruns:
        if hj.res[0]!='ok': hbad.append((hj,hj.res)); continue
        o=hj.res[1]['out']; m=re.search(r'^DONE (\d+) (\d+)',o,re.M)
        fl=[l for l in o.splitlines() if l.startswith('FAIL ')]
        if m: hev+=int(m.group(1)); hnt+=int(m.group(2))
        samples+=[l[7:] for l in o.splitlines() if l.startswith('SAMPLE ')][:3]
        for l in fl: hfail.append((hj,l))
        if not fl and not m: hbad.append((hj,('error','rc=%s %s'%(hj.res[1]['rc'],hj.res[1]['err'][-300:]))))
    kn=known(prop); alarms=[]; seen_known=set()
    for hj,l in hfail:
        for rx,txt in kn:
            if rx.search(l): seen_known.add(txt); break
        else: alarms.append((hj,l))
    cust_ev=[]
    for cj in custom:
        if cj.res[0]!='ok': undecided.append((cj,dict(status='unsupported',reason=str(cj.res[1])[:800]))); continue
        r=cj.res[1]; cust_ev.append(r); rest=[]
        for x in r.get('fails',[]):
            for rx,txt in kn:
                if rx.search('OBLIGATION '+x['msg']): seen_known.add(txt); break
            else: rest.append(x)
        r['fails']=rest
        oblig+=r.get('obligations',0); disch+=r.get('discharged',0); solver+=r.get('solver_time',0)
        if r.get('fails'): failed.append((cj,dict(fails=r['fails'],oblig=r.get('obligations',0))))
        for x in r.get('undecided',[]): undecided.append((cj,dict(status='unsupported',reason=x)))
        hev+=r.get('evaluations',0)
    os.makedirs(os.path.join(HERE,'replays'),exist_ok=True)
    lines=[]; violations=0
    for txt in sorted(seen_known): print('KNOWN-FINDING: property=%s %s'%(prop,txt))
    # when a proof fails and the ordinary concrete run found nothing, search longer for a failing input
    if failed and not alarms and hspecs and time.time()<total+60:
        extra=[]
        for i in (1,2):
            for h,fi,(out,bj) in hspecs:
                if not os.path.exists(out): continue
                for mode in h.get('modes',['']):
                    env=dict(VERIF_SEED=str(seed+1000*i),HX_BUDGET='25',VERIF_TIER=tier,OMP_NUM_THREADS=str(h.get('threads',1)),OPENBLAS_NUM_THREADS='1'); env.update(h.get('env',{}))
                    hj=CmdJob('search',[out]+([mode] if mode else []),120,env=env); hj.spec=(h,fi,mode,env); extra.append(hj)
        found=lambda: any(j.done and j.res[0]=='ok' and 'FAIL ' in j.res[1]['out'] and not any(rx.search(j.res[1]['out']) for rx,_ in kn) for j in extra)
        run_jobs(extra,tmp,min(time.time()+110,t0+880 if not thorough else 1e18),stop=found)
        for j in extra:
            if j.res and j.res[0]=='ok':
                for l in j.res[1]['out'].splitlines():
                    if l.startswith('FAIL ') and not any(rx.search(l) for rx,_ in kn): alarms.append((j,l))
    if failed or alarms:
        rp=os.path.join(HERE,'replays','%s.txt'%prop)
        with open(rp,'w') as f:
            f.write('property %s violated\n'%prop)
            for p,d in failed[:20]:
                f.write('\nFAILED OBLIGATION in %s\n'%(p.name))
                for x in d['fails']: f.write('  kind: %s\n  at: %s\n  %s\n  path: %s\n'%(x['kind'],x.get('where',''),x['msg'],'\n        '.join(x.get('path',[]))))
            for hj,l in alarms[:20]:
                h,fi,mode,env=hj.spec
                f.write('\nFAILING INPUT on the real code: %s\n'%l)
                f.write('  replay: g++ %s -DFIELD=%d %s -I%s/engine/include2 -I%s/harness -I%s %s/harness/%s.cpp -o /tmp/replay %s && %s /tmp/replay %s\n'%(' '.join(HARNESS_FLAGS),fi,' '.join(h.get('flags',())),HERE,HERE,build.REPO,HERE,h['src'],' '.join(LIBS),' '.join('%s=%s'%x for x in env.items()),mode))
        inputfound=bool(alarms) or any(x.get('input') for p,d in failed for x in d['fails'])
        violations=len(failed)+len(alarms)
        for p,d in failed[:5]:
            for x in d['fails'][:1]: print('failed obligation [%s] in %s: %s'%(x['kind'],short(p.name),x['msg'][:300]))
        for hj,l in alarms[:5]: print('failing input:',l[:400])
        print('VIOLATION property=%s replay=%s%s'%(prop,rp,'' if inputfound else ' no-failing-input-found'))
    broken=[]
    if ((plan.get('drivers') or plan.get('arr')) and not pjobs and not custom): broken.append('no proof obligation generated: '+'; '.join(notes)[:500])
    if hruns and len(hbad)==len(hruns): broken.append('no concrete harness ran: '+str(hbad[0][1])[:500])
    if broken and not violations and not (ok or hev):
        rp=os.path.join(HERE,'replays','%s.txt'%prop)
        open(rp,'w').write('obligations could not be generated from the current tree\n'+'\n'.join(broken+notes))
        violations=1; print('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,rp))
    for x in notes:
        if not x.startswith('not attempted'): print('note:',x[:600])
    for hj,r in hbad[:4]: print('note: harness gave no result:',hj.name,str(r)[:300])
    # ---- evidence
    fn_ok={}; 
    for p in ok: fn_ok.setdefault(p.fn if hasattr(p,'fn') else p.name,[]).append(p)
    bad={getattr(p,'fn',p.name) for p,_ in undecided}|{getattr(p,'fn',p.name) for p,_ in failed}
    proved=sorted(short(x) for x in fn_ok if x not in bad)
    for r in cust_ev: proved+=r.get('functions',[])
    ev=dict(property=prop,tier=tier,seed=seed,level=plan.get('level','proof'),wall_s=round(time.time()-t0,2),violations=violations,
      coverage=dict(obligations=oblig,discharged=disch,
        checker_cmd='python3-vt /verif/check.py %s (engine/exec.py symbolic executor + mat.py block-matrix algebra, z3 for path/offset obligations, over LLVM IR from clang++-18)'%prop,
        trusted_base=plan.get('trusted',[])+sorted(x for x in used if x.startswith('T:')),
        functions_under_contract_proved=proved,
        functions_undecided_this_run=sorted({short(getattr(p,'fn',p.name))+' -- '+str(d.get('reason',''))[:120] for p,d in undecided})[:80],
        proof_jobs=len(pjobs),proof_jobs_ok=len(ok),proof_jobs_failed=len(failed),proof_jobs_undecided=len(undecided),
        callee_contracts_used=sorted(used)[:150],functions_inlined=sorted(short(x) for x in inl)[:150],
        solver_queries=queries,solver_time_s=round(solver,1),
        bounded=dict(note='bounded concrete stand-in on the real compiled code, not counted as proof: '+plan.get('bound',''),evaluations=hev,distinct_nontrivial=hnt,samples=samples[:24],
            runs=[dict(run=h.name,evaluations=int(re.search(r'^DONE (\d+)',h.res[1]['out'],re.M).group(1)) if h.res[0]=='ok' and re.search(r'^DONE (\d+)',h.res[1]['out'],re.M) else None) for h in hruns]),
        evaluations=hev,distinct_nontrivial=hnt,rule=plan.get('rule','pseudo-random cases from VERIF_SEED compared with a naive reference; non-trivial when every dimension is nonzero'),samples=samples[:24],
        custom=cust_ev,notes=notes+[ '%s: %s'%(h.name,str(r)[:200]) for h,r in hbad]),
      assumptions=plan.get('assumptions',[]))
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(HERE,'evidence','%s.json'%prop),'w'),indent=1,default=str)
    if save_baseline:
        b={}
        for p in pjobs:
            d=p.res[1] if p.res[0]=='ok' else dict(status='timeout',time=p.time)
            b[p.name]=dict(s=d['status'],t=round(p.time,1))
        f=os.path.join(HERE,'engine','baseline.json')
        try: allb=json.load(open(f))
        except Exception: allb={}
        allb[prop]={**allb.get(prop,{}),**b} if plan.get('props') else b; json.dump(allb,open(f,'w'),indent=0,sort_keys=True)
    print('%s: %d proof jobs, %d ok, %d failed, %d undecided; %d obligations (%d discharged), %d queries, %.0fs solver; %d concrete evaluations; %.0fs'%(prop,len(pjobs),len(ok),len(failed),len(undecided),oblig,disch,queries,solver,hev,time.time()-t0))
    if os.environ.get('VP_VERBOSE'):
        for p in pjobs:
            if p.time>30: print('  slow',round(p.time),short(p.name)[:100],p.name[-40:])
        for p,d in undecided: print('  undecided',short(p.name)[-160:],d.get('reason','')[:160])
    return 1 if violations else 0

class CustomJob(Job):
    """a property specific verifier: function(tmp,tier,seed)->dict(obligations,discharged,fails,functions,undecided)"""
    def __init__(s,fn,tmp,tier,seed): Job.__init__(s,'custom '+fn.__name__,700,cost=300); s.f=fn; s.a=(tmp,tier,seed); s.fn=fn.__name__
    def work(s): return ('ok',s.f(*s.a))
