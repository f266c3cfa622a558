"""Mechanical extraction: the verified text is the LLVM IR that clang produces from /repo's current headers."""
import os,subprocess,tempfile,shutil,re
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo')
CXX=['clang++-18','-std=gnu++17','-O0','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-march=haswell','-DNDEBUG','-w']
def irgen(driver,out,extra=()):
    src=os.path.join(HERE,'drivers',driver+'.C')
    ll=os.path.join(out,driver+'.ll'); llo=os.path.join(out,driver+'.o.ll')
    r=subprocess.run(CXX+list(extra)+['-I',HERE+'/engine/include','-I',HERE+'/drivers','-I',REPO,'-S','-emit-llvm',src,'-o',ll],capture_output=True,text=True)
    if r.returncode: raise BuildError(r.stderr[:4000])
    r=subprocess.run(['opt-18','-S','-passes=sroa,simplifycfg',ll,'-o',llo],capture_output=True,text=True)
    if r.returncode: raise BuildError(r.stderr[:4000])
    os.unlink(ll)
    return llo
class BuildError(Exception): pass
def field_consts(M):
    """(class,index)->value for members zero/one/mOne, read off the probe functions of the driver"""
    c={}
    val={'vp_probe_zero':0,'vp_probe_one':1,'vp_probe_mOne':-1}
    for f in M.funcs.values():
        m=re.search(r'(vp_probe_\w+)<',f.dem)
        if not m or f.decl: continue
        g=None
        for l in f.text:
            x=re.search(r'getelementptr inbounds (%"[^"]+"|%[\w.:]+), ptr [^,]+, i32 0, i32 (\d+)',l)
            if x: g=x
        if g: c[(g.group(1)[1:].strip('"'),int(g.group(2)))]=val[m.group(1)]
    return c
