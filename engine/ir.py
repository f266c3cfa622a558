"""Parser for the textual LLVM IR subset that clang -O0 + sroa/simplifycfg produces."""
import re, subprocess, functools

class Ty:
    __slots__=('k','a','n')
    def __init__(s,k,a=None,n=None): s.k=k; s.a=a; s.n=n
    def __repr__(s): return f"{s.k}{'' if s.a is None else '('+str(s.a)+')'}"
    def __eq__(s,o): return isinstance(o,Ty) and (s.k,s.a,s.n)==(o.k,o.a,o.n)
    def __hash__(s): return hash((s.k,str(s.a),s.n))

class Instr:
    __slots__=('op','res','ty','args','x','line')
    def __init__(s,op,res=None,ty=None,args=None,x=None,line=''):
        s.op=op; s.res=res; s.ty=ty; s.args=args or []; s.x=x or {}; s.line=line
    def __repr__(s): return f"<{s.res}={s.op} {s.args} {s.x}>"

class Func:
    def __init__(s,name): s.name=name; s.params=[]; s.blocks={}; s.order=[]; s.ret=None; s.entry=None; s.decl=True; s.dem=name; s.text=[]
class Module:
    def __init__(s): s.types={}; s.funcs={}; s.globals={}

TOK=re.compile(r'''\s*(c?"(?:[^"\\]|\\.)*"|%"(?:[^"\\]|\\.)*"|@"(?:[^"\\]|\\.)*"|[%@!#][\w.$\-]+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[\w.$\-]+|[()\[\]{}<>,=*!|])''')
def lex(s):
    out=[];i=0;n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m:
            if s[i:].strip()=='' : break
            raise SyntaxError('lex: '+s[i:i+60])
        out.append(m.group(1)); i=m.end()
    return out

ATTRS={'noundef','nonnull','noalias','nocapture','readonly','readnone','writeonly','signext','zeroext','inreg','immarg','returned','nest','swiftself','inbounds','nuw','nsw','exact','disjoint','nneg','volatile','tail','musttail','notail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','dso_local','local_unnamed_addr','unnamed_addr','hidden','linkonce_odr','internal','weak_odr','private','external','available_externally','comdat','mustprogress','noinline','optnone','cold','nounwind','atomic','weak','linkonce','common','appending','protected','default','extern_weak','constant','global','allocptr','noreturn','undef_ok','willreturn','dead_on_unwind','writable'}
class P:
    def __init__(s,toks): s.t=toks; s.i=0
    def pk(s,k=0): return s.t[s.i+k] if s.i+k<len(s.t) else None
    def nx(s): v=s.t[s.i]; s.i+=1; return v
    def eat(s,x):
        if s.pk()==x: s.i+=1; return True
        return False
    def exp(s,x):
        v=s.nx()
        if v!=x: raise SyntaxError(f'expected {x} got {v} in {s.t}')
    def skip_attrs(s):
        while True:
            t=s.pk()
            if t in ATTRS: s.i+=1
            elif t in('align','addrspace'):
                s.i+=1
                if s.pk()=='(' : s.balanced()
                else: s.i+=1
            elif t in('dereferenceable','dereferenceable_or_null','sret','byval','elementtype','captures','range','memory','allocsize','byref','inalloca','preallocated') and s.pk(1)=='(':
                s.i+=1; s.balanced()
            elif t and t[0]=='#' : s.i+=1
            else: return
    def balanced(s):
        s.exp('('); d=1
        while d:
            t=s.nx()
            if t=='(' : d+=1
            elif t==')': d-=1
    def ty(s):
        t=s.nx()
        if t=='ptr': r=Ty('ptr')
        elif t=='void': r=Ty('void')
        elif re.fullmatch(r'i\d+',t): r=Ty('int',int(t[1:]))
        elif t in('double','float','half','x86_fp80','fp128'): r=Ty('fp',t)
        elif t=='label': r=Ty('label')
        elif t=='metadata': r=Ty('metadata')
        elif t=='token': r=Ty('token')
        elif t[0]=='%': r=Ty('named',t[1:].strip('"'))
        elif t=='[':
            n=int(s.nx()); s.exp('x'); e=s.ty(); s.exp(']'); r=Ty('arr',e,n)
        elif t=='<':
            if s.pk()=='{':
                s.nx(); el=[]
                if s.pk()!='}':
                    el.append(s.ty())
                    while s.eat(','): el.append(s.ty())
                s.exp('}'); s.exp('>'); r=Ty('struct',tuple(el),'packed')
            else:
                n=int(s.nx()); s.exp('x'); e=s.ty(); s.exp('>'); r=Ty('vec',e,n)
        elif t=='{':
            el=[]
            if s.pk()!='}':
                el.append(s.ty())
                while s.eat(','): el.append(s.ty())
            s.exp('}'); r=Ty('struct',tuple(el))
        elif t=='opaque': r=Ty('opaque')
        else: raise SyntaxError('type '+t+' in '+' '.join(s.t[:20]))
        while s.pk()=='(' : # function type
            s.balanced(); r=Ty('fn',r)
        while s.eat('*'): r=Ty('ptr')
        return r
    def val(s,ty):
        t=s.pk()
        if t is None: raise SyntaxError('val')
        if t[0]=='%': s.nx(); return ('v',t[1:].strip('"'))
        if t[0]=='@': s.nx(); return ('g',t[1:].strip('"'))
        if t in('true','false'): s.nx(); return ('i',1 if t=='true' else 0)
        if t in('null',): s.nx(); return ('null',)
        if t in('undef','poison'): s.nx(); return ('undef',)
        if t in('zeroinitializer',): s.nx(); return ('zero',)
        if t in('getelementptr','inttoptr','ptrtoint','bitcast','add','sub','select','icmp'):
            s.nx(); s.skip_attrs()
            start=s.i
            s.exp('('); d=1
            while d:
                x=s.nx()
                if x=='(' : d+=1
                elif x==')': d-=1
            return ('cexpr',t,tuple(s.t[start:s.i]))
        if t=='<' or t=='[' or t=='{' or (t and t[0]=='c' and t[1:2]=='"'):
            if t[0]=='c': s.nx(); return ('str',t)
            s.nx(); close={'<':'>','[':']','{':'}'}[t]; el=[]
            while s.pk()!=close:
                et=s.ty(); s.skip_attrs(); el.append((et,s.val(et)))
                s.eat(',')
            s.nx(); return ('agg',tuple(el))
        s.nx()
        if ty is not None and ty.k=='fp':
            if t.startswith('0x'):
                import struct
                return ('f',struct.unpack('>d',int(t[2:],16).to_bytes(8,'big'))[0])
            return ('f',float(t))
        if re.fullmatch(r'-?\d+',t): return ('i',int(t))
        return ('other',t)
    def tv(s):
        ty=s.ty(); s.skip_attrs(); return ty,s.val(ty)

BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST={'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

def parse_instr(line):
    raw=line
    line=re.sub(r',?\s*!\w[\w.]*\s+![0-9]+','',line)
    line=re.sub(r',\s*!\w[\w.]*\s+!DIExpression\(.*?\)','',line)
    p=P(lex(line)); res=None
    if p.pk(1)=='=':
        res=p.nx()[1:].strip('"'); p.nx()
    p.skip_attrs()
    op=p.nx(); p.skip_attrs()
    I=Instr(op,res,line=raw)
    if op=='ret':
        I.ty=p.ty()
        if I.ty.k!='void': I.args=[p.val(I.ty)]
    elif op=='br':
        t=p.ty()
        if t.k=='label': I.x['dests']=[p.nx()[1:].strip('"')]
        else:
            I.args=[p.val(t)]; p.exp(','); p.nx(); a=p.nx()[1:].strip('"'); p.exp(','); p.nx(); b=p.nx()[1:].strip('"'); I.x['dests']=[a,b]
    elif op=='switch':
        t=p.ty(); v=p.val(t); p.exp(','); p.nx(); d=p.nx()[1:].strip('"'); p.exp('['); cs=[]
        while p.pk()!=']':
            ct=p.ty(); cv=p.val(ct); p.exp(','); p.nx(); cs.append((cv[1],p.nx()[1:].strip('"')))
        I.ty=t; I.args=[v]; I.x['default']=d; I.x['cases']=cs
    elif op=='unreachable' or op=='resume' or op=='landingpad' or op=='fence' or op=='catchswitch': pass
    elif op=='alloca':
        I.ty=p.ty()
        if p.eat(','):
            if p.pk()!='align':
                t=p.ty(); I.args=[p.val(t)]
    elif op=='load':
        I.ty=p.ty(); p.exp(','); t,v=p.tv(); I.args=[v]
    elif op=='store':
        t,v=p.tv(); p.exp(','); t2,a=p.tv(); I.ty=t; I.args=[v,a]
    elif op=='getelementptr':
        I.ty=p.ty(); p.exp(','); t,v=p.tv(); I.args=[v]; I.x['idx']=[]
        while p.eat(','):
            t,v=p.tv(); I.x['idx'].append((t,v))
    elif op=='phi':
        I.ty=p.ty(); I.x['inc']=[]
        while True:
            p.exp('['); v=p.val(I.ty); p.exp(','); b=p.nx()[1:].strip('"'); p.exp(']'); I.x['inc'].append((v,b))
            if not p.eat(','): break
    elif op=='select':
        t,c=p.tv(); p.exp(','); t2,a=p.tv(); p.exp(','); t3,b=p.tv(); I.ty=t2; I.args=[c,a,b]; I.x['cty']=t
    elif op in('icmp','fcmp'):
        p.skip_attrs(); I.x['pred']=p.nx(); I.ty=p.ty(); a=p.val(I.ty); p.exp(','); b=p.val(I.ty); I.args=[a,b]
    elif op in BIN:
        I.ty=p.ty(); a=p.val(I.ty); p.exp(','); b=p.val(I.ty); I.args=[a,b]
    elif op in('fneg','freeze'):
        I.ty=p.ty(); I.args=[p.val(I.ty)]
    elif op in CAST:
        t=p.ty(); v=p.val(t); p.exp('to'); I.ty=p.ty(); I.args=[v]; I.x['from']=t
    elif op in('call','invoke'):
        while p.pk() in('fastcc','ccc','coldcc'): p.nx()
        p.skip_attrs(); I.ty=p.ty(); p.skip_attrs()
        if p.pk()=='asm': I.x['callee']=('asm',); return I
        I.x['callee']=p.val(None); p.exp('('); I.x['atys']=[]
        while p.pk()!=')':
            t=p.ty(); p.skip_attrs()
            if t.k=='metadata':
                d=0
                while not (d==0 and p.pk() in(',',')')):
                    q=p.nx()
                    if q=='(':d+=1
                    if q==')':d-=1
                v=('undef',)
            else: v=p.val(t)
            I.args.append(v); I.x['atys'].append(t)
            if not p.eat(','): break
        p.exp(')')
        if op=='invoke':
            p.skip_attrs()
            while p.pk()!='to': p.nx()
            p.nx(); p.nx(); I.x['normal']=p.nx()[1:].strip('"')
            p.nx(); p.nx(); I.x['unwind']=p.nx()[1:].strip('"')
    elif op=='extractvalue':
        I.ty=p.ty(); I.args=[p.val(I.ty)]; I.x['idx']=[]
        while p.eat(','): I.x['idx'].append(int(p.nx()))
    elif op=='insertvalue':
        I.ty=p.ty(); a=p.val(I.ty); p.exp(','); t,b=p.tv(); I.args=[a,b]; I.x['idx']=[]
        while p.eat(','): I.x['idx'].append(int(p.nx()))
    else:
        I.x['unk']=True
    return I

TERM={'ret','br','switch','unreachable','resume','invoke'}
def parse_module(path,lazy=True):
    M=Module(); cur=None
    txt=open(path).read().split('\n')
    i=0;n=len(txt)
    while i<n:
        l=txt[i]
        if cur is None:
            if l.startswith('%'):
                m=re.match(r'%("[^"]*"|[\w.$\-]+) = type (.*)',l)
                if m: M.types[m.group(1).strip('"')]=m.group(2)
            elif l.startswith('@'):
                m=re.match(r'@("[^"]*"|[\w.$\-]+) = (.*)',l)
                if m: M.globals[m.group(1).strip('"')]=m.group(2)
            elif l.startswith('define') or l.startswith('declare'):
                isdef=l.startswith('define')
                s=l[7:]
                m=re.search(r'@("[^"]*"|[\w.$\-]+)\(',s)
                name=m.group(1).strip('"')
                f=Func(name); f.decl=not isdef; f.sig=s
                M.funcs[name]=f
                if isdef: cur=f
        else:
            if l=='}': cur=None
            else: cur.text.append(l)
        i+=1
    for f in M.funcs.values(): _parse_sig(f)
    names=list(M.funcs)
    out=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
    for nme,d in zip(names,out): M.funcs[nme].dem=d
    return M

def _parse_sig(f):
    m=re.search(r'@("[^"]*"|[\w.$\-]+)\(',f.sig)
    try:
        p=P(lex(f.sig[:m.start()])); p.skip_attrs(); f.ret=p.ty()
    except SyntaxError: f.ret=None
    s=f.sig[m.end()-1:]
    try: p=P(lex(s))
    except SyntaxError: return
    p.exp('(')
    k=0
    while p.pk()!=')':
        if p.pk()=='...': p.nx(); break
        try: t=p.ty(); 
        except SyntaxError: break
        sret = p.pk()=='sret' or 'sret' in p.t[p.i:p.i+6]
        p.skip_attrs()
        nm=None
        if p.pk() and p.pk()[0]=='%': nm=p.nx()[1:].strip('"')
        f.params.append((t,nm or str(k))); k+=1
        if not p.eat(','): break

def body(f):
    """parse the body on demand"""
    if f.blocks or f.decl: return f
    cur=None; buf=None
    lines=[]
    for l in f.text:
        if not l.strip() or l.strip().startswith(';'): continue
        s=l
        if buf is not None:
            buf+=' '+s.strip()
            if (buf.lstrip().startswith('switch') and s.strip().startswith(']')) : lines.append(buf); buf=None
            continue
        if re.match(r'\s+switch ',s) and not re.search(r'\]',s): buf=s; continue
        if re.match(r'\s+(to label|cleanup|catch|filter)',s):
            lines[-1]+=' '+s.strip(); continue
        lines.append(s)
    for l in lines:
        m=re.match(r'^("[^"]*"|[\w.$\-]+):',l)
        if m:
            cur=m.group(1).strip('"'); f.blocks[cur]=[]; f.order.append(cur); continue
        if cur is None: cur='entry' if not f.order else None; f.blocks[cur]=[]; f.order.append(cur)
        s=re.sub(r'\s;.*$','',l) if ' ; ' in l and '"' not in l else l
        if 'landingpad' in s or s.strip().startswith('resume'): 
            I=Instr('landingpad' if 'landingpad' in s else 'resume',line=s)
            m2=re.match(r'\s*%("[^"]*"|[\w.$\-]+) =',s)
            if m2: I.res=m2.group(1)
        else: I=parse_instr(s.strip())
        f.blocks[cur].append(I)
    f.entry=f.order[0]
    return f

# ---- layout
def resolve(M,ty):
    if ty.k=='named':
        d=M.types.get(ty.a)
        if d is None or d=='opaque': return Ty('opaque')
        if isinstance(d,str):
            d=P(lex(d)).ty(); M.types[ty.a]=d
        return resolve(M,d)
    return ty
def size_align(M,ty):
    t=resolve(M,ty)
    if t.k=='int':
        b=max(1,(t.a+7)//8); a=1
        while a<b: a*=2
        return a,min(a,16)
    if t.k=='fp': s={'double':8,'float':4,'half':2,'x86_fp80':16,'fp128':16}[t.a]; return s,s
    if t.k=='ptr': return 8,8
    if t.k=='arr': s,a=size_align(M,t.a); return s*t.n,a
    if t.k=='vec': s,a=size_align(M,t.a); return s*t.n,s*t.n
    if t.k=='struct':
        off=0; al=1
        for e in t.a:
            s,a=size_align(M,e)
            if t.n=='packed': a=1
            off=(off+a-1)//a*a+s; al=max(al,a)
        return (off+al-1)//al*al, al
    if t.k=='opaque': return 8,8
    raise ValueError(str(t))
def field_off(M,ty,idx):
    t=resolve(M,ty)
    off=0
    for j,e in enumerate(t.a):
        s,a=size_align(M,e)
        if t.n=='packed': a=1
        off=(off+a-1)//a*a
        if j==idx: return off,e
        off+=s
    raise IndexError
