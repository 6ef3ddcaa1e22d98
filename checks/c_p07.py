"""P7: rendered HTML / TeX never interprets document text as markup."""
import html
import numpy as np
from driver import Check
from util import *
from flow import Flow, addr_key
from charset import *
from c_p08 import Heap, s8
TEX={'\\':{r'\textbackslash{}',r'{\textbackslash}',r'\textbackslash ',r'$\backslash$',r'\symbol{92}'},'&':{r'\&'},'#':{r'\#'},'{':{r'\{'},'}':{r'\}'},'_':{r'\_'},'$':{r'\$'},'%':{r'\%'},
     '^':{r'\textasciicircum{}',r'\^{}',r'{\textasciicircum}',r'\symbol{94}'},'~':{r'\textasciitilde{}',r'\~{}',r'{\textasciitilde}',r'\symbol{126}',r'$\sim$'},"'":{"'","{'}",r'\textquotesingle{}'},'"':{'"',"{''}"},
     '<':{'<',r'\textless{}'},'>':{'>',r'\textgreater{}'},'|':{'|',r'\textbar{}'},'-':{'-','{-}'},'`':{'`','{`}'}}
def html_ok(c,out):
    if '<' in out or '>' in out: return False
    if '&' in out and not(out[0]=='&' and out[-1]==';' and out.count('&')==1 and out!='&;'): return False
    return html.unescape(out)==c
def tex_ok(c,out): return out in TEX.get(c,{c})
SPECIAL='&<>\\#{}_$%^~'
class Theme: pass
def run_writer(c,m,f,render,B,LN,want,label,okf,nullstop=False):
    """analyse one function copying text [start,stop) to the writer, for every element of the domain"""
    names=[p[1] for p in f.params]; n=len(LN)
    structs={'ps':'struct.XMQPrintState','state':'struct.XMQParseState'}
    offs={}
    for s in('struct.XMQPrintState','struct.XMQParseState','struct.XMQOutputSettings'):
        for nm,t,o,sz in m.structs[s]['fields']: offs[(s,nm)]=o
    def ldps(s):
        def ld(o,t):
            if o==offs.get((s,'output_settings')): return Ptr(('os',),0)
            if o==offs.get((s,'simulated')): return 0
            return None
        return ld
    def ldos(o,t):
        if o==offs[('struct.XMQOutputSettings','render_to')]: return render
        if t=='ptr': return Ptr(('theme',o),0)
        return None
    def ldb(o,t):
        if t=='i8' and 0<=o<B.shape[1]: return s8(B[:,o])
        return None
    def put(mem,item): mem[('log',0)]=(mem[('log',0)][0]+(item,),'x') if ('log',0) in mem else ((item,),'x')
    h=None
    def cm(e,x,args,mask,mem):
        if x.op=='call' and not x.cname and len(args)==3:
            put(mem,(args[1],args[2])); return TOP
        if x.cname=='getThemeStrings':
            for a in args[2:4]: e.store(a,0,'ptr',mem)
            return TOP
        if x.cname in('print_color_pre','print_color_post'): return TOP
        if x.cname=='is_unicode_whitespace': return 0 if label=='words' else TOP
        return h.model(e,x,args,mask,mem)
    e=Engine(m,n,input_mem={('ps',):ldps(structs['ps']),('state',):ldps(structs['state']),('os',):ldos,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=6000000); h=Heap(e,LN,B)
    args=[]
    for k,(t,nm) in enumerate(f.params):
        if nm=='start': args.append(Ptr(('buf',),0))
        elif nm=='stop': args.append(0 if nullstop else Ptr(('buf',),LN))
        elif nm in('ps','state'): args.append(Ptr((nm,),0))
        else: args.append(TOP)
    where='%s:%d'%(f.file,f.line); key='%s:%s:%s'%(f.name,label,'html' if okf is html_ok else 'tex')
    bad=None; und=False; tot=np.zeros(n,dtype=bool)
    for mk,v,mem in e.run(f.name,args):
        tot|=mk
        log=mem.get(('log',0),((),))[0]
        # output layout per path -> per element strings
        pieces=[]
        for a,b in log:
            if isinstance(a,Ptr) and a.base[0]=='g':
                s=m.cstr(('g',a.base[1]))
                if s is None: und=True; break
                if isinstance(b,Ptr): s=s[:int(b.off)] if not isinstance(b.off,np.ndarray) else s
                pieces.append(s.decode('latin1'))
            elif isinstance(a,Ptr) and a.base[0]=='theme': pieces.append(Theme)
            elif isinstance(a,Ptr) and a.base==('buf',):
                pieces.append((a.off,b.off if isinstance(b,Ptr) else None))
            elif a is TOP or (isinstance(a,int) and a==0): und=True; break
            elif isinstance(a,Ptr): und=True; break
        else:
            for i in np.nonzero(mk)[0]:
                src=want[i]; k=0; okk=True
                at=lambda o:int(o[i]) if isinstance(o,np.ndarray) else int(o)
                for p in pieces:
                    if p is Theme:
                        if k<len(src) and src[k] in ' \t\n\r': k+=1
                        continue
                    if isinstance(p,tuple):
                        a=at(p[0]); b=at(p[1]) if p[1] is not None else len(src)
                        if a!=k or b>len(src): okk=False; break
                        for ch in src[a:b]:
                            if not okf(ch,ch): okk=False
                        k=b; continue
                    if k<len(src) and okf(src[k],p): k+=1
                    elif p!='' : okk=False
                if not okk or k!=len(src):
                    if bad is None: bad=(src,[('theme' if p is Theme else p if isinstance(p,str) else src[at(p[0]):at(p[1]) if p[1] is not None else None]) for p in pieces])
                    break
    if und: c.undecided(key,where,'not every written piece is determined')
    c.ob(key,bad is None,where,'text %r is written as %r'%bad if bad else '')
def run(m):
    c=Check('P07','set-valued dataflow of the escaping writers + provenance of every direct write on the render paths',
            'On the paths that render XMQ to HTML or TeX, every direct write is a constant without markup characters, a theme string, or is inside one of the text writers. Each text writer is analysed for all ASCII characters and all pairs of them, for both targets: every character must come out as itself or as an escape that denotes it, and the characters special in the target must never come out raw; so are all triples of specials and texts that already look like escapes or markup.')
    fl=Flow(m)
    HTML=enumval(m,'XMQ_RENDER_HTML',2); TEXV=enumval(m,'XMQ_RENDER_TEX',4)
    c.need('xmq_print_xmq' in m.funcs,'xmq_print_xmq')
    def is_write(f,x):
        if x.op!='call' or x.cname: return False
        v=x.callee
        if v[0]=='i' and f.insts[v[1]].op=='load':
            k=addr_key(f,f.insts[v[1]].o[0]); return k is not None and k[0]=='f' and ('XMQWriter' in k[1] or 'XMQOutputSettings' in k[1])
        return v[0]=='a' and len(x.o)==3
    roots=['xmq_print_xmq']+[n for n in m.funcs if n.startswith('tokenize_') and not m.funcs[n].decl]
    seen=list(roots)
    for n in seen:
        for x in m.funcs[n].calls():
            if is_write(m.funcs[n],x): continue
            for t in fl.targets(m.funcs[n],x):
                if t not in seen: seen.append(t)
    region=[n for n in seen if any(is_write(m.funcs[n],x) for x in m.funcs[n].calls())]
    # --- provenance of direct writes
    def theme(f,v,s=None):
        s=s or set()
        if (f.name,v) in s: return True
        s.add((f.name,v))
        if v[0] in('n',) or v==('c',0): return True
        cs=m.cstr(v)
        if cs is not None: return not any(ch in SPECIAL for ch in cs.decode('latin1'))
        if v[0]=='a':
            cl=fl.callers.get(f.name,[])
            return bool(cl) and all(v[1]<len(y.o) and theme(y.func,y.o[v[1]],s) for y in cl)
        if v[0]!='i': return False
        x=f.insts[v[1]]
        if x.op=='phi': return all(theme(f,o,s) for o,_ in x.o)
        if x.op=='select': return all(theme(f,o,s) for o in x.o[1:])
        if x.op=='load':
            k=addr_key(f,x.o[0])
            if k and k[0]=='f' and any(t in k[1] for t in('XMQTheme','XMQOutputSettings','XMQPrintState','XMQColoring')): return True
            if k and k[0]=='l':
                al=('i',k[2]); ok=False
                for y in f.uses().get(al,()):
                    if y.op=='store' and y.o[1]==al:
                        if not theme(f,y.o[0],s): return False
                        ok=True
                    elif y.op=='call' and y.cname=='getThemeStrings': ok=True
                    elif y.op=='call' and y.cname and not y.cname.startswith('llvm.'): return False
                return ok
        return False
    text=[]; nsites=0
    for n in region:
        f=m.funcs[n]; raw=[]
        for x in f.calls():
            if not is_write(f,x): continue
            nsites+=1
            if theme(f,x.o[1]): c.ob('%s:theme'%n,True,x.loc())
            else: raw.append(x)
        if raw: text.append((f,raw))
    # --- text writers
    a,b=np.meshgrid(np.arange(1,127),np.arange(1,127)); a=a.ravel(); b=b.ravel()
    BP=np.zeros((a.size,4),dtype=np.int64); BP[:,0]=a; BP[:,1]=b; WP=[chr(x)+chr(y) for x,y in zip(a,b)]; LP=np.full(a.size,2,dtype=np.int64)
    s=np.arange(1,127); B1=np.zeros((126,3),dtype=np.int64); B1[:,0]=s; W1=[chr(x) for x in s]; L1=np.ones(126,dtype=np.int64)
    A='&<>;#l"\\{}$%'
    D=[x+y+z for x in A for y in A for z in A]+['&'+x+';' for x in('lt','gt','amp','quot','nbsp','#60','#x3c','#1')]+['a&lt;b','&&amp;','</pre>','<!-- x -->','<script>','<b>','&#10;&#10;','x<y>z','\\\\','\\&','\\begin{x}','$x$','%x\n','{\\bf x}','^^M','~~','\n\n<','  <','a  &','"<"',"'<'",'/*<*/','<?x?>']
    WD=D; LD=np.array([len(x) for x in D],dtype=np.int64); BD=np.zeros((len(D),int(LD.max())+2),dtype=np.int64)
    for i,x in enumerate(D): BD[i,:len(x)]=[ord(ch) for ch in x]
    fmts=[(HTML,html_ok),(TEXV,tex_ok)]
    cons=lambda f,v: m.cstr(v) is not None or (v[0]=='i' and f.insts[v[1]].op in('phi','select') and all(m.cstr(o) is not None for o in ([q for q,_ in f.insts[v[1]].o] if f.insts[v[1]].op=='phi' else f.insts[v[1]].o[1:])))
    writers=[]
    for f,raw in text:
        nm=[p[1] for p in f.params]
        if 'start' not in nm or 'stop' not in nm or all(cons(f,x.o[1]) for x in raw):
            for x in raw: c.ob('%s:raw'%f.name,False,x.loc(),'%s is written without being escaped while rendering'%('the text %r'%m.cstr(x.o[1]).decode('latin1') if m.cstr(x.o[1]) else 'text'))
            continue
        writers.append(f.name)
        for r,okf in fmts:
            if not reaches_for(m,fl,f,r,HTML,TEXV): continue
            run_writer(c,m,f,r,B1,L1,W1,'char',okf)
            if 'char' not in f.name: run_writer(c,m,f,r,BP,LP,WP,'pair',okf)
            if 'char' not in f.name: run_writer(c,m,f,r,BD,LD,WD,'words',okf)
            if f.name=='print_utf8_internal': run_writer(c,m,f,r,BP,LP,WP,'pair-z',okf,nullstop=True)
    c.cov.update(region=len(region),write_sites=nsites,text_writers=writers)
    return c
def enumval(m,name,default): return m.enumvals.get(name,default)
def returns_after_one(m,f):
    return 'char' in f.name
def reaches_for(m,fl,f,r,HTML,TEXV):
    if f.name.endswith('_html'): return r==HTML
    if f.name.endswith('_tex'): return r==TEXV
    return True
