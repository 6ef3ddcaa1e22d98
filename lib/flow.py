"""Flow-insensitive, field-based interprocedural pointer value flow."""
import collections
from util import *
INTERIOR={'strchr':0,'strrchr':0,'memchr':0,'strstr':0,'strpbrk':0,'strchrnul':0,'rawmemchr':0,'strtok':0,'index':0,'basename':0}
# external functions that write through an argument (index) ; free releases it
WRITES={'memcpy':[0],'memmove':[0],'memset':[0],'strcpy':[0],'strncpy':[0],'strcat':[0],'strncat':[0],'sprintf':[0],'snprintf':[0],'vsnprintf':[0],'vsprintf':[0],'fread':[0],'read':[1],'fgets':[0],
        'strtok':[0],'strsep':[0],'free':[0],'realloc':[0],'getline':[0],'stpcpy':[0],'qsort':[0],'bzero':[0],'strlcpy':[0],'strlcat':[0],'mempcpy':[0],'xmlFree':[0],'strtok_r':[0]}
def writes(name):
    if name is None: return ()
    if name.startswith('llvm.mem'): return (0,)
    return WRITES.get(name,())
def addr_key(f,a):
    """abstract memory cell of an address: ('f',struct,off) | ('l',fn,alloca id) | ('g',name) | None"""
    if a[0]=='i':
        x=f.insts[a[1]]
        if x.op=='getelementptr':
            g=x.g or {}
            if g.get('ow') and 'off' in g and str(g['ow']).startswith('struct.'): return ('f',g['ow'],last_off(g))
            return addr_key(f,x.o[0])
        if x.op=='alloca': return ('l',f.name,x.i)
        if x.op in ('phi','select','load','call'): return ('d',f.name,x.i)
        return None
    if a[0]=='ce': return addr_key(f,a[2][0]) if a[1]=='getelementptr' else None
    if a[0]=='g': return ('g',a[1])
    if a[0]=='a': return ('p',f.name,a[1])
    return None
def last_off(g): return g['off']
class Flow:
    def __init__(self,m,skip=lambda f:False):
        self.m=m; self.skip=skip
        self._funcflow()
        self.callers=collections.defaultdict(list)
        for f in m.defined():
            for x in f.calls():
                for t in self.targets(f,x): self.callers[t].append(x)
    def _funcflow(self):
        """which functions a function-pointer value / cell can hold (field-based, interprocedural fixpoint)"""
        m=self.m; V=collections.defaultdict(set); C=collections.defaultdict(set); work=set()
        loads=collections.defaultdict(list); deps=collections.defaultdict(list)
        def isfn(o): return o[0]=='g' and o[1] in m.funcs
        def put(fn,v,ss):
            if ss-V[(fn,v)]: V[(fn,v)]|=ss; work.add((fn,v))
        def putc(k,ss):
            if ss-C[k]:
                C[k]|=ss
                for fn,v in loads[k]: put(fn,v,C[k])
        def ginit(g,v,pre):
            if isinstance(v,tuple):
                if len(v)==2 and v[0]=='g' and v[1] in m.funcs: putc(('g',g),{v[1]})
                else:
                    for y in v: ginit(g,y,pre)
        for f in m.defined():
            for x in f.all():
                if x.op=='load' and x.t=='ptr':
                    k=addr_key(f,x.o[0])
                    if k: loads[k].append((f.name,('i',x.i)))
        icalls=collections.defaultdict(list); callers=collections.defaultdict(list)
        for g in m.globals.values():
            if 'init' in g: ginit(g['name'],g['init'],())
        def call_edge(x,t):
            f=x.func; g=m.funcs[t]
            for k,o in enumerate(x.o):
                if k>=len(g.params): break
                if isfn(o): put(t,('a',k),{o[1]})
                elif V.get((f.name,o)): put(t,('a',k),V[(f.name,o)])
        for f in m.defined():
            for x in f.all():
                if x.op=='store' and isfn(x.o[0]):
                    k=addr_key(f,x.o[1])
                    if k: putc(k,{x.o[0][1]})
                elif x.op=='phi':
                    ss={o[1] for o,_ in x.o if isfn(o)}
                    if ss: put(f.name,('i',x.i),ss)
                elif x.op=='select':
                    ss={o[1] for o in x.o[1:] if isfn(o)}
                    if ss: put(f.name,('i',x.i),ss)
                elif x.op=='ret' and x.o and isfn(x.o[0]): V[(f.name,'ret')]|={x.o[0][1]}
                elif x.op=='call':
                    if x.cname in m.funcs and not m.funcs[x.cname].decl: call_edge(x,x.cname)
                    elif x.callee and x.callee[0]!='g': icalls[(f.name,x.callee)].append(x)
        while work:
            fn,v=work.pop(); f=m.funcs[fn]; ss=V[(fn,v)]
            for x in icalls.get((fn,v),()):
                for t in ss:
                    if not m.funcs[t].decl: call_edge(x,t)
            for x in f.uses().get(v,()):
                if x.op in('phi','bitcast') or (x.op=='select' and v in x.o[1:]): put(fn,('i',x.i),ss)
                elif x.op=='store' and x.o[0]==v:
                    k=addr_key(f,x.o[1])
                    if k: putc(k,ss)
                elif x.op=='call':
                    ts=[x.cname] if x.cname in m.funcs and not m.funcs[x.cname].decl else sorted(V.get((fn,x.callee),())) if x.callee and x.callee[0]!='g' else []
                    for t in ts:
                        if not m.funcs[t].decl: call_edge(x,t)
        self.fv=V; self.fcells=C
    def targets(self,f,x):
        if x.cname: return [x.cname] if x.cname in self.m.funcs and not self.m.funcs[x.cname].decl else []
        return sorted(t for t in self.fv.get((f.name,x.callee),()) if not self.m.funcs[t].decl)
    def taint(self,seeds,stop_fn=lambda n:False):
        """seeds: iterable of (fn, value). returns dict (fn,value)->predecessor and set of tainted cells"""
        m=self.m; T={}; cells={}; work=[]
        def add(fn,v,why):
            if (fn,v) not in T and not stop_fn(fn): T[(fn,v)]=why; work.append((fn,v))
        loads=collections.defaultdict(list)
        for f in m.defined():
            for x in f.all():
                if x.op=='load' and x.t=='ptr':
                    k=addr_key(f,x.o[0])
                    if k: loads[k].append((f.name,('i',x.i)))
        def addcell(k,why):
            if k and k not in cells:
                cells[k]=why
                for fn,v in loads[k]: add(fn,v,('cell',k))
        for fn,v in seeds: add(fn,v,None)
        rets=collections.defaultdict(list)
        while work:
            fn,v=work.pop(); f=m.funcs[fn]
            for x in f.uses().get(v,()):
                if x.op in('getelementptr','bitcast','addrspacecast') and x.o[0]==v: add(fn,('i',x.i),(fn,v))
                elif x.op in('phi',): add(fn,('i',x.i),(fn,v))
                elif x.op=='select' and v in x.o[1:]: add(fn,('i',x.i),(fn,v))
                elif x.op in('ptrtoint','inttoptr'): add(fn,('i',x.i),(fn,v))
                elif x.op=='store' and x.o[0]==v: addcell(addr_key(f,x.o[1]),(fn,v))
                elif x.op=='ret':
                    for y in self.callers[fn]: add(y.func.name,('i',y.i),(fn,v))
                elif x.op=='call':
                    if x.cname in INTERIOR and x.o and x.o[INTERIOR[x.cname]]==v: add(fn,('i',x.i),(fn,v))
                    for t in self.targets(f,x):
                        for k,o in enumerate(x.o):
                            if o==v and k<len(m.funcs[t].params): add(t,('a',k),(fn,v))
        self.T=T; self.cells=cells
        return T,cells
    def path(self,key):
        out=[]; n=0
        while key is not None and n<30:
            if key[0]=='cell': out.append('field '+str(key[1])); key=self.cells.get(key[1])
            else: out.append('%s:%s'%(key[0],key[1])); key=self.T.get(key)
            n+=1
        return ' <- '.join(out[:12])
    def write_sites(self):
        """stores / writing external calls through tainted pointers"""
        m=self.m; out=[]
        for (fn,v) in self.T:
            f=m.funcs[fn]
            for x in f.uses().get(v,()):
                if x.op=='store' and x.o[1]==v: out.append((x,v,'store'))
                elif x.op=='call' and not(x.cname in m.funcs and not m.funcs[x.cname].decl):
                    for k in writes(x.cname):
                        if k<len(x.o) and x.o[k]==v: out.append((x,v,x.cname))
        return out
