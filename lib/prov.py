"""Backward provenance of string bytes: where can the bytes reached through a pointer come from?"""
from util import *
from flow import addr_key
DOCSTRUCT=('struct._xmlNode','struct._xmlAttr','struct._xmlDoc','struct._xmlEntity','struct._xmlNs','struct._xmlDtd')
DOCTEXT={'xmlNodeGetContent','xmlGetProp','xmlGetNoNsProp','xmlGetNsProp','xmlNodeListGetString','xmlNodeListGetRawString','xmlXPathCastNodeToString','xmlXPathCastNodeSetToString','xmlXPathCastToString','xmlNodeGetLang','xmlNodeGetBase','xmlGetNodePath'}
COPY={'strdup':0,'strndup':0,'__strdup':0,'xmlStrdup':0,'xmlCharStrdup':0,'realloc':0,'basename':0,'dirname':0,'strchr':0,'strrchr':0,'strstr':0,'realpath':0,'memcpy':1}
ALLOC={'malloc','calloc','xmlMalloc','xmlMallocAtomic'}
USERIN={'getenv','secure_getenv','ttyname','getcwd'}
READONLY={'strlen','strcmp','strncmp','strcasecmp','free','memcmp','strchr','strrchr','strstr','printf','fprintf','puts','perror','fputs','open','fopen','close','unlink','write','fwrite','execlp','execve','execvp','execv','atoi','strtol','access','stat','fstat','isatty','strspn','strcspn'}
class Prov:
    def __init__(self,m,fl): self.m=m; self.fl=fl; self._stores=None
    def stores(self,k):
        if self._stores is None:
            self._stores={}
            for f in self.m.defined():
                for x in f.all():
                    if x.op=='store' and x.vt=='ptr':
                        q=addr_key(f,x.o[1])
                        if q and q[0] in('f','g'): self._stores.setdefault(q,[]).append((f,x))
        return self._stores.get(k,[])
    def of(self,f,v):
        """{(kind,description,loc)}: kinds lit, user, doc, unknown"""
        self.out=set(); self.seen=set(); self.val(f,v); return self.out
    def add(self,k,d,x): self.out.add((k,d,x.loc() if x is not None else ''))
    def val(self,f,v,at=None):
        if (f.name,v) in self.seen: return
        self.seen.add((f.name,v))
        k=v[0]
        if k in('c','n','f','u'): return
        if k=='g':
            if self.m.cstr(v) is not None: self.add('lit',repr(self.m.cstr(v))[:40],None); return
            self.add('user' if v[1] in('environ','stdin') else 'unknown','global '+v[1],None); return
        if k=='ce': 
            for o in v[2]:
                if isinstance(o,tuple) and o and o[0] in('g','ce'): self.val(f,o)
            return
        if k=='a':
            cs=self.fl.callers.get(f.name,[])
            if f.name=='main': self.add('user','argument of the program',None); return
            if not cs: self.add('unknown','parameter %d of %s'%(v[1],f.name),None)
            for y in cs:
                if v[1]<len(y.o): self.val(y.func,y.o[v[1]])
            self.written(f,v)
            return
        if k!='i': self.add('unknown',str(v)[:40],None); return
        x=f.insts[v[1]]
        if x.op in('getelementptr','bitcast','freeze','zext','sext','trunc','inttoptr','ptrtoint'): self.val(f,x.o[0]); self.written(f,v); return
        if x.op=='phi':
            for o,_ in x.o: self.val(f,o)
            return
        if x.op=='select':
            self.val(f,x.o[1]); self.val(f,x.o[2]); return
        if x.op in('add','sub','and','or','xor','mul','shl','lshr','ashr','icmp','udiv','urem','sdiv','srem'):
            for o in x.o: self.val(f,o)
            return
        if x.op=='alloca': self.written(f,v); return
        if x.op=='load': self.load(f,x); return
        if x.op=='call':
            n=x.cname
            if n in DOCTEXT or (n and n.startswith('xmqGet')): self.add('doc','result of '+n,x); return
            if n in ALLOC: self.written(f,v); return
            if n in COPY and n!='memcpy': self.val(f,x.o[COPY[n]]); self.written(f,v); return
            if n in USERIN: self.add('user',n,x); return
            ts=self.fl.targets(f,x)
            for t in ts:
                g=self.m.funcs[t]
                for y in g.all():
                    if y.op=='ret' and y.o: self.val(g,y.o[0])
            if not ts: self.add('unknown','result of %s'%n,x)
            else:
                # an object handed out by a builder: what the calls on it were given
                self.written(f,v)
                for o in x.o:
                    if o[0]=='i': self.object(f,o)
            return
        self.add('unknown',x.op,x)
    def load(self,f,x):
        k=addr_key(f,x.o[0])
        if k and k[0]=='f' and k[1] in DOCSTRUCT:
            if x.t=='ptr' and self.isstruct(f,x): self.add('unknown','link of a node',x)
            else: self.add('doc','field of %s'%k[1].replace('struct._',''),x)
            return
        if k and k[0]=='f':
            ss=self.stores(k)
            if not ss and x.t=='ptr': self.add('unknown','field %s+%s'%(k[1],k[2]),x)
            for g,y in ss: self.val(g,y.o[0])
            if x.t!='ptr': pass
            return
        if k and k[0]=='g':
            g=self.m.globals.get(k[1],{})
            for h,y in self.stores(k): self.val(h,y.o[0])
            return
        self.val(f,x.o[0])
    def isstruct(self,f,x):
        return (x.o[0][0]=='i' and (f.insts[x.o[0][1]].g or {}).get('off') in (0,24,32,40,48,56,64,72,88,96)) and not (f.insts[x.o[0][1]].g or {}).get('off') in(16,80)
    def written(self,f,v,d=0):
        """bytes written through pointer v or handed over together with it"""
        if ('w',f.name,v) in self.seen or d>6: return
        self.seen.add(('w',f.name,v))
        for x in f.uses().get(v,()):
            if x.op=='store' and x.o[1]==v and x.o[0]!=v: self.val(f,x.o[0])
            elif x.op in('getelementptr','bitcast') and x.o[0]==v: self.written(f,('i',x.i),d)
            elif x.op in('phi','select'): self.written(f,('i',x.i),d)
            elif x.op=='call':
                if x.cname in READONLY or (x.cname or '').startswith('llvm.dbg') or (x.cname or '').startswith('llvm.lifetime'): continue
                ts=self.fl.targets(f,x)
                ks=[k for k,o in enumerate(x.o) if o==v]
                if ts:
                    for t in ts:
                        for k in ks:
                            if k<len(self.m.funcs[t].params): self.written(self.m.funcs[t],('a',k),d+1)
                elif x.cname in('sprintf','snprintf','strcpy','strcat','memcpy','memmove','strncpy','strncat','stpcpy','vsnprintf') or (x.cname or '').startswith('llvm.memcpy'):
                    if ks and ks[0]==0:
                        for o in x.o[1:]: self.val(f,o)
    def object(self,f,o):
        """a builder object (buffer): everything passed together with it to other calls"""
        if ('o',f.name,o) in self.seen: return
        self.seen.add(('o',f.name,o))
        for x in f.uses().get(o,()):
            if x.op=='call' and self.fl.targets(f,x) and o in x.o:
                for t in self.fl.targets(f,x):
                    for k,p in enumerate(x.o):
                        if p==o and k<len(self.m.funcs[t].params): self.object(self.m.funcs[t],('a',k))
                for p in x.o:
                    if p!=o: self.val(f,p)
