"""Nullness: forward dataflow over SSA values and access paths (value -> field -> field ...).

Facts: ('i',id)/('a',k)/path known non-null; ('m',id): load id still mirrors its access path; ('t',path) -> type fact.
A value is *nullable* when it can come from a source that is null for some input; using it needs a non-null fact."""
import collections
from util import *
from flow import addr_key
NULLRET={'xmlXPathNewContext','xmlDocGetRootElement','xmlNodeListGetString','xmlGetProp','xmlHasProp','xmlXPathEvalExpression','xmlXPathEval','xsltParseStylesheetDoc','xsltApplyStylesheet','xmlSchemaParse','xmlReadMemory','htmlReadMemory',
 'fopen','getenv','strchr','strrchr','strstr','strpbrk','memchr','xmlGetIntSubset','xmlGetDocEntity','xmlSearchNs','xmlGetNsList','xmlFirstElementChild','xmlNextElementSibling','xmlGetLastChild','xmlCreatePushParserCtxt','fdopen','opendir','strtok'}
NEEDS={'strlen':[0],'strcmp':[0,1],'strncmp':[0,1],'strcpy':[0,1],'strcat':[0,1],'strncpy':[0,1],'strdup':[0],'strndup':[0],'strchr':[0],'strrchr':[0],'strstr':[0,1],'strcasecmp':[0,1],'strncasecmp':[0,1],'atoi':[0],'strtol':[0],'strtod':[0],
 'fclose':[0],'fread':[3],'fwrite':[3],'fseek':[0],'ftell':[0],'fgetc':[0],'memcpy':[0,1],'memcmp':[0,1],'xmlStrlen':[],'fputs':[0,1],'puts':[0],'llvm.memcpy.p0.p0.i64':[0,1],'llvm.memmove.p0.p0.i64':[0,1],'strspn':[0,1],'strcspn':[0,1],'xsltFreeStylesheet':[],'execve':[0]}
NODEF={'children','last','parent','next','prev','content','ns','nsDef','properties','name','intSubset','extSubset','prefix','href'}
TYPE=('struct._xmlNode',8); CONTENT=('struct._xmlNode',80); NAME=('struct._xmlNode',16); NEXT=('struct._xmlNode',48)
LISTS=('struct._xmlNode','struct._xmlDoc','struct._xmlAttr')
ALLT=frozenset(range(1,22))
HASCONTENT=frozenset({3,4,8})          # text, cdata and comment nodes have a content
HASNAME=frozenset({1,2,3,5,7,8,10,14,15,16,17})  # every named kind; not cdata sections or documents
class Null:
    ALL=ALLT
    peelpred=False
    def __init__(self,m,fl,fields,scope,given=None,optional=None,sib=None,trusted=None):
        """fields: set of ('f',struct,off) cells that can be null; given: {fn: facts about its parameters that are taken as given};
        sib: {(fn,param): kinds of the node and of its following siblings}; trusted(f,call): result known non-null"""
        self.sib=sib or {}; self.trusted=trusted or (lambda f,x:False)
        self.m=m; self.fl=fl; self.fields=fields; self.scope=scope; self.given=given or {}; self.collect=None; self.optional=optional or {}
        self.needs=collections.defaultdict(dict); self.retnull=set(); self.mods={}
        self._mods(); self._getters(); self._pred={}; self._busy=set(); self.entry={}; self.latched=frozenset(); self.loopsof={}
        self.fix()
        for _ in range(3):
            e=self.entries()
            if e==self.entry: break
            self.entry=e; self._pred={}; self.needs.clear(); self.retnull=set(); self.fix()
    def fix(self):
        ch=True; it=0
        while ch and it<12:
            ch=False; it+=1
            for f in self.m.defined():
                if not self.scope(f): continue
                r=self.analyse(f)
                if r['retnull'] and f.name not in self.retnull: self.retnull.add(f.name); ch=True
                for k,x in r['needs'].items():
                    if k not in self.needs[f.name]: self.needs[f.name][k]=x; ch=True
    def entries(self):
        """what every caller knows about the arguments (functions called only directly)"""
        got={}; self.collect=got
        for f in self.m.defined(): self.analyse(f) if self.scope(f) else None
        self.collect=None
        for f in self.m.defined():
            if not self.scope(f):
                for x in f.calls():
                    for t in self.fl.targets(f,x): got[t]=frozenset()
        pub=set(public_api(self.m)); taken=self.addrtaken(); out={}
        for t,F in got.items():
            F=set(F)|self.given.get(t,set())
            if t not in pub and t not in taken and F: out[t]=frozenset(F)
        for t,F in self.given.items():
            if t not in out: out[t]=frozenset(F)
        return out
    def addrtaken(self):
        r=set()
        def walk(v):
            if isinstance(v,tuple):
                if len(v)==2 and v[0]=='g' and v[1] in self.m.funcs: r.add(v[1])
                else:
                    for y in v: walk(y)
        for g in self.m.globals.values(): walk(g.get('init'))
        for f in self.m.defined():
            for x in f.all():
                if x.op=='phi':
                    for o,_ in x.o: walk(o)
                else:
                    for o in x.o: walk(o)
        return r
    def _mods(self):
        d={f.name:{addr_key(f,x.o[1]) for x in f.all() if x.op=='store'} for f in self.m.defined()}
        for f in self.m.defined():
            d[f.name]={k for k in d[f.name] if k and k[0] in('f','g')}
            if any((x.cname or '').startswith(('xmlUnlink','xmlAdd','xmlReplace','xmlSetProp','xmlDocSet','xmlNodeSet','xmlTextMerge','xmlFreeNode')) for x in f.calls()): d[f.name].add('xml')
        ch=True
        while ch:
            ch=False
            for f in self.m.defined():
                for x in f.calls():
                    for t in self.fl.targets(f,x):
                        if d.get(t,set())-d[f.name]: d[f.name]|=d[t]; ch=True
        self.mods=d
    def _getters(self):
        """functions that only return a field of their argument: {fn: (param, [cells])}"""
        self.getter={}
        for f in self.m.defined():
            if f.rt!='ptr' or len(f.blocks)!=1: continue
            L=[x for x in f.blocks[0] if not(x.op=='call' and (x.cname or '').startswith('llvm.'))]
            if any(x.op not in('load','getelementptr','bitcast','ret') for x in L) or not L[-1].o: continue
            v=L[-1].o[0]; cells=[]
            while v[0]=='i' and f.insts[v[1]].op=='load':
                k=addr_key(f,f.insts[v[1]].o[0])
                if not k or k[0]!='f': break
                cells.append((k[1],k[2])); v=strip_ptr(f,f.insts[v[1]].o[0])
            if v[0]=='a' and len(cells)==1: self.getter[f.name]=(v[1],cells[::-1])
    # -------------------------------------------------------------- values and paths
    def canon(self,f,v):
        while v[0]=='i':
            x=f.insts[v[1]]
            if x.op in('bitcast','freeze') or (x.op=='getelementptr' and x.g and x.g.get('off')==0): v=x.o[0]
            else: break
        return v
    def path(self,f,addr,d=0):
        """access path of an address: ('F',root,cell...)"""
        k=addr_key(f,addr)
        if addr[0]=='i' and f.insts[addr[1]].op=='getelementptr' and not(k and k[0]=='f') and (f.insts[addr[1]].g or {}).get('p')==['[?]'] and len(f.insts[addr[1]].o)==2:
            ix=f.insts[addr[1]].o[1]
            while ix[0]=='i' and f.insts[ix[1]].op in('sext','zext'): ix=f.insts[ix[1]].o[0]
            return ('F',('E',self.canon(f,f.insts[addr[1]].o[0]),ix))
        if not k or k[0]!='f' or d>5: return ('G',k[1]) if k and k[0]=='g' else None
        b=strip_ptr(f,addr)
        if b[0]=='ce': return None
        return self.objpath(f,b,d)+((k[1],k[2]),)
    def objpath(self,f,v,d=0):
        """path naming the object v points to"""
        v=self.canon(f,v)
        if v[0]=='i' and d<6 and ('m',v[1]) in self.cur:
            p=self.valpath(f,f.insts[v[1]],d+1)
            if p and p[0]=='F': return p
        return ('F',v)
    def valpath(self,f,x,d=0):
        """path a load or getter call reads"""
        if x.op=='load': return self.path(f,x.o[0],d)
        if x.op=='call' and x.cname in self.getter:
            k,cells=self.getter[x.cname]; return self.objpath(f,x.o[k],d)+tuple(cells)
        return None
    def cellkey(self,f,x):
        if x.op=='load': return addr_key(f,x.o[0])
        if x.op=='call' and x.cname in self.getter: return ('f',)+self.getter[x.cname][1][-1]
        return None
    def nullable(self,f,v,seen=None):
        """can the value be null for some input?"""
        if v[0]=='n': return True
        if v[0]=='a': return v[1] in self.optional.get(f.name,())
        if v[0]!='i': return False
        memo=self.memo
        if v in memo: return memo[v]
        seen=seen or set()
        if v in seen: return False
        seen.add(v); x=f.insts[v[1]]; r=False
        if x.op=='phi': r=any(self.nullable(f,o,seen) for o,_ in x.o)
        elif x.op=='select': r=self.nullable(f,x.o[1],seen) or self.nullable(f,x.o[2],seen)
        elif x.op in('bitcast','freeze'): r=self.nullable(f,x.o[0],seen)
        elif x.op=='call':
            ts=self.fl.targets(f,x)
            if self.trusted(f,x): r=False
            elif x.cname in self.getter: r=self.cellkey(f,x) in self.fields
            else: r=any(t in self.retnull for t in ts) if ts else x.cname in NULLRET
        elif x.op=='load':
            k=addr_key(f,x.o[0]); r=k in self.fields
        if len(seen)==1: memo[v]=r
        return r
    def nn(self,f,v,F,d=0):
        """known non-null under facts F"""
        v=self.canon(f,v)
        if v[0]=='n': return False
        if v in F: return True
        if v[0]!='i': return not self.nullable(f,v)
        x=f.insts[v[1]]
        if ('m',v[1]) in F:
            self.cur=F; p=self.valpath(f,x)
            if p and (p in F or self.bytype(F,p)): return True
        if x.op=='select' and d<5: return self.nn(f,x.o[1],F,d+1) and self.nn(f,x.o[2],F,d+1)
        if x.op=='getelementptr': return True
        return not self.nullable(f,v)
    def strict(self,f,v,F,d=0):
        """non-null without relying on what callers promise about the parameters"""
        v=self.canon(f,v)
        if v in F: return True
        if v[0]=='a': return False
        if v[0]=='i' and f.insts[v[1]].op in('phi','select') and d<5:
            x=f.insts[v[1]]; L=[o for o,_ in x.o] if x.op=='phi' else x.o[1:]
            return all(self.strict(f,o,F,d+1) for o in L)
        return self.nn(f,v,F)
    # -------------------------------------------------------------- node types
    def types(self,F,p):
        t=self.ALL
        for q in F:
            if q[0]=='T' and q[1]==p: t=q[2]
        if self.sib and len(p)>1 and all(c==NEXT for c in p[2:]):
            k=self.derived(p[1])
            if k is not None: t=t&self.sib[(self.fn,k)]
        return t
    def derived(self,v,seen=()):
        """the parameter whose sibling list v walks, if any"""
        if v[0]=='a': return v[1] if (self.fn,v[1]) in self.sib else None
        if v[0]!='i': return None
        f=self.m.funcs[self.fn]; x=f.insts[v[1]]
        if x.op=='phi':
            ks={self.derived(self.canon(f,o),seen+(v,)) for o,_ in x.o if o[0]!='n' and self.canon(f,o) not in seen}
            return ks.pop() if len(ks)==1 else None
        if x.op=='load':
            k=addr_key(f,x.o[0])
            if k and k[0]=='f' and (k[1],k[2])==NEXT: return self.derived(strip_ptr(f,x.o[0]),seen+(v,))
        if x.op=='call' and x.cname in self.getter and self.getter[x.cname][1]==[NEXT]: return self.derived(self.canon(f,x.o[self.getter[x.cname][0]]),seen+(v,))
        return None
    def settypes(self,F,p,vals):
        for q in [q for q in F if q[0]=='T' and q[1]==p]: F.discard(q)
        if vals!=self.ALL: F.add(('T',p,frozenset(vals)))
    def bytype(self,F,p):
        c=p[-1]
        # a node has a first child exactly when it has a last child
        if c[1]==32 and c[0] in LISTS and p[:-1]+((c[0],24),) in F or c[1]==24 and c[0] in LISTS and p[:-1]+((c[0],32),) in F: return True
        if c==CONTENT: return self.types(F,p[:-1])<=HASCONTENT
        if c==NAME: return self.types(F,p[:-1])<=HASNAME
        return False
    def typetest(self,f,v,vals,F):
        """integer v was found to be in vals"""
        v=self.canon(f,v)
        while v[0]=='i' and f.insts[v[1]].op in('zext','sext','trunc'): v=f.insts[v[1]].o[0]
        if v[0]!='i' or f.insts[v[1]].op!='load': return True
        x=f.insts[v[1]]; k=addr_key(f,x.o[0])
        if not k or k[0]!='f' or (k[1],k[2])!=TYPE: return True
        self.cur=F; p=self.objpath(f,strip_ptr(f,x.o[0])); t=self.types(F,p); t=frozenset(k for k in t if (k&31) in vals)
        if not t: return False
        self.settypes(F,p,t); return True
    # -------------------------------------------------------------- analysis
    def analyse(self,f,entry=None,pred=False,peel=False):
        """fixpoint; peel: keep the first iteration of every loop apart from the later ones"""
        if entry is None: entry=self.entry.get(f.name) or ()
        self.fn=f.name
        self.memo={}; IN={}; OUT=self.out=dict(); outs={}; res=dict(needs={},retnull=False,bad=[],uses=0)
        order={b:i for i,b in enumerate(f.rpo())}; start=(0,frozenset()); IN[start]=frozenset(entry); work=[start]
        split=self.flags(f) if peel else (); loops=f.loops() if peel else {}; self.latched=frozenset(); self.loopsof=loops; steps=0
        while work:
            work.sort(key=lambda n:-order.get(n[0],0)); n=work.pop(); b,tag=n; steps+=1
            if steps>20000: res['limit']=True; break
            self.latched=tag
            F=set(IN[n]); self.block(f,b,F,None)
            for s,G in self.edges(f,b,F):
                if s not in order: continue
                outs[(b,s,tag)]=frozenset(G)
                if peel:
                    R=None
                    for (p,q,t),e in outs.items():
                        if (p,q)==(b,s): R=e if R is None else self.meet(R,e)
                    OUT[(b,s)]=R
                else: OUT[(b,s)]=frozenset(G)
                G=self.phis(f,s,b,G)
                t2=tag
                if peel:
                    t2=frozenset(h for h in tag if isinstance(h,int) and s in loops[h][0])
                    if s in loops: t2=t2|{s} if b in loops[s][0] else t2-{s}
                    t2=t2|frozenset(q for q in G if q[0]=='B' and q[1] in split)
                m=(s,t2); new=frozenset(G) if m not in IN else self.meet(IN[m],frozenset(G))
                if m not in IN or new!=IN[m]:
                    IN[m]=new
                    if m not in work: work.append(m)
        if pred: return [(n[0],F) for n,F in IN.items()]
        for n in IN:
            self.latched=n[1]; self.block(f,n[0],set(IN[n]),res)
        return res
    def flags(self,f):
        """boolean fields tested more than once: their value is kept apart along the paths"""
        self.cur=set(); n=collections.Counter()
        for x in f.all():
            if x.op=='load' and x.t in('i8','i1','i32'):
                k=addr_key(f,x.o[0])
                if k and k[0]=='f':
                    p=self.path(f,x.o[0])
                    if p: n[p]+=1
        return {p for p,c in n.most_common(6) if c>1}
    def const(self,f,v,d=0):
        """integer constant of v in the current loop context"""
        if v[0]=='c': return v[1]
        if v[0]!='i' or d>8: return None
        x=f.insts[v[1]]
        if x.op=='phi':
            L=self.loopsof.get(x.blk)
            if not L or x.blk in self.latched: return None
            vals={self.const(f,o,d+1) for o,p in x.o if p not in L[0]}
            return vals.pop() if len(vals)==1 else None
        if x.op in('zext','sext','trunc'): return self.const(f,x.o[0],d+1)
        if x.op in('add','sub','mul','shl','icmp'):
            a,b=self.const(f,x.o[0],d+1),self.const(f,x.o[1],d+1)
            if a is None or b is None: return None
            if x.op!='icmp': return {'add':a+b,'sub':a-b,'mul':a*b,'shl':a<<(b&63)}[x.op]
            if min(a,b)<0 and x.p[0]=='u': return None
            p=x.p[-2:]
            return int({'eq':a==b,'ne':a!=b,'lt':a<b,'gt':a>b,'le':a<=b,'ge':a>=b}[p])
        return None
    def meet(self,A,B):
        R=A&B
        ta={q[1]:q[2] for q in A-R if q[0]=='T'}
        if ta:
            tb={q[1]:q[2] for q in B if q[0]=='T'}
            R|={('T',p,v|tb[p]) for p,v in ta.items() if p in tb and v|tb[p]!=self.ALL}
        return R
    def phis(self,f,s,b,F):
        G=set(F); add=set(); rm=set()
        for x in f.blocks[s]:
            if x.op!='phi': break
            me=('i',x.i); rm.add(me)
            if x.t!='ptr': continue
            for o,p in x.o:
                if p==b and self.nn(f,o,F):
                    add.add(me)
                    if ('s',self.canon(f,o)) in F: add.add(('s',me))
        if rm:
            G={q for q in G if not(q in rm or q[0]=='s' and q[1] in rm or q[0]=='F' and self.deps(q[1])&rm or q[0] in('T','B') and self.deps(q[1][1])&rm)}|add
            # facts about the incoming object hold for the phi
            for x in f.blocks[s]:
                if x.op!='phi': break
                if x.t!='ptr': continue
                for o,p in x.o:
                    if p!=b or o[0] not in('i','a'): continue
                    self.cur=F; op=self.objpath(f,o); me=('i',x.i)
                    if op[1]==me: continue
                    for q in F:
                        if q[0]=='F' and len(q)>len(op) and q[:len(op)]==op: G.add(('F',me)+q[len(op):])
                        elif q[0]=='T' and q[1]==op: G.add(('T',('F',me),q[2]))
                        elif q[0]=='T' and q[1][:len(op)]==op: G.add(('T',('F',me)+q[1][len(op):],q[2]))
        return G
    def deps(self,r):
        return {r[1],r[2]} if r[0]=='E' else {r}
    def kill(self,F,pred):
        """pred on an access path: the last cell of an F path or the whole object path of a T fact"""
        for q in [q for q in F if q[0]=='F' and pred(q) or q[0] in('T','B') and pred(q[1])]: F.discard(q)
    def block(self,f,b,F,res):
        self.cur=F
        for x in f.blocks[b]:
            if x.op=='phi': continue
            me=('i',x.i)
            if x.i is not None:
                F.discard(me); F.discard(('m',x.i)); F.discard(('s',me))
                if x.op in('load','call'):
                    for q in [q for q in F if q[0]=='F' and me in self.deps(q[1]) or q[0] in('T','B') and me in self.deps(q[1][1])]: F.discard(q)
            if x.op=='load':
                self.use(f,x.o[0],x,F,res)
                if x.t=='ptr':
                    p=self.path(f,x.o[0])
                    if p:
                        F.add(('m',x.i))
                        if p in F: F.add(me)
            elif x.op=='store':
                self.use(f,x.o[1],x,F,res)
                k=addr_key(f,x.o[1])
                if k and k[0]=='f' and x.vt=='ptr':
                    c=(k[1],k[2]); self.kill(F,lambda q:c in q[2:])
                    for q in [q for q in F if q[0]=='m' and self.cellkey(f,f.insts[q[1]])==k]: F.discard(q)
                    p=self.path(f,x.o[1])
                    if p and self.nn(f,x.o[0],F): F.add(p)
                elif k and k[0]=='f':
                    c=(k[1],k[2])
                    for q in [q for q in F if q[0]=='B' and q[1][-1]==c]: F.discard(q)
                elif k and k[0]=='g':
                    F.discard(('G',k[1]))
                    if self.nn(f,x.o[0],F): F.add(('G',k[1]))
                elif x.vt=='ptr':
                    self.kill(F,lambda q:q[1][0]=='E')
                    for q in [q for q in F if q[0]=='m' and not self.cellkey(f,f.insts[q[1]])]: F.discard(q)
            elif x.op=='call':
                self.call(f,x,F,res)
            elif x.op=='ret' and x.o and f.rt=='ptr' and res is not None:
                if not self.nn(f,x.o[0],F): res['retnull']=True
    def use(self,f,addr,x,F,res):
        """address dereferenced at x"""
        v=strip_ptr(f,addr)
        if v[0]=='n':
            return
        if v[0] not in('i','a'): return
        if res is not None and v[0]=='i' and self.nullable(f,v):
            res['uses']+=1
            if not self.nn(f,v,F): res['bad'].append((x,v,'dereferenced'))
        if res is not None and v[0]=='a' and self.nullable(f,v):
            res['uses']+=1
            if v not in F: res['bad'].append((x,v,'dereferenced'))
        if res is not None and v[0]=='a' and v not in F and v[1] not in res['needs']: res['needs'][v[1]]=x
        if v[0]=='i' or v[0]=='a': F.add(v); F.add(('s',v))      # it survived
        if v[0]=='i' and ('m',v[1]) in F:
            p=self.valpath(f,f.insts[v[1]])
            if p: F.add(p)
    def argtypes(self,f,o,op,F): return self.types(F,op)
    def call(self,f,x,F,res):
        ts=self.fl.targets(f,x); nm=x.cname
        if self.collect is not None and res is not None:
            E=set()
            for j,o in enumerate(x.o):
                if o[0] not in('i','a'): continue
                if self.strict(f,o,F): E.add(('a',j))
                self.cur=F; op=self.objpath(f,o); t=self.argtypes(f,o,op,F)
                if t!=self.ALL: E.add(('T',('F',('a',j)),t))
                for q in F:
                    if q[0]=='F' and len(q)>len(op) and q[:len(op)]==op: E.add(('F',('a',j))+q[len(op):])
                    elif q[0]=='T' and q[1][:len(op)]==op and q[1]!=op: E.add(('T',('F',('a',j))+q[1][len(op):],q[2]))
            for t in ts: self.collect[t]=frozenset(E) if t not in self.collect else self.meet(self.collect[t],frozenset(E))
        if nm and nm.startswith('llvm.') and not nm.startswith('llvm.mem'): return
        if x.callee and x.callee[0] in('i','a'):
            v=self.canon(f,x.callee)
            if res is not None and v[0]=='i' and self.nullable(f,v):
                res['uses']+=1
                if not self.nn(f,v,F): res['bad'].append((x,v,'called'))
            if v[0]=='a':
                if res is not None and v not in F and self.nullable(f,v): res['uses']+=1; res['bad'].append((x,v,'called'))
                if res is not None and v not in F and v[1] not in res['needs']: res['needs'][v[1]]=x
            F.add(v)
            if v[0]=='i' and ('m',v[1]) in F:
                self.cur=F; p=self.valpath(f,f.insts[v[1]])
                if p: F.add(p)
        for j,o in enumerate(x.o):
            need=(j in NEEDS.get(nm,())) if not ts else any(j in self.needs[t] for t in ts)
            if need:
                v=self.canon(f,o)
                if res is not None:
                    if v[0]=='n' and ts: res['uses']+=1; res['bad'].append((x,v,'passed to %s'%(nm or ts[0])))
                    if v[0]=='i' and self.nullable(f,v):
                        res['uses']+=1
                        if not self.nn(f,v,F): res['bad'].append((x,v,'passed to %s'%(nm or (ts and list(ts)[0]))))
                    if v[0]=='a' and self.nullable(f,v):
                        res['uses']+=1
                        if v not in F: res['bad'].append((x,v,'passed to %s'%(nm or (ts and list(ts)[0]))))
                    if v[0]=='a' and v not in F and v[1] not in res['needs'] : res['needs'][v[1]]=x
                if all(j in self.needs[t] for t in ts) and v[0] in('i','a'): F.add(v)
        # effects
        mod=set()
        for t in ts: mod|=self.mods.get(t,set())
        if not ts and nm and nm.startswith(('xmlUnlink','xmlAdd','xmlReplace','xmlDocSet','xmlNodeSet','xmlTextMerge','xmlFreeNode','xmlFreeDoc')): mod={'xml'}
        if mod:
            cells={(k[1],k[2]) for k in mod if k!='xml' and k[0]=='f'}; xml='xml' in mod
            self.kill(F,lambda q:any(c in cells or (xml and str(c[0]).startswith('struct._xml')) for c in q[2:]))
            for q in [q for q in F if q[0]=='m']:
                k=self.cellkey(f,f.insts[q[1]])
                if k and k[0]=='f' and ((k[1],k[2]) in cells or (xml and k[1].startswith('struct._xml'))): F.discard(q)
            for q in [q for q in F if q[0]=='G' and ('g',q[1]) in mod]: F.discard(q)
        if nm in self.getter and x.t=='ptr':
            F.add(('m',x.i)); self.cur=F
            p=self.valpath(f,x)
            if p in F: F.add(('i',x.i))
    def edges(self,f,b,F):
        t=f.blocks[b][-1]
        if any(x.op=='call' and x.noret for x in f.blocks[b]): return
        if t.op=='br' and len(t.s)==2 and t.o:
            for i,s in enumerate(t.s):
                G=set(F)
                if self.cond(f,t.o[0],i==0,G): yield s,G
        elif t.op=='switch':
            cs=[c for c,_ in t.s if c is not None]
            for s in f.succ(b):
                G=set(F); vals=frozenset(c for c,q in t.s if q==s and c is not None)
                if any(c is None and q==s for c,q in t.s): vals=vals|(ALLT-frozenset(cs))
                if self.typetest(f,t.o[0],vals,G): yield s,G
        else:
            for s in f.succ(b): yield s,set(F)
    def cond(self,f,c,truth,F,d=0):
        """add what the branch tells; False when impossible"""
        if c[0]!='i' or d>8: return True
        if self.loopsof:
            k=self.const(f,c)
            if k is not None: return bool(k)==truth
        x=f.insts[c[1]]
        if x.op=='xor' and x.o[1][0]=='c' and x.o[1][1] in(1,-1): return self.cond(f,x.o[0],not truth,F,d+1)
        if x.op in('trunc','zext','freeze'): return self.cond(f,x.o[0],truth,F,d+1)
        if x.op=='and' and truth or x.op=='or' and not truth:
            return self.cond(f,x.o[0],truth,F,d+1) and self.cond(f,x.o[1],truth,F,d+1)
        if x.op=='icmp' and x.p in('eq','ne'):
            a,bb=x.o
            if a[0] in('n','c'): a,bb=bb,a
            if bb[0]=='n':
                if (x.p=='ne')==truth: self.known(f,a,F)
                elif ('s',self.canon(f,a)) in F: return False
            elif bb[0]=='c':
                eq=(x.p=='eq')==truth
                if bb[1]==0 and not self.isint(f,a): return self.cond(f,a,truth==(x.p=='ne'),F,d+1)
                return self.typetest(f,a,frozenset({bb[1]}) if eq else ALLT-{bb[1]},F)
        if x.op=='icmp' and x.p in('ult','ule','ugt','uge') and x.o[1][0]=='c':
            n=x.o[1][1]; fn={'ult':lambda v:v<n,'ule':lambda v:v<=n,'ugt':lambda v:v>n,'uge':lambda v:v>=n}[x.p]
            a=x.o[0]; off=0
            if a[0]=='i' and f.insts[a[1]].op=='add' and f.insts[a[1]].o[1][0]=='c': off=f.insts[a[1]].o[1][1]; a=f.insts[a[1]].o[0]
            return self.typetest(f,a,frozenset(v for v in ALLT if fn((v+off)&0xffffffff)==truth),F)
        if x.op=='phi' and x.t in('i1','i8'):
            # short-circuit: the facts of every way this phi can have the value
            R=None
            for o,p in x.o:
                if o[0]=='c' and bool(o[1])!=truth: continue
                E=self.out.get((p,x.blk))
                if E is None: continue
                E=set(E)
                if o[0]!='c' and not self.cond(f,o,truth,E,d+1): continue
                E=frozenset(q for q in E if q[0]!='m')
                R=E if R is None else self.meet(R,E)
            if R is None: return True
            if f.insts[c[1]].blk is not None: 
                for q in R:
                    if q[0]=='T':
                        t=self.types(F,q[1])&q[2]
                        if t: self.settypes(F,q[1],t)
                    else: F.add(q)
        if x.op=='load' and x.t in('i8','i1','i32'):
            self.cur=F; p=self.path(f,x.o[0])
            if p and p[0]=='F' and len(p)>2:
                if ('B',p,not truth) in F: return False
                F.add(('B',p,truth))
        if x.op=='call' and x.t in('i1','i8','i32'):
            if x.cname in self.getter: return True
            for k,q in self.pred(f,x,truth):
                self.cur=F; root=self.objpath(f,x.o[k])
                if q[0]=='F': 
                    if len(q)>2: F.add(root+q[2:])
                    elif x.o[k][0]=='i': self.known(f,x.o[k],F)
                elif q[0]=='a': self.known(f,x.o[k],F)
                elif q[0]=='T':
                    p=root+q[1][2:]; t=self.types(F,p)&q[2]
                    if not t: return False
                    self.settypes(F,p,t)
        return True
    def isint(self,f,a):
        a=self.canon(f,a)
        if a[0]!='i': return False
        x=f.insts[a[1]]
        return x.op=='load' and x.t=='i32'
    def known(self,f,v,F):
        v=self.canon(f,v); F.add(v); F.add(('s',v))
        if v[0]=='i' and ('m',v[1]) in F:
            self.cur=F; p=self.valpath(f,f.insts[v[1]])
            if p: F.add(p)
    def pred(self,f,x,truth):
        """facts about arguments after call x returned `truth`: [(param, fact)]"""
        ts=[t for t in self.fl.targets(f,x)]
        if len(ts)!=1: return ()
        t=ts[0]; g=self.m.funcs[t]
        if g.rt not in('i1','i8') or not any(p[0]=='ptr' for p in g.params) or sum(len(b) for b in g.blocks)>400: return ()
        if t not in self._pred:
            if t in self._busy: return ()
            self._busy.add(t)
            sv=(self.memo,self.out,getattr(self,'cur',None),self.latched,self.loopsof,self.fn)
            IN=self.analyse(g,entry=(),pred=True,peel=self.peelpred); S={True:None,False:None}
            for b,F0 in IN:
                if g.blocks[b][-1].op!='ret': continue
                F=set(F0); self.block(g,b,F,None); rv=g.blocks[b][-1].o[0]
                for tr in(True,False):
                    for E in self.retfacts(g,rv,tr,F,b):
                        E=frozenset(q for q in E if q[0] in('F','T','a') and (q[1][0]=='a' if q[0]=='F' else q[1][1][0]=='a' if q[0]=='T' else True))
                        S[tr]=E if S[tr] is None else self.meet(S[tr],E)
            self.memo,self.out,self.cur,self.latched,self.loopsof,self.fn=sv
            self._busy.discard(t)
            self._pred[t]={tr:[((q[1][1] if q[0]=='F' else q[1][1][1] if q[0]=='T' else q[1]),q) for q in (S[tr] or ())] for tr in(True,False)}
        return self._pred[t][truth]
    def retfacts(self,g,rv,tr,F,b):
        if rv[0]=='c':
            if bool(rv[1])==tr: yield F
            return
        x=g.insts[rv[1]] if rv[0]=='i' else None
        if x is not None and x.op=='phi' and x.blk==b:
            for o,p in x.o:
                E=self.out.get((p,b))
                if E is None: continue
                E=set(E)
                if o[0]=='c':
                    if bool(o[1])==tr: yield E
                elif self.cond(g,o,tr,E): yield E
            return
        E=set(F)
        if self.cond(g,rv,tr,E): yield E
