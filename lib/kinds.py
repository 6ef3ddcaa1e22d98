"""Which kinds of tree nodes a node pointer can refer to: interprocedural dataflow on top of the facts of nullness.Null.

A kind is the libxml2 node type plus 32 times the place in the tree: children of a document, of an element, of a doctype, of an
attribute; documents; attributes; namespaces; loose nodes. Links between nodes step from place to place."""
from util import *
from flow import addr_key
from nullness import *
D,E,T,A,R,P,N,L,O=range(1,10)      # places
PLACES={D:(1,3,4,5,7,8,14),E:(1,3,4,5,7,8),T:(15,16,17,7,8),A:(3,5),R:(9,13),P:(2,),N:(18,),L:(1,3,4,5,7,8),O:(18,)}
K=lambda p,*t:frozenset(32*p+x for x in (t or PLACES[p]))
EVERY=frozenset().union(*[K(p) for p in PLACES])
XPATH=K(D,1,3,4,7,8)|K(E,1,3,4,7,8)|K(P)|K(R)|K(N)
def step(ks,off):
    """the kinds reached over a link"""
    r=set()
    for k in ks:
        p,t=divmod(k,32)
        if off in(24,32):
            if p==R: r|=K(D)
            elif t==14: r|=K(T)
            elif t==1: r|=K(E)
            elif t==2: r|=K(A)
            elif t==5: r|=K(T,17)
            elif t==17: r|=K(E)
            elif t in(3,4,7,8,15,16,18): pass
            else: r|=EVERY
        elif off in(48,56): r|=(K(D,3,4,5) if (p,t) in((D,3),(D,4),(D,5)) else K(p)) if p!=R else set()
        elif off==40: r|={D:K(R),E:K(D,1)|K(E,1)|K(T,17)|K(L,1),T:K(D,14),A:K(P),R:set(),P:K(D,1)|K(E,1)|K(L,1),N:K(D,1)|K(E,1),O:set(),L:K(R)|K(E,1)}[p]
        elif off==64: r|=K(R)
        else: return EVERY
    return frozenset(r)
NEW={'xmlNewDocNode':(1,),'xmlNewNode':(1,),'xmlNewDocText':(3,),'xmlNewText':(3,),'xmlNewDocTextLen':(3,),'xmlNewDocComment':(8,),'xmlNewComment':(8,),'xmlNewCDataBlock':(4,),'xmlNewReference':(5,),'xmlNewCharRef':(5,),'xmlNewTextLen':(3,),'xmlNewChild':(1,),'xmlNewTextChild':(1,),'xmlNewDocNodeEatName':(1,),'xmlNewNodeEatName':(1,),'xmlNewDocPI':(7,),'xmlNewPI':(7,),'xmlNewDocRawNode':(1,)}
SAME={'xmlAddChild':1,'xmlAddNextSibling':1,'xmlAddPrevSibling':1,'xmlAddSibling':1,'xmlReplaceNode':0,'xmlCopyNode':0,'xmlDocCopyNode':0,'xmlTextMerge':0}
class Kinds(Null):
    ALL=EVERY; peelpred=True
    def __init__(self,m,fl,scope):
        self.m=m; self.fl=fl; self.fields=set(); self.scope=scope; self.given={}; self.collect=None; self.optional={}; self.sib={}; self.trusted=lambda f,x:False
        self.needs=collections.defaultdict(dict); self.retnull=set(); self.mods={}; self._mods(); self._getters(); self._pred={}; self._busy=set(); self.entry={}; self.latched=frozenset(); self.loopsof={}
        self.acc=None; self.grown=set()
        self.vars()
        self.ranged={}
        for f in self.m.defined():
            if self.scope(f):
                p=self.range(f)
                if p: self.ranged[f.name]=p
        while True:
            self.reach(); bad=self.spans()
            if not bad: break
            for n in bad: del self.ranged[n]
    def range(self,f):
        """parameters (i,j) of a function that walks the siblings from i to j"""
        for x in f.all():
            if x.op!='icmp' or x.p not in('eq','ne') or x.o[0][0] not in('i','a') or x.o[1][0] not in('i','a'): continue
            for a,b in(x.o,x.o[::-1]):
                a,b=self.canon(f,a),self.canon(f,b)
                if b[0]!='a' or a[0]!='i' or f.insts[a[1]].op!='phi': continue
                for o,_ in f.insts[a[1]].o:
                    o=self.canon(f,o)
                    if o[0]=='a' and o!=b: return(o[1],b[1])
    def spans(self):
        """ranged functions that are called with more than one node of the document level"""
        bad=set()
        def acc(f,x,F):
            if x.op!='call': return
            for t in self.fl.targets(f,x):
                if t in self.ranged:
                    i,j=self.ranged[t]
                    if self.canon(f,x.o[i])!=self.canon(f,x.o[j]) and self.kinds(f,x.o[i],F)&K(D): bad.add(t)
        self.acc=acc
        for t in self.entry: self.analyse(self.m.funcs[t])
        self.acc=None
        return bad
    def nullable(self,f,v,seen=None): return False
    def bytype(self,F,p): return False
    def entries(self): return {}
    def vars(self):
        """node variables whose address is taken: one class for a variable and the parameters that can point to it"""
        self.up={}; self.users=collections.defaultdict(set)
        for f in self.m.defined():
            if not self.scope(f): continue
            for x in f.calls():
                for j,o in enumerate(x.o):
                    v=self.canon(f,o)
                    if v[0]=='i' and f.insts[v[1]].op=='alloca' and f.insts[v[1]].at=='ptr' or v[0]=='a':
                        for t in self.fl.targets(f,x): self.up[self.find((f.name,v))]=self.find((t,('a',j)))
    def find(self,k):
        while k in self.up and self.up[k]!=k: k=self.up[k]
        return k
    def var(self,f,addr):
        v=self.canon(f,addr)
        if v[0]=='a' or v[0]=='i' and f.insts[v[1]].op=='alloca': return self.find((f.name,v))
        k=addr_key(f,addr)
        if k and (k[0]=='g' or k[0]=='f' and not k[1].startswith('struct._xml') and not k[1].endswith(('XMQDoc','XMQNode','HashMap'))): return k
        return None
    def stack(self,f,v):
        """the stack a stack element pointer or stack pointer comes from"""
        for _ in range(8):
            v=self.canon(f,v)
            if v[0]!='i' or f.insts[v[1]].op!='load': return None
            k=addr_key(f,f.insts[v[1]].o[0])
            if not k or k[0]!='f': return None
            if k[1] not in('struct.Stack','struct.StackElement'): return ('S',)+k
            v=strip_ptr(f,f.insts[v[1]].o[0])
    def put(self,c,ks):
        k=self.cell.get(c,frozenset())|ks
        if k!=self.cell.get(c): self.cell[c]=k; self.grown.add(c)
    def got(self,f,c):
        # what handles the inside of an element does not see the document at the bottom of the stack
        ks=self.cell.get(c,frozenset()); self.users[c].add(f.name); return ks-K(R) if c[0]=='S' else ks
    def reach(self):
        """least fixpoint over the reached functions"""
        m=self.m; self.entry={}; self._pred={}; self.cell={}; pub=set(public_api(m))|{'main'}; taken=self.addrtaken()
        work=[f.name for f in m.defined() if self.scope(f) and (f.name in pub or f.name in taken)]
        for n in work: self.entry[n]=frozenset()
        inw=set(work); n=0
        while work and n<20000:
            n+=1; t=work.pop(0); inw.discard(t); f=m.funcs[t]
            self.collect={}; self.grown=set(); self.analyse(f); got=self.collect; self.collect=None
            for k in list(self.grown):
                for g in self.users[k]:
                    if g in self.entry and g not in inw: work.append(g); inw.add(g)
            for g,F in got.items():
                if not self.scope(m.funcs[g]): continue
                F=frozenset(q for q in F if q[0]=='T')
                new=F if g not in self.entry else self.meet(self.entry[g],F)
                if g not in self.entry or new!=self.entry[g]:
                    self.entry[g]=new
                    if g not in inw: work.append(g); inw.add(g)
    # ------------------------------------------------------------------ kinds of values
    def types(self,F,p):
        t=None
        for q in F:
            if q[0]=='T' and q[1]==p: t=q[2]
        if t is not None: return t
        if len(p)>2 and p[0]=='F':
            c=p[-1]
            if c[0] in('struct._xmlNode','struct._xmlDoc','struct._xmlAttr','struct._xmlDtd','struct._xmlEntity'): return self.link(F,p[:-1],c)
        if p[0]=='F' and len(p)==2: return self.root(p[1])
        return EVERY
    def link(self,F,base,c):
        if c==('struct._xmlNode',88): return K(P)
        if c==('struct._xmlNode',96): return K(O)
        if c==('struct._xmlNode',72): return K(O)
        if c[0]=='struct._xmlDoc' and c[1] in(80,88): return K(D,14)
        b=self.types(F,base)
        if c[0]=='struct._xmlDoc': b=K(R)
        elif c[0]=='struct._xmlAttr': b=K(P)
        elif c[0]=='struct._xmlDtd': b=K(D,14)
        # on the document level a walk with a given end is about a single node (see spans)
        if c[1]==48 and self.fn in self.ranged: b=b-K(D)
        return step(b,c[1])
    def root(self,v):
        f=self.m.funcs[self.fn]
        if v[0]!='i': return EVERY
        x=f.insts[v[1]]
        if x.op=='alloca' and x.at in('struct._xmlNode','%struct._xmlNode'): return K(L,3)
        if x.op=='call':
            if x.cname in('stack_pop','stack_rock'):
                c=self.stack(f,x.o[0])
                if c: return self.got(f,c)
            if x.cname in SAME: return self.kinds(f,x.o[SAME[x.cname]],self.cur)|K(L,3)
            if x.cname in NEW: return K(L,*NEW[x.cname])
            if x.cname in('xmlDocGetRootElement',): return K(D,1)
            if x.cname in('xmlNewDoc','xmlReadMemory','htmlReadMemory','xsltApplyStylesheet','xmlCopyDoc','htmlNewDoc'): return K(R)
            if x.cname in('xmlHasProp','xmlNewProp','xmlSetProp','xmlNewNsProp','xmlSetNsProp','xmlHasNsProp'): return K(P)
            if x.cname in('xmlNewDtd','xmlGetIntSubset','xmlCreateIntSubset'): return K(D,14)
            ts=[t for t in self.fl.targets(f,x)]
            if ts and all(self.scope(self.m.funcs[t]) for t in ts): return frozenset().union(*[self.got(f,('ret',t)) for t in ts])
        if x.op=='load':
            k=addr_key(f,x.o[0])
            if k and k[0]=='f':
                if k[1].endswith('XMQDoc'): return K(R)
                if k[1].endswith('XMQNode'): return XPATH
                if k[1]=='struct._xmlNs' and k[2]==0:
                    # a namespace found by a query refers to its element
                    return K(D,1)|K(E,1) if self.kinds(f,strip_ptr(f,x.o[0]),self.cur)<=K(N) else K(O)
            c=self.var(f,x.o[0])
            if c is not None and c[1]=='struct.StackElement':
                c=self.stack(f,strip_ptr(f,x.o[0]))
                if c is None: return EVERY
            if c is not None: return self.got(f,c)
            a=strip_ptr(f,x.o[0])
            if a[0]=='i' and f.insts[a[1]].op=='load':
                k=addr_key(f,f.insts[a[1]].o[0])
                if k and k[0]=='f' and k[2]==8 and k[1] in('struct._xmlNodeSet','struct.HashMap'): return XPATH
        return EVERY
    def phis(self,f,s,b,F):
        G=super().phis(f,s,b,F)
        for x in f.blocks[s]:
            if x.op!='phi': break
            if x.t!='ptr': continue
            me=('i',x.i); t=None
            for o,p in x.o:
                if p!=b: continue
                o=self.canon(f,o)
                if o[0]=='n': t=frozenset() if t is None else t; continue
                k=self.kinds(f,o,F); t=k if t is None else t|k
            if t is not None: self.settypes(G,('F',me),t)
            for q in [q for q in G if q[0]=='=' and q[1]==me]: G.discard(q)
            self.cur=F; ps={self.objpath(f,self.canon(f,o)) for o,p in x.o if p==b}
            if len(ps)==1:
                p=ps.pop(); G.add(('=',me,p))
                if ('+',p) in F: G.add(('s',me))
        return G
    def kinds(self,f,v,F):
        v=self.canon(f,v)
        if v[0]=='n': return frozenset()
        if v[0]=='i' and f.insts[v[1]].op=='select':
            x=f.insts[v[1]]; return self.kinds(f,x.o[1],F)|self.kinds(f,x.o[2],F)
        self.cur=F; return self.types(F,('F',v))&self.types(F,self.objpath(f,v))
    def argtypes(self,f,o,op,F): return self.kinds(f,o,F)
    def typetest(self,f,v,vals,F):
        w=self.canon(f,v)
        while w[0]=='i' and f.insts[w[1]].op in('zext','sext','trunc'): w=f.insts[w[1]].o[0]
        if w[0]!='i' or f.insts[w[1]].op!='load': return True
        x=f.insts[w[1]]; k=addr_key(f,x.o[0])
        if not k or k[0]!='f' or k[2]!=8 or k[1] not in('struct._xmlNode','struct._xmlDoc','struct._xmlAttr'): return True
        b=self.canon(f,strip_ptr(f,x.o[0])); t=frozenset(q for q in self.kinds(f,b,F) if (q&31) in vals)
        if not t: return False
        self.narrow(f,b,t,F); return True
    def narrow(self,f,b,t,F):
        self.cur=F; self.settypes(F,('F',b),t); p=self.objpath(f,b)
        if p!=('F',b): self.settypes(F,p,t)
        for q in [q for q in F if q[0]=='=' and q[1]==b]: self.settypes(F,q[2],t&self.types(F,q[2]))
    def settypes(self,F,p,t):
        super().settypes(F,p,t)
        # only some parents have such children
        if len(p)>2 and p[-1] in(('struct._xmlNode',24),('struct._xmlNode',32)):
            q=p[:-1]; ks=self.types(F,q); new=frozenset(k for k in ks if step((k,),24)&t)
            if new!=ks and new: self.settypes(F,q,new)
    def block(self,f,b,F,res):
        for x in f.blocks[b]:
            if x.op=='phi': continue
            self.one(f,b,x,F,res)
    def one(self,f,b,x,F,res):
        full=f.blocks[b]
        if x.op=='store' and x.vt=='ptr':
            for q in [q for q in F if q[0] in('=','+')]: F.discard(q)
            c=self.var(f,x.o[1])
            if c is not None: self.put(c,self.kinds(f,x.o[0],F))
        if x.op=='call' and x.cname=='stack_push':
            c=self.stack(f,x.o[0])
            if c: self.put(c,self.kinds(f,x.o[1],F))
        if self.acc is not None and res is not None: self.acc(f,x,F)
        f.blocks[b]=[x]
        try: super().block(f,b,F,res)
        finally: f.blocks[b]=full
        if x.t=='ptr' and (x.op=='load' or x.op=='call' and x.cname in self.getter):
            self.cur=F; p=self.valpath(f,x)
            if p and len(p)>2:
                me=('F',('i',x.i)); self.settypes(F,me,self.types(F,p))
        elif x.op=='ret' and x.o and f.rt=='ptr' and res is not None:
            self.put(('ret',f.name),self.kinds(f,x.o[0],F))
    def known(self,f,v,F):
        v=self.canon(f,v); F.add(('s',v)); self.cur=F; p=self.objpath(f,v)
        if p!=('F',v): F.add(('+',p))
    def use(self,f,addr,x,F,res): pass
