"""Conditional constant propagation of a function over an abstract text: the text given to one parameter is known to be exactly L, or to
start with L (whatever follows). Answers which blocks can be executed, what is stored and what is returned for every such text."""
TOP=('top',); NZ=('nz',)
class Text:
    """L followed by nothing (exact) or by any text of at least `more` characters"""
    def __init__(self,s,exact=True): self.s=s if isinstance(s,bytes) else s.encode(); self.exact=exact
    def cmp(self,off,lit,n=None):
        """True equal, False different, None not known: strcmp/strncmp of text+off with lit"""
        if off>len(self.s): return None
        a=self.s[off:]
        if n is not None:
            want=lit[:n] if len(lit)>=n else lit+b'\0'
        else: want=lit+b'\0'
        have=a+(b'\0' if self.exact else b'')
        k=min(len(want),len(have))
        if want[:k]!=have[:k]: return False
        if len(have)>=len(want): return True
        return None if not self.exact else False
    def char(self,off):
        if off<0: return None
        if off<len(self.s): return self.s[off]
        if off==len(self.s) and self.exact: return 0
        return None

class Run:
    def __init__(self,m,f,text=None,param=0,fields=None,consts=None,depth=0):
        """fields: {(struct,field): const} values of fields while the function is entered; consts: {param index: value}"""
        self.m=m; self.f=f; self.text=text; self.param=param; self.fields=fields or {}; self.consts=consts or {}; self.depth=depth
        self.val={}; self.edges=set(); self.blocks=set(); self._run()
    def op(self,v):
        if v[0]=='c': return ('c',v[1])
        if v[0]=='n': return ('c',0)
        if v[0]=='a':
            if v[1] in self.consts: return self.consts[v[1]]
            if self.text is not None and v[1]==self.param: return ('S',0)
            return ('P',v[1])
        if v[0]=='i': return self.val.get(v)
        if v[0] in('g','ce'): return ('G',v)
        return TOP
    def _run(self):
        f=self.f; work=[(None,0)]
        while work:
            p,b=work.pop()
            if (p,b) in self.edges: continue
            self.edges.add((p,b)); todo=[b]
            # values are monotone: re-evaluate reachable blocks until nothing changes
            while todo:
                b2=todo.pop(); self.blocks.add(b2); ch=False
                for x in f.blocks[b2]:
                    n=self.eval(x)
                    if n is not None and self.val.get(('i',x.i))!=n:
                        o=self.val.get(('i',x.i))
                        self.val[('i',x.i)]=n if o is None else TOP
                        if self.val[('i',x.i)]!=o: ch=True
                if ch:
                    for b3 in self.blocks:
                        if b3!=b2 and b3 not in todo: todo.append(b3)
                for s in self.out(b2):
                    if (b2,s) not in self.edges: work.append((b2,s))
            for b2 in list(self.blocks):
                for s in self.out(b2):
                    if (b2,s) not in self.edges and (b2,s) not in work: work.append((b2,s))
    def out(self,b):
        t=self.f.term(b)
        if t.op=='br' and t.o:
            c=self.op(t.o[0])
            if c is None: return []
            if c==NZ: return [t.s[0]]
            if c[0]=='c': return [t.s[0] if c[1]&1 else t.s[1]]
            return list(t.s)
        if t.op=='switch':
            c=self.op(t.o[0])
            if c is None: return []
            if c[0]=='c':
                for v,s in t.s:
                    if v is not None and (v==c[1] or (isinstance(v,tuple) and v==('c',c[1]))): return [s]
                return [s for v,s in t.s if v is None]
            return [s for _,s in t.s]
        return f_succ(self.f,b)
    def eval(self,x):
        o=x.op
        if o in('store','br','switch','ret','unreachable','fence'): return None
        if o=='phi':
            r=None
            for v,p in x.o:
                if (p,x.blk) not in self.edges: continue
                w=self.op(v)
                if w is None: continue
                if r is None: r=w
                elif r!=w: return TOP
            return r
        if o=='alloca': return ('A',x.i)
        if o=='load':
            k=self.field(x.o[0])
            if k is not None and k in self.fields: return ('c',self.fields[k])
            a=self.op(x.o[0])
            if a and a[0]=='S':
                c=self.text.char(a[1])
                if c is not None: return ('c',c)
            if a and a[0]=='G' and x.t=='i8':
                lit=self.m.cstr(a[1])
                if lit is not None: return ('c',(lit+b'\0')[0])
            return TOP
        ops=[self.op(v) for v in x.o]
        if o=='call':
            return self.call(x,ops)
        if any(v is None for v in ops): return None
        if o=='getelementptr':
            b=ops[0]; g=x.g or {}
            if b[0]=='S':
                if len(ops)==2 and ops[1][0]=='c': return ('S',b[1]+ops[1][1])
                return TOP
            if b[0]=='G' and all(v==('c',0) for v in ops[1:]): return b
            return TOP
        if o in('zext','sext','trunc','freeze','bitcast'): return ops[0]
        if o=='select':
            if ops[0][0]=='c': return ops[1] if ops[0][1]&1 else ops[2]
            if ops[0]==NZ: return ops[1]
            return ops[1] if ops[1]==ops[2] else TOP
        if o=='icmp':
            a,b=ops; p=x.p
            if a[0]=='c' and b[0]=='c':
                import operator as O
                w={'i8':8,'i16':16,'i32':32,'i64':64}.get(x.vt,0) or 64
                fn={'eq':O.eq,'ne':O.ne,'slt':O.lt,'sle':O.le,'sgt':O.gt,'sge':O.ge,'ult':O.lt,'ule':O.le,'ugt':O.gt,'uge':O.ge}.get(p)
                return ('c',int(fn(a[1],b[1]))) if fn else TOP
            for u,v in((a,b),(b,a)):
                if v==('c',0) and (u==NZ or u[0] in('S','G','A')):
                    if p=='eq': return ('c',0)
                    if p=='ne': return ('c',1)
            return TOP
        if o in('add','sub','or','and','xor','mul','shl'):
            a,b=ops
            if a[0]=='c' and b[0]=='c':
                return ('c',{'add':lambda p,q:p+q,'sub':lambda p,q:p-q,'or':lambda p,q:p|q,'and':lambda p,q:p&q,'xor':lambda p,q:p^q,'mul':lambda p,q:p*q,'shl':lambda p,q:p<<(q&63)}[o](a[1],b[1]))
            if o=='xor' and a==NZ and b==('c',1): return TOP
            return TOP
        return TOP
    def field(self,a):
        if a[0]!='i': return None
        x=self.f.insts[a[1]]
        if x.op!='getelementptr': return None
        g=x.g or {}
        if g.get('ow') and g.get('p'): return (g['ow'].replace('struct.',''),str(g['p'][-1]))
        return None
    def call(self,x,ops):
        n=x.cname
        if n in('strcmp','strncmp','strcasecmp','strncasecmp','memcmp') :
            lim=None
            if n in('strncmp','memcmp'):
                l=ops[2]
                if l is None: return None
                if l[0]!='c': return TOP
                lim=l[1]
            if ops[0] is None or ops[1] is None: return None
            if 'case' in n: return TOP
            for u,v,raw in((ops[0],ops[1],x.o[1]),(ops[1],ops[0],x.o[0])):
                if u[0]=='S' and v[0]=='G':
                    lit=self.m.cstr(v[1])
                    if lit is None: return TOP
                    r=self.text.cmp(u[1],lit,lim)
                    return TOP if r is None else ('c',0) if r else NZ
            return TOP
        if n=='strlen':
            if ops[0] is None: return None
            if ops[0][0]=='G':
                lit=self.m.cstr(ops[0][1]); return ('c',len(lit)) if lit is not None else TOP
            if ops[0][0]=='S' and self.text.exact: return ('c',len(self.text.s)-ops[0][1])
            return TOP
        g=self.m.funcs.get(n) if n else None
        if g is not None and not g.decl and self.depth<6 and g.name!=self.f.name:
            if any(v is None for v in ops): return None
            cs={k:v for k,v in enumerate(ops) if v[0]=='c'}
            tp=[k for k,v in enumerate(ops) if v==('S',0)]
            if x.t in('void','ptr') or (not cs and not tp): return TOP
            if len(tp)>1: return TOP
            try: r=Run(self.m,g,self.text if tp else None,tp[0] if tp else 0,self.fields,cs,self.depth+1)
            except RecursionError: return TOP
            v=r.returns()
            return next(iter(v)) if len(v)==1 else TOP
        return TOP if x.t!='void' else None
    def returns(self):
        out=set()
        for b in self.blocks:
            t=self.f.term(b)
            if t.op=='ret' and t.o:
                v=t.o[0]
                # look through the phi so that every returned value is seen
                out|=self.expand(v,set())
        return out
    def expand(self,v,seen):
        w=self.op(v)
        if w is not None and w!=TOP: return {w}
        if v[0]=='i' and v not in seen:
            x=self.f.insts[v[1]]
            if x.op=='phi':
                out=set()
                for u,p in x.o:
                    if (p,x.blk) in self.edges: out|=self.expand(u,seen|{v})
                return out
            if x.op in('zext','trunc','sext','freeze'): return self.expand(x.o[0],seen|{v})
            if x.op=='select': return self.expand(x.o[1],seen|{v})|self.expand(x.o[2],seen|{v})
        return {w if w is not None else TOP}
    def stores(self,struct):
        """[(field, value, store)] executed"""
        out=[]
        for b in sorted(self.blocks):
            for x in self.f.blocks[b]:
                if x.op!='store': continue
                k=self.field(x.o[1])
                if k and k[0]==struct:
                    w=self.op(x.o[0])
                    if w==TOP or w is None:
                        w=self.orval(x.o[0],k) or TOP
                    out.append((k[1],w,x))
        return out
    def orval(self,v,k):
        if v[0]!='i': return None
        x=self.f.insts[v[1]]
        if x.op=='or':
            for a,b in((0,1),(1,0)):
                w=self.op(x.o[b])
                y=self.f.insts.get(x.o[a][1]) if x.o[a][0]=='i' else None
                if w and w[0]=='c' and y is not None and y.op=='load' and self.field(y.o[0])==k: return ('or',w[1])
        return None
    def called(self):
        return [x for b in sorted(self.blocks) for x in self.f.blocks[b] if x.op=='call' and x.cname]
    def instrs(self):
        return [x for b in sorted(self.blocks) for x in self.f.blocks[b]]
def f_succ(f,b): return f.succ(b)
