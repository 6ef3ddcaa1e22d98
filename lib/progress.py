"""Progress of loops: what an iteration changes, decided per character at the reading position.

Abstract interpretation of one iteration of a loop (from its header back to it). Values are
  ('s',sym,d)   the value sym had at the start of the iteration, moved by d (an int, '+', '-', '0+', '0-' or 'nz')
  ('k',n)       a constant            ('c',key)  a function of the byte at the reading position of the start (table of 256)
  ('pos',) / ('nz',)  more than zero / not zero        None  unknown
Memory is a map from cells (sym, offset) to values; a cell that was not written has the symbolic value ('init',cell).
Functions are summarised for given arguments and cells: exits with their set of bytes.
"""
import numpy as np
NEG={'+':'-','-':'+','0+':'0-','0-':'0+','nz':'nz','?':'?'}
TAB={}
def carr(a):
    a=np.asarray(a,dtype=np.int64)
    if (a==a[0]).all(): return ('k',int(a[0]))
    k=a.tobytes(); TAB[k]=a; return ('c',k)
IDENT=np.array([i-256 if i>127 else i for i in range(256)],dtype=np.int64)
FULL=(1<<256)-1
def tomask(b):
    return int.from_bytes(np.packbits(np.asarray(b,dtype=bool),bitorder='little').tobytes(),'little')
def sgn(d):
    if isinstance(d,int): return 1 if d>0 else -1 if d<0 else 0
    return {'+':1,'-':-1}.get(d)
def dadd(a,b):
    if isinstance(a,int) and isinstance(b,int): return a+b
    if a==0: return b
    if b==0: return a
    def cls(d): return ('+' if d>0 else '-') if isinstance(d,int) else d
    a,b=cls(a),cls(b)
    P={'+','0+'}; N={'-','0-'}
    if a in P and b in P: return '+' if '+' in(a,b) else '0+'
    if a in N and b in N: return '-' if '-' in(a,b) else '0-'
    return '?'
BITS={'i1':1,'i8':8,'i16':16,'i32':32,'i64':64}
IO={'fgets','read','fread','getline','waitpid','getchar','fgetc','getc','readdir','write','fwrite','select','poll','getopt','getopt_long','recv','sleep','usleep','xmlTextReaderRead'}
PURE={'strlen','strcmp','strncmp','strcasecmp','strncasecmp','memcmp','isdigit','isalpha','isspace','isalnum','isxdigit','tolower','toupper','free','malloc','calloc','realloc','strdup','strndup','printf','fprintf','snprintf','sprintf','vsnprintf','puts','putc','fputc','fputs','putchar','fflush','getenv','strtol','strtoul','strtod','atoi','abs','__ctype_b_loc','__errno_location','strerror','memset','memcpy','memmove','strcpy','strncpy','strcat','qsort','bsearch','isatty','clock','time','gettimeofday',
 'xmlStrlen','xmlStrcmp','xmlStrEqual','xmlGetProp','xmlNodeGetContent','xmlStrdup','xmlStrndup','xmlSearchNs','xmlSearchNsByHref','xmlGetNsList','xmlGetIntSubset','xmlGetDocEntity','xmlHasProp','xmlHasNsProp','xmlDocGetRootElement','xmlBufferAdd','xmlBufferCat','__ctype_tolower_loc','__ctype_toupper_loc'}
SEARCH={'strchr','strstr','strrchr','strpbrk','memchr','index','rindex','__rawmemchr'}
LINKS={'xmlNextElementSibling','xmlFirstElementChild','xmlPreviousElementSibling','xmlLastElementChild','xmlGetLastChild'}
class TooMany(Exception): pass
class Budget(Exception): pass

class St:
    __slots__=('env','cells','mask','eff','facts')
    def __init__(s,env,cells,mask,eff=frozenset(),facts=frozenset()): s.env=env; s.cells=cells; s.mask=mask; s.eff=eff; s.facts=facts
    def copy(s): return St(dict(s.env),dict(s.cells),s.mask,s.eff,s.facts)

INV={'eq':'ne','ne':'eq','lt':'ge','ge':'lt','gt':'le','le':'gt'}
def fact(p,a,b,cur):
    """comparison of the reading position of the start with another value of the start"""
    if a is None or b is None or cur is None or a[0]!='s' or b[0]!='s' or a[2]!=0 or b[2]!=0: return None
    q=p if p in('eq','ne') else p[1:]
    if a[1]==cur: return (q,b[1])
    if b[1]==cur: return ({'lt':'gt','gt':'lt','le':'ge','ge':'le'}.get(q,q),a[1])
    return None
def implied(k):
    """facts that decide a comparison"""
    q,o=k
    yes={'eq':('eq',),'ne':('ne','lt','gt'),'lt':('lt',),'gt':('gt',),'le':('le','lt','eq'),'ge':('ge','gt','eq')}[q]
    no={'eq':('ne','lt','gt'),'ne':('eq',),'lt':('ge','gt','eq'),'gt':('le','lt','eq'),'le':('gt',),'ge':('lt',)}[q]
    return [((t,o),True) for t in yes]+[((t,o),False) for t in no]
RELS={'eq':frozenset({0}),'ne':frozenset({-1,1}),'lt':frozenset({-1}),'le':frozenset({-1,0}),'gt':frozenset({1}),'ge':frozenset({0,1}),'all':frozenset({-1,0,1})}
class Progress:
    def __init__(self,m,fl=None):
        self.m=m; self.fl=fl; self.sums={}; self.info={}; self.cursym=None; self.steps=0
        self._mod={}; self._ld={}
        self.cg=m.callgraph()
    # ---------------------------------------------------------------- fields a function can store to / load from (transitively)
    def key(self,f,a):
        """(struct, offset) of an address"""
        if a[0]=='i':
            x=f.insts[a[1]]
            if x.op=='getelementptr':
                g=x.g or {}
                if g.get('ow') is not None and g.get('off') is not None: return (g['ow'],g['off'])
                if g.get('ow') is not None and g.get('p'): return (g['ow'],str(g['p'][-1]))
        elif a[0]=='ce' and len(a)>3 and isinstance(a[-1],dict) and a[-1].get('ow') is not None: return (a[-1]['ow'],a[-1].get('off'))
        elif a[0]=='g': return ('g',a[1])
        return None
    def direct(self,f):
        st,ld,ex=set(),set(),set()
        for x in f.all():
            if x.op=='store':
                k=self.key(f,x.o[1])
                if k: st.add(k)
            elif x.op=='load':
                k=self.key(f,x.o[0])
                if k: ld.add(k)
            elif x.op=='call' and x.cname:
                g=self.m.funcs.get(x.cname)
                if g is None or g.decl: ex.add(x.cname)
                else:
                    for q in self.outs(x.cname):
                        k=self.key(f,x.o[q]) if q<len(x.o) else None
                        if k: st.add(k)
        return st,ld,ex
    def effects(self,name):
        if not self._mod:
            D={f.name:self.direct(f) for f in self.m.defined()}
            tg={}
            for f in self.m.defined():
                t=set()
                for x in f.calls():
                    if x.cname: t.add(x.cname)
                    elif self.fl is not None: t|=set(self.fl.targets(f,x) or ())
                tg[f.name]=t
            cur={n:(set(a),set(b),set(c)) for n,(a,b,c) in D.items()}
            ch=True
            while ch:
                ch=False
                for n in cur:
                    for t in tg[n]:
                        if t in cur and t!=n:
                            for i in range(3):
                                if not cur[t][i]<=cur[n][i]: cur[n][i].update(cur[t][i]); ch=True
            self._mod=cur
        return self._mod.get(name)
    # ---------------------------------------------------------------- operands
    def op(self,f,s,v):
        t=v[0]
        if t=='c': return ('k',v[1])
        if t=='n': return ('k',0)
        if t in('i','a'): return s.env.get(v)
        if t=='g': return ('s',('g',v[1]),0)
        if t=='ce' and v[1] in('getelementptr','bitcast'):
            b=self.op(f,s,v[2][0])
            g=v[-1] if isinstance(v[-1],dict) else None
            if v[1]=='bitcast': return b
            if b and g and g.get('off') is not None: return ('s',b[1],dadd(b[2],g['off']))
        return None
    def width(self,f,v):
        if v[0]=='i': return BITS.get(f.insts[v[1]].t,64)
        if v[0]=='a': return BITS.get(f.params[v[1]][0],64)
        return 64
    def add(self,a,b,neg=False):
        if a is None or b is None: return None
        if neg and a[0]=='s' and b[0]=='s':
            if a[1]==b[1]:
                if isinstance(a[2],int) and isinstance(b[2],int): return ('k',a[2]-b[2])
                if b[2]==0 and a[2] in('+','nz'): return ('nz',) if a[2]=='nz' else ('pos',)
                if a[2]=='+' and isinstance(b[2],int) and b[2]<=0: return ('pos',)
            return None
        if b[0]=='s' and not neg: a,b=b,a
        if a[0]=='s':
            if b[0]=='k': d=-b[1] if neg else b[1]
            elif b[0]=='pos': d='-' if neg else '+'
            elif b[0]=='nz': d='nz'
            else: return None
            d=dadd(a[2],d)
            return ('s',a[1],d)
        return None
    def eval(self,f,s,x):
        o=x.op; O=[self.op(f,s,v) for v in x.o]
        if o=='getelementptr':
            b=O[0]; g=x.g or {}
            if b is None or b[0]!='s': return None
            if g.get('off') is not None: return ('s',b[1],dadd(b[2],g['off']))
            if len(O)==2:
                i=O[1]; es=g.get('es') or 1
                if i is None: return None
                if i[0]=='k': return ('s',b[1],dadd(b[2],i[1]*es))
                if i[0]=='pos': return ('s',b[1],dadd(b[2],'+'))
                if i[0]=='nz': return ('s',b[1],dadd(b[2],'nz'))
            return None
        if o in('bitcast','freeze','inttoptr','ptrtoint','addrspacecast'): return O[0]
        if o in('zext','sext','trunc'):
            v=O[0]
            if v is None: return None
            w=self.width(f,x.o[0]); t=BITS.get(x.t,64)
            if v[0] in('k','c'):
                a=np.array([v[1]]) if v[0]=='k' else TAB[v[1]]
                if o=='zext': a=a&((1<<w)-1) if w<63 else a
                elif o=='trunc' and t<63:
                    a=a&((1<<t)-1)
                    if t>1: a=np.where(a>>(t-1)&1,a-(1<<t),a)
                elif o=='sext' and w==1: a=-(a&1)
                return ('k',int(a[0])) if v[0]=='k' else carr(a)
            return v
        if o=='select':
            c=O[0]
            if c is not None and c[0]=='k': return O[1] if c[1]&1 else O[2]
            if c is not None and c[0]=='c' and all(v is not None and v[0] in('k','c') for v in O[1:]):
                q=[TAB[v[1]] if v[0]=='c' else np.full(256,v[1]) for v in O[1:]]
                return carr(np.where(TAB[c[1]]&1,q[0],q[1]))
            return O[1] if O[1]==O[2] else None
        if o=='icmp':
            r=self.icmp(f,x,O)
            if r is None:
                for cl in('u','s') if x.p in('eq','ne') else (x.p[0],):
                    R=self.rel(s,x,cl)
                    if R is not None:
                        T=RELS[x.p if x.p in('eq','ne') else x.p[1:]]
                        if R<=T: return ('k',1)
                        if not R&T: return ('k',0)
            if r is None and s.facts:
                k=fact(x.p,O[0],O[1],self.cursym)
                if k is not None:
                    for t,v in implied(k):
                        if t in s.facts: return ('k',int(v))
            return r
        if o in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem'):
            a,b=O
            if a is not None and b is not None and a[0] in('k','c') and b[0] in('k','c'):
                p=np.array([a[1]]) if a[0]=='k' else TAB[a[1]]; q=np.array([b[1]]) if b[0]=='k' else TAB[b[1]]
                try:
                    with np.errstate(all='ignore'):
                        r={'add':lambda:p+q,'sub':lambda:p-q,'mul':lambda:p*q,'and':lambda:p&q,'or':lambda:p|q,'xor':lambda:p^q,'shl':lambda:p<<(q&63),'lshr':lambda:p>>(q&63),'ashr':lambda:p>>(q&63),'udiv':lambda:p//q,'sdiv':lambda:p//q,'urem':lambda:p%q,'srem':lambda:p%q}[o]()
                except Exception: return None
                w=BITS.get(x.t,64)
                if w==1: r=r&1
                if a[0]=='k' and b[0]=='k': return ('k',int(r[0]))
                return carr(np.broadcast_to(r,(256,)))
            if o=='add': return self.add(a,b)
            if o=='sub': return self.add(a,b,True)
            if o in('mul','shl') and a is not None and a[0]=='s' and a[2]==0 and a[1][0]=='phi' and b is not None and b[0]=='k' and b[1]>(1 if o=='mul' else 0) and self.positive(f,a[1]): return ('s',a[1],'+')
            if o in('udiv','sdiv','lshr','ashr') and a is not None and a[0]=='s' and b is not None and b[0]=='k' and b[1]>(1 if o.endswith('div') else 0): return ('s',a[1],'-') if a[2] in(0,'-') else None
            if o=='and':
                for u in(a,b):
                    if u==('k',0): return ('k',0)
            if o=='or':
                for u in(a,b):
                    if u is not None and u[0]=='k' and u[1] and x.t=='i1': return ('k',1)
            if x.t=='i1' and o in('and','or'):
                for u,v in((a,b),(b,a)):
                    if u is not None and u[0]=='k': return v
            return None
        return None
    def positive(self,f,sym):
        """a header value that starts as a positive constant"""
        if sym[1]!=f.name: return False
        x=f.insts[sym[2]]; L=f.loops()
        body=L[x.blk][0] if x.blk in L else ()
        return all(o[0]=='c' and o[1]>0 for o,b in x.o if b not in body)
    def rel(self,s,x,cl):
        a,b=x.o
        R=s.env.get(('r',a,b,cl))
        if R is not None: return R[1]
        R=s.env.get(('r',b,a,cl))
        if R is not None: return frozenset(-i for i in R[1])
        return None
    def icmp(self,f,x,O):
        a,b=O; p=x.p
        if a is None or b is None: return None
        if a[0] in('k','c') and b[0] in('k','c'):
            w=max(self.width(f,x.o[0]) if x.o[0][0]!='c' else 0,self.width(f,x.o[1]) if x.o[1][0]!='c' else 0) or 64
            u=np.array([a[1]]) if a[0]=='k' else TAB[a[1]]; v=np.array([b[1]]) if b[0]=='k' else TAB[b[1]]
            if p[0]=='u' and w<63: u=u&((1<<w)-1); v=v&((1<<w)-1)
            r={'eq':u==v,'ne':u!=v,'slt':u<v,'sle':u<=v,'sgt':u>v,'sge':u>=v,'ult':u<v,'ule':u<=v,'ugt':u>v,'uge':u>=v}[p]
            r=r.astype(np.int64)
            return ('k',int(r[0])) if len(r)==1 else carr(np.broadcast_to(r,(256,)))
        if a[0]=='s' and b[0]=='s' and a[1]==b[1]:
            if isinstance(a[2],int) and isinstance(b[2],int):
                u,v=a[2],b[2]
                return ('k',int({'eq':u==v,'ne':u!=v,'slt':u<v,'sle':u<=v,'sgt':u>v,'sge':u>=v,'ult':u<v,'ule':u<=v,'ugt':u>v,'uge':u>=v}[p]))
            for q,r,sw in((a,b,False),(b,a,True)):
                if r[2]==0 and q[2] in('+','-'):
                    gt=(q[2]=='+')!=sw
                    if p in('eq',): return ('k',0)
                    if p=='ne': return ('k',1)
                    return ('k',int(gt if p[1:] in('gt','ge') else not gt))
        for u,v in((a,b),(b,a)):
            if v==('k',0):
                if u[0] in('pos','nz') or (u[0]=='s' and u[1][0] in('al','g')):
                    if p=='eq': return ('k',0)
                    if p=='ne': return ('k',1)
                    if u[0]=='pos' and u is a and p in('ugt','sgt','sge','uge'): return ('k',1)
                    if u[0]=='pos' and u is a and p in('sle','slt','ule','ult'): return ('k',0)
                if u is a and p=='ult': return ('k',0)
                if u is a and p=='uge': return ('k',1)
        return None
    # ---------------------------------------------------------------- branches
    def refine(self,f,s,v,truth,d=0):
        """what a decided condition tells about the compared value"""
        if v[0]!='i' or d>6: return
        s.env[v]=('k',int(truth))
        x=f.insts[v[1]]
        if x.op in('zext','trunc','freeze') : self.refine(f,s,x.o[0],truth,d+1) if self.width(f,x.o[0])==1 else None
        elif x.op=='xor' and ('c',1) in x.o or x.op=='xor' and ('c',-1) in x.o: self.refine(f,s,x.o[0],not truth,d+1)
        elif x.op=='and' and x.t=='i1' and truth or x.op=='or' and x.t=='i1' and not truth:
            for o in x.o: self.refine(f,s,o,truth,d+1)
        elif x.op=='select' and x.t=='i1':
            if truth and x.o[2]==('c',0):
                for o in x.o[:2]: self.refine(f,s,o,True,d+1)
            if not truth and x.o[1]==('c',1):
                for o in(x.o[0],x.o[2]): self.refine(f,s,o,False,d+1)
        elif x.op=='icmp':
            p=x.p
            if x.o[0][0] in('i','a') and x.o[1][0] in('i','a'):
                T=RELS[p if p in('eq','ne') else p[1:]]
                if not truth: T=RELS['all']-T
                for cl in('u','s') if p in('eq','ne') else (p[0],):
                    R=self.rel(s,x,cl)
                    if R is not None: T=T&R
                    s.env.pop(('r',x.o[1],x.o[0],cl),None); s.env[('r',x.o[0],x.o[1],cl)]=('rel',T)
            k=fact(p,self.op(f,s,x.o[0]),self.op(f,s,x.o[1]),self.cursym)
            if k is not None:
                if not truth: k=(INV[k[0]],)+k[1:]
                s.facts=s.facts|{k}
            if not truth: p={'eq':'ne','ne':'eq','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt'}[p]
            for i in(0,1):
                o=x.o[i]; w=self.op(f,s,x.o[1-i])
                if o[0] not in('i','a') or w is None or w[0]!='k': continue
                q=p if i==0 else {'slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(p,p)
                n=w[1]; new=None
                if q=='eq': new=('k',n)
                elif q=='ne' and n==0: new=('nz',)
                elif q in('sgt','ugt') and n>=0 or q in('sge','uge') and n>=1: new=('pos',)
                elif q in('ule',) and n==0 or q=='ult' and n==1: new=('k',0)
                if new is None: continue
                self.setv(f,s,o,new,d)
    def setv(self,f,s,o,new,d=0):
        old=s.env.get(o)
        if old is None or old[0] in('nz',): s.env[o]=new
        elif old[0]=='s' and new==('k',0) and old[1][0] not in('phi','init','arg','v'): s.env[o]=new
        if o[0]=='i' and d<6:
            y=f.insts[o[1]]
            if y.op in('zext','sext','freeze'): self.setv(f,s,y.o[0],new,d+1)
            if y.op in('zext','icmp') and self.width(f,y.o[0] if y.op=='zext' else o)==1: self.refine(f,s,y.o[0] if y.op=='zext' else o,new!=('k',0),d+1)
    # ---------------------------------------------------------------- one function / one iteration
    def norm(self,f,s,b,back):
        """state at the entry of block b reduced to what matters"""
        li=f.live_in()[b]; phis={('i',x.i) for x in f.blocks[b] if x.op=='phi'}
        env={}
        for k,v in s.env.items():
            if k[0]=='r':
                if not back and all(o in li or o in phis for o in k[1:3]): env[k]=v
                continue
            if v is None or not(k in li or k in phis): continue
            if back and k in phis:
                if v[0] in('k','c','pos','nz'): continue
                if v[0]=='s' and isinstance(v[2],int) and v[2]!=0: v=('s',v[1],'+' if v[2]>0 else '-')
            env[k]=v
        cells=s.cells
        if back:
            cells={k:(('s',v[1],'+' if v[2]>0 else '-') if v is not None and v[0]=='s' and isinstance(v[2],int) and v[2]!=0 and v[1][0] not in('al','g') else v if v is None or v[0] not in('k','c') or v[0]=='k' and v[1] in(0,1,-1) else None) for k,v in cells.items()}
        return St(env,cells,s.mask,s.eff,s.facts)
    def run(self,f,start,st,stop=None,limit=6000,region=None):
        """explore from block `start`; states that return to block `stop` are collected instead of followed. -> (exits, backs)"""
        L=f.loops(); seen={}; work=[(start,st)]; exits={}; backs=[]; cnt={}
        n=0
        while work:
            b,s=work.pop(); n+=1; self.steps+=1
            if n>limit: raise TooMany(f.name)
            if self.steps>self.budget: raise Budget(f.name)
            if self.steps>self.cap: raise TooMany(f.name)
            for nb,t in self.block(f,b,s,exits):
                if not t.mask: continue
                if nb==stop: backs.append((b,t)); continue
                if region is not None and nb not in region: continue
                t=self.norm(f,t,nb,nb in L and b in L[nb][0])
                k=(nb,frozenset(t.env.items()),frozenset(t.cells.items()),t.eff,t.facts)
                old=seen.get(k,0)
                if t.mask|old==old: continue
                c=cnt.get(nb,0)+1; cnt[nb]=c
                if c>150:
                    t.env={a:v for a,v in t.env.items() if a[0]!='r' and v[0]=='s' and v[2] in(0,'+')}; k=(nb,frozenset(t.env.items()),frozenset(t.cells.items()),t.eff,t.facts); old=seen.get(k,0)
                    if t.mask|old==old: continue
                seen[k]=old|t.mask
                t.mask=seen[k]
                work.append((nb,t))
        return exits,backs
    def phis(self,f,b,nb,s):
        new={}
        for x in f.blocks[nb]:
            if x.op!='phi': break
            for o,p in x.o:
                if p==b: new[('i',x.i)]=self.op(f,s,o)
        return new
    def effs(self,es):
        if self.relkeys is None: return frozenset(es)
        return frozenset(e for e in es if e[0] in('io','ind','cut') or e[0] in('st','mono') and e[1] in self.relkeys or e[0]=='ext' and self.relext)
    relkeys=None; relext=False; mutable=frozenset()
    def block(self,f,b,s,exits):
        s=s.copy(); states=[s]
        for x in f.blocks[b]:
            if x.op=='phi': continue
            if x.op in('br','switch','ret','unreachable'): break
            nxt=[]
            for s in states: nxt+=self.step(f,s,x)
            states=nxt
            if len(states)>200: raise TooMany(f.name)
        t=f.term(b); out=[]
        for s in states:
            if not s.mask: continue
            if t.op=='ret':
                v=self.op(f,s,t.o[0]) if t.o else None
                cells={k:w for k,w in s.cells.items() if not(k[0][0]=='al' and k[0][1]==f.name)}
                k=(v,frozenset(cells.items()),s.eff); exits[k]=exits.get(k,0)|s.mask
                continue
            if t.op=='unreachable': continue
            if t.op=='br' and t.o and len(t.s)==2 and t.s[0]!=t.s[1]:
                c=self.op(f,s,t.o[0])
                if c is not None and c[0]=='k': self.go(f,b,t.s[0] if c[1]&1 else t.s[1],s,out)
                elif c is not None and c[0]=='c':
                    mk=tomask(TAB[c[1]]&1)
                    for nb,q in((t.s[0],s.mask&mk),(t.s[1],s.mask&~mk)):
                        if q: u=s.copy(); u.mask=q; self.go(f,b,nb,u,out)
                else:
                    for nb,tr in((t.s[0],True),(t.s[1],False)):
                        u=s.copy(); self.refine(f,u,t.o[0],tr); self.go(f,b,nb,u,out)
            elif t.op=='switch':
                c=self.op(f,s,t.o[0]); rest=s.mask
                tg=[]
                dflt=None
                for v,nb in t.s:
                    k=v[1] if isinstance(v,tuple) else v
                    if k is None: dflt=nb; continue
                    if c is not None and c[0]=='k':
                        if c[1]==k: tg.append((nb,rest)); rest=0
                    elif c is not None and c[0]=='c':
                        mk=tomask(TAB[c[1]]==k)&rest; rest&=~mk
                        if mk: tg.append((nb,mk))
                    else: tg.append((nb,rest))
                if dflt is not None and rest: tg.append((dflt,rest))
                for nb,q in tg:
                    u=s.copy(); u.mask=q; self.go(f,b,nb,u,out)
            else:
                for nb in f.succ(b): self.go(f,b,nb,s.copy(),out)
        return out
    def go(self,f,b,nb,s,out):
        new=self.phis(f,b,nb,s); s.env.update(new)
        if new:
            for k in [k for k in s.env if k[0]=='r' and (k[1] in new or k[2] in new)]: del s.env[k]
        for k,v in new.items():
            if v is None: s.env.pop(k,None)
        out.append((nb,s))
    def load(self,f,s,x):
        a=self.op(f,s,x.o[0])
        if a is None or a[0]!='s': return None
        if x.t=='i8' and self.cursym is not None and a[1]==self.cursym and a[2]==0: return carr(IDENT)
        if x.t=='i8' and a[1][0] not in('arg','v','al') and not(a[1][0]=='ret'): 
            pass
        if not isinstance(a[2],int): return None
        cell=(a[1],a[2])
        if self.relkeys is not None and x.o[0][0]!='a':
            k=self.key(f,x.o[0])
            if k and k in self.mutable and k not in self.relkeys: return None
        if self.slice is not None and f is self.slice[0] and x.i in self.slice[1]: self.relcells.add(cell)
        if cell in s.cells: return s.cells[cell]
        k=self.key(f,x.o[0])
        if k: self.info[cell]=k
        if a[1][0]=='al': return None
        if x.t=='i8' and not k: return None
        return ('s',('init',cell),0)
    def step(self,f,s,x):
        if x.op=='alloca': s.env[('i',x.i)]=('s',('al',f.name,x.i),0); return [s]
        if x.op=='load':
            v=self.load(f,s,x)
            if v is None: s.env.pop(('i',x.i),None)
            else: s.env[('i',x.i)]=v
            return [s]
        if x.op=='store':
            a=self.op(f,s,x.o[1])
            if a is not None and a[0]=='s' and isinstance(a[2],int):
                cell=(a[1],a[2]); k=self.key(f,x.o[1])
                if k: self.info[cell]=k
                if self.relkeys is not None and k and k not in self.relkeys:
                    s.cells.pop(cell,None); return [s]
                s.cells[cell]=self.op(f,s,x.o[0])
                if depth(cell)>5: del s.cells[cell]
            else:
                k=self.key(f,x.o[1])
                if k:
                    s.eff=s.eff|self.effs({('st',k)})
                    for c in list(s.cells):
                        if self.info.get(c)==k: s.cells[c]=None
                if a is not None and a[1][0]=='al':
                    for c in [c for c in s.cells if c[0]==a[1]]: s.cells[c]=None
            return [s]
        if x.op=='call': return self.call(f,s,x)
        v=self.eval(f,s,x)
        if v is None: s.env.pop(('i',x.i),None)
        else: s.env[('i',x.i)]=v
        return [s]
    # ---------------------------------------------------------------- calls
    def opaque(self,f,s,x,g=None):
        s.env.pop(('i',x.i),None)
        stk=set()
        if x.cname and g is None:
            n=x.cname
            if n.startswith('llvm.'):
                pass
            elif n in IO: s.eff=s.eff|self.effs({('io',n)})
            elif n in SEARCH:
                a=self.op(f,s,x.o[0])
                if a is not None and a[0]=='s': s.env[('i',x.i)]=('s',a[1],dadd(a[2],'0+'))
            elif n in LINKS:
                a=self.op(f,s,x.o[0])
                if a is not None and a[0]=='s' and a[2]==0: s.env[('i',x.i)]=('s',('init',(a[1],n)),0)
            elif n not in PURE: s.eff=s.eff|self.effs({('ext',n)})
        else:
            stk=set()
            names=[g.name] if g is not None else list(self.fl.targets(f,x) or ()) if self.fl is not None else []
            if g is None and not names: s.eff=s.eff|self.effs({('ind',x.i)})
            for n in names:
                e=self.effects(n)
                if e is None: s.eff=s.eff|self.effs({('ext',n)}); continue
                stk|=e[0]
                s.eff=s.eff|self.effs({('st',k) for k in e[0]}|{('ext',n) for n in e[2] if n not in IO and n not in PURE and not n.startswith('llvm.') and n not in SEARCH and n not in LINKS})
        # cells whose movement the callee guarantees
        con=self.contracts.get(g.name,{}) if g is not None else {}
        held={}
        for (p,off,K),d in con.items():
            if p>=len(x.o): continue
            a=self.op(f,s,x.o[p])
            if a is None or a[0]!='s' or not isinstance(a[2],int): continue
            c=(a[1],a[2]+off); v=s.cells.get(c,('s',('init',c),0) if c[0][0]!='al' else None)
            if K: self.info[c]=K
            if d!='?' and v is not None and v[0]=='s': held[c]=('s',v[1],dadd(v[2],d) if d!='0' else v[2]); s.eff=s.eff-{('st',K)}|{('mono',K)}
        # locals whose address is handed over
        for v in x.o:
            a=self.op(f,s,v)
            if a is not None and a[0]=='s' and a[1][0]=='al':
                for c in list(s.cells):
                    if c[0]==a[1]: s.cells[c]=None
                if isinstance(a[2],int): s.cells[(a[1],a[2])]=None
        for n in ([g.name] if g is not None else []):
            for p in self.outs(n):
                a=self.op(f,s,x.o[p]) if p<len(x.o) else None
                if a is None: continue
                if a[0]=='s' and isinstance(a[2],int):
                    c=(a[1],a[2]); s.cells[c]=None
                    k=self.key(f,x.o[p])
                    if k: s.eff=s.eff|self.effs({('st',k)}); self.info[c]=k
        # fields a callee can store to lose their value
        st=stk
        if st:
            for c in list(s.cells):
                if self.info.get(c) in st: s.cells[c]=None
        s.cells.update(held)
        return [s]
    contracts={}
    def learn(self):
        """how far functions move a position they are given (a pointer field of an object, or a pointer handed by address): assumed to move forward, weakened until it holds"""
        cand={}
        for f in self.m.defined():
            if f.file and f.file.endswith('yaep.c'): continue
            e=self.effects(f.name)
            for p,t in enumerate(f.params):
                if t[0]!='ptr': continue
                L=set()
                for k in e[0]:
                    if k in self.posfields() and self.paramstruct(f,p)==k[0]: L.add((p,k[1],k))
                for x in f.all():
                    if x.op=='store' and x.o[1]==('a',p) and self.ptrval(f,x.o[0]): L.add((p,0,None))
                for q in L: cand.setdefault(f.name,{})[q]='+'
        self.contracts=cand; self.maxdepth=1; self.cursym=None; self.slice=None
        import collections
        dep=collections.defaultdict(set)
        for n in cand:
            for x in self.m.funcs[n].calls():
                if x.cname: dep[x.cname].add(n)
                elif self.fl is not None:
                    for t in self.fl.targets(self.m.funcs[n],x) or (): dep[t].add(n)
        # callers of callers: one level is inlined
        work=set(cand)
        for rnd in range(20):
            ch=False; todo=sorted(work); work=set()
            for n in todo:
                if all(d=='?' for d in cand[n].values()): continue
                f=self.m.funcs[n]; self.sums={}; self.depth=0; self.round=1; self.steps=0; self.cap=10**9; bd,self.budget=self.budget,6000
                env={('a',i):('s',('arg',f.name,i),0) for i in range(len(f.params))}
                self.relkeys=self.posfields(); self.relext=False; self.mutable=self.effects(n)[0]
                for d in(1,0):
                    self.maxdepth=d; self.steps=0
                    try: ex,_=self.run(f,0,St(env,{},FULL),limit=4000); break
                    except (TooMany,Budget): ex=None
                self.budget=bd
                for (p,off,K),old in list(cand[n].items()):
                    if old=='?': continue
                    new=None
                    if ex is None: new='?'
                    else:
                        c=(('arg',f.name,p),off)
                        for (ret,cells,eff) in ex:
                            v=dict(cells).get(c,('s',('init',c),0))
                            if v is None or v[0]!='s' or v[1]!=('init',c) or ('st',K) in eff: d='?'
                            else: d=v[2] if not isinstance(v[2],int) else '+' if v[2]>0 else '0' if v[2]==0 else '?'
                            if d not in('+','0','0+'): d='?'
                            new=d if new is None or new==d else '?' if '?' in(new,d) else '0+'
                        if new is None: new='+'   # never returns
                    if new!=old:
                        # only weaken
                        if {old,new}=={'+','0'}: new='0+'
                        if old=='0+' and new in('+','0'): continue
                        cand[n][(p,off,K)]=new; ch=True; work|={n}|dep[n]; work={w for w in work|{v for u in dep[n] for v in dep[u]} if w in cand}
            if not ch: break
        else:
            for n in cand:
                for q in cand[n]: cand[n][q]='?'
        return cand
    def ptrval(self,f,v):
        if v[0]=='i': return f.insts[v[1]].t=='ptr'
        if v[0]=='a': return f.params[v[1]][0]=='ptr'
        return False
    def posfields(self):
        """pointer fields that are moved: stored a value computed by pointer arithmetic or handed back from a callee"""
        if not hasattr(self,'_pf'):
            pf=set()
            for f in self.m.defined():
                if f.file and f.file.endswith('yaep.c'): continue
                for x in f.all():
                    if x.op=='load' and x.t=='ptr':
                        k=self.key(f,x.o[0])
                        if k and k[0]!='g' and isinstance(k[1],int) and not k[0].startswith('struct._xml'):
                            for u in f.uses().get(('i',x.i),()):
                                if u.op=='load' and u.t=='i8' : pf.add(k)
            self._pf=pf
        return self._pf
    def paramstruct(self,f,p):
        if not hasattr(self,'_ps'): self._ps={}
        k=(f.name,p)
        if k not in self._ps:
            r=None
            for u in f.uses().get(('a',p),()):
                if u.op=='getelementptr' and u.o[0]==('a',p) and u.g and u.g.get('ow'): r=u.g['ow']; break
            if r is None:
                self._ps[k]=None
                for u in f.uses().get(('a',p),()):
                    if u.op=='call' and u.cname and u.cname in self.m.funcs and not self.m.funcs[u.cname].decl:
                        for j,v in enumerate(u.o):
                            if v==('a',p) and j<len(self.m.funcs[u.cname].params):
                                r=r or self.paramstruct(self.m.funcs[u.cname],j)
            self._ps[k]=r
        return self._ps[k]
    def call(self,f,s,x):
        n=x.cname
        if n and n.startswith('llvm.'): return [s] if not n.startswith('llvm.mem') else self.opaque(f,s,x)
        g=self.m.funcs.get(n) if n else None
        if x.noret or (g is not None and g.noret) or n in('longjmp','exit','abort','__assert_fail','_exit','siglongjmp'): return []
        if g is None or g.decl: return self.opaque(f,s,x)
        if self.depth>=self.maxdepth and not self.pure(n) and not self.leaf(n):
            if x.t!='void': s.eff=s.eff|self.effs({('cut',n)})
            return self.opaque(f,s,x,g)
        if g.file and g.file.endswith('yaep.c'): return self.opaque(f,s,x,g)
        if not self.pure(n) and not self.leaf(n):
            # the position has moved already: the rest of the iteration only has to keep it
            if self.cursym is not None and self.cursym[0]=='init':
                v=s.cells.get(self.cursym[1])
                if v is not None and v[0]=='s' and v[1]==self.cursym and v[2] not in(0,'0+') and self.keeps(g): return self.opaque(f,s,x,g)
            elif self.cursym is None:
                for (p,off,K),d in self.contracts.get(n,{}).items():
                    a=self.op(f,s,x.o[p]) if d!='?' and K and p<len(x.o) else None
                    if a is not None and a[0]=='s' and isinstance(a[2],int):
                        c=(a[1],a[2]+off); v=s.cells.get(c)
                        if v is not None and v[0]=='s' and v[1]==('init',c) and v[2] not in(0,'0+'): return self.opaque(f,s,x,g)
        if self.depth>=self.maxdepth and not self.pure(n) and not self.leaf(n):
            if x.t!='void': s.eff=s.eff|self.effs({('cut',n)})
            return self.opaque(f,s,x,g)
        if g.file and g.file.endswith('yaep.c'): return self.opaque(f,s,x,g)
        if self.cursym is not None and self.maxdepth>2 and self.cursym[0]=='init' and not self.pure(n):
            # the position has moved already: the rest of the iteration only has to keep it
            v=s.cells.get(self.cursym[1])
            if v is not None and v[0]=='s' and v[1]==self.cursym and v[2] not in(0,'0+') and self.keeps(g): return self.opaque(f,s,x,g)
        args=[self.op(f,s,v) for v in x.o]
        # cells reachable from the arguments
        roots={a[1] for a in args if a is not None and a[0]=='s'}; sub={}
        ch=True
        while ch:
            ch=False
            for c,v in s.cells.items():
                if c in sub: continue
                if rootin(c[0],roots) or c[0][0]=='g':
                    sub[c]=v; ch=True
                    if v is not None and v[0]=='s': roots.add(v[1])
        # names of the caller are replaced by neutral ones, so that a function can be called again by itself
        to={}; back={}
        def base(y):
            while y[0]=='init': y=y[1][0]
            return y
        def ren(y,mp,grow=False):
            if y[0]=='init': return ('init',(ren(y[1][0],mp,grow),y[1][1]))
            if y[0]=='g': return y
            if grow and y not in mp:
                n=('al','^',len(mp)) if y[0]=='al' else ('p',len(mp))
                mp[y]=n; back[n]=y
            return mp.get(y,y)
        def rv(v,mp,grow=False): return ('s',ren(v[1],mp,grow),v[2]) if v is not None and v[0]=='s' else v
        cargs=tuple(rv(v,to,True) for v in args)
        order=sorted(sub,key=str)
        csub=frozenset(((ren(c[0],to,True),c[1]),rv(sub[c],to,True)) for c in order)
        for c in order:
            if c in self.info: self.info[(ren(c[0],to),c[1])]=self.info[c]
        old=self.cursym
        if old is not None: self.cursym=ren(old,to) if base(old) in to or base(old)[0]=='g' else ('none',)
        cfacts=frozenset((q,ren(o,to)) for q,o in s.facts) if self.cursym!=('none',) else frozenset()
        ex=self.summary(g,cargs,csub,cfacts)
        self.cursym=old
        if ex is None:
            if x.t!='void': s.eff=s.eff|self.effs({('cut',n)})
            return self.opaque(f,s,x,g)
        out=[]
        for (ret,cells,eff),mk in ex.items():
            q=s.mask&mk
            if not q: continue
            u=s.copy(); u.mask=q
            for c in sub: u.cells.pop(c,None)
            for c,v in cells:
                o=(ren(c[0],back),c[1])
                if c in self.info: self.info.setdefault(o,self.info[c])
                u.cells[o]=rv(v,back)
            u.eff=u.eff|eff
            for e in eff:
                if e[0]=='st':
                    for c in u.cells:
                        if c not in sub and self.info.get(c)==e[1]: u.cells[c]=None
            for (p,off,K),d in self.contracts.get(g.name,{}).items():
                a=args[p] if p<len(args) else None
                if d=='?' or a is None or a[0]!='s' or not isinstance(a[2],int): continue
                c=(a[1],a[2]+off)
                if c in u.cells and u.cells[c] is not None or c not in u.cells and ('st',K) not in eff: continue
                v=s.cells.get(c,('s',('init',c),0) if c[0][0]!='al' else None)
                if v is not None and v[0]=='s': u.cells[c]=('s',v[1],dadd(v[2],d) if d!='0' else v[2]); u.eff=u.eff-{('st',K)}|{('mono',K)}
            ret=rv(ret,back)
            if ret is None: u.env.pop(('i',x.i),None)
            else: u.env[('i',x.i)]=ret
            out.append(u)
        return out
    def summary(self,g,args,cells,facts):
        k=(self.cursym,g.name,args,cells,facts,self.maxdepth-self.depth if self.maxdepth<60 else 0)
        r=self.sums.get(k)
        if r is None: r=self.sums[k]={'ex':{},'done':0,'busy':False}
        if r['ex'] is None or r['busy'] or r['done']==self.round: return r['ex']
        r['busy']=True; self.depth+=1; cap=self.cap
        self.cap=self.steps+(min(cap,self.budget)-self.steps)//4
        try:
            env={('a',i):a for i,a in enumerate(args) if a is not None}
            ex,_=self.run(g,0,St(env,dict(cells),FULL,frozenset(),facts),limit=self.limit)
            if len(ex)>60: ex=None
        except TooMany: ex=None
        self.depth-=1; self.cap=cap; r['busy']=False; r['done']=self.round
        if ex!=r['ex']: r['ex']=ex; self.changed=True
        return r['ex']
    limit=3000; budget=10**9; cap=10**9; maxdepth=60; slice=None; relcells=frozenset()
    def leaf(self,n,d=0):
        c=self.__dict__.setdefault('_leaf',{})
        if n not in c:
            c[n]=False
            f=self.m.funcs[n]
            c[n]=d<4 and sum(len(b) for b in f.blocks)<80 and all(x.cname and (x.cname not in self.m.funcs or self.m.funcs[x.cname].decl or self.leaf(x.cname,d+1)) for x in f.calls())
        return c[n]
    def outs(self,n,seen=()):
        """parameters through which a function stores directly"""
        c=self.__dict__.setdefault('_outs',{})
        if n in c: return c[n]
        if n in seen: return set()
        f=self.m.funcs.get(n); r=set()
        if f is None or f.decl: return r
        for x in f.all():
            if x.op=='store' and x.o[1][0]=='a': r.add(x.o[1][1])
            elif x.op=='call' and x.cname and x.cname in self.m.funcs and not self.m.funcs[x.cname].decl:
                o=self.outs(x.cname,seen+(n,))
                r|={v[1] for j,v in enumerate(x.o) if v[0]=='a' and j in o}
        if not seen: c[n]=r
        return r
    def keeps(self,g):
        k=self.info.get(self.cursym[1])
        if k is None: return False
        e=self.effects(g.name)
        return k not in e[0] or any(K==k and d!='?' for (p,off,K),d in self.contracts.get(g.name,{}).items())
    def pure(self,n):
        e=self.effects(n)
        return e is not None and not e[0] and not(e[2]-PURE-SEARCH-{'__assert_fail'}) and not any(i.op=='call' and i.cname is None for i in self.m.funcs[n].all()) and all(t[0]!='ptr' for t in self.m.funcs[n].params)
    def invariant(self,f,x):
        """a load of a field the function does not change"""
        k=self.key(f,x.o[0])
        if k is None or x.o[0][0]=='g': return False
        e=self.effects(f.name)
        return k not in e[0]
    def iteration(self,f,h,cur=None):
        """states in which an iteration of the loop at header h comes back to it"""
        body,lat=f.loops()[h]
        self.cursym=cur; self.depth=0; self.cap=10**9; self.round=getattr(self,'round',0)
        env={}
        for i in range(len(f.params)): env[('a',i)]=('s',('arg',f.name,i),0)
        for b in f.rpo():
            if b in body: continue
            for x in f.blocks[b]:
                if x.op=='alloca': env[('i',x.i)]=('s',('al',f.name,x.i),0)
                elif x.op=='load' and self.invariant(f,x) and self.op(f,St(env,{},0),x.o[0]) is not None and self.op(f,St(env,{},0),x.o[0])[0]=='s':
                    a=self.op(f,St(env,{},0),x.o[0]); env[('i',x.i)]=('s',('init',(a[1],a[2])),0)
                elif x.op=='getelementptr' and self.eval(f,St(env,{},0),x) is not None: env[('i',x.i)]=self.eval(f,St(env,{},0),x)
                elif x.t and x.t!='void': env[('i',x.i)]=('s',('v',f.name,x.i),0)
        for x in f.blocks[h]:
            if x.op!='phi': break
            env[('i',x.i)]=('s',('phi',f.name,x.i),0)
        cells={}
        # locals in memory have an unknown value at the start, which is the reference
        al={x.i for x in f.all() if x.op=='alloca'}
        for i in al: cells[(('al',f.name,i),0)]=('s',('init',(('al',f.name,i),0)),0)
        for _ in range(8):
            self.round+=1; self.changed=False
            li=f.live_in()[h]; ph={('i',x.i) for x in f.blocks[h] if x.op=='phi'}
            e={k:v for k,v in env.items() if k in li or k in ph}
            ex,backs=self.run(f,h,St(e,dict(cells),FULL),stop=h,limit=8000,region=body)
            if not self.changed: break
        return backs
def rootin(sym,roots):
    if sym in roots: return True
    if sym[0]=='init': return rootin(sym[1][0],roots)
    return False
def depth(cell):
    s=cell[0]; d=0
    while s[0]=='init': s=s[1][0]; d+=1
    return d
def linked(v,sym):
    """v was reached from sym through at least one link"""
    if v is None or v[0]!='s': return False
    s=v[1]; d=0
    while s[0]=='init' and s!=sym: s=s[1][0]; d+=1
    return d>0 and s==sym

# -------------------------------------------------------------------- verdict
def slice_of(P,f,h):
    """what the branches of the loop depend on: (instructions, header phis, keys of loaded fields, allocas, all)"""
    body=f.loops()[h][0]; ins=set(); keys=set(); al=set(); work=[]
    exits=False; ptrargs={}
    for b in body:
        for x in f.blocks[b]:
            if x.op=='call':
                for v in x.o:
                    if v[0]=='i' and f.insts[v[1]].op=='alloca': ptrargs.setdefault(v[1],set()).add(x.i)
        t=f.term(b)
        if t.op in('br','switch') and t.o: work.append(t.o[0])
        if any(nb not in body for nb in f.succ(b)): exits=True
        if t.op=='ret': exits=True
    args=set(); syms=set()
    while work:
        v=work.pop()
        if v[0]=='a': args.add(v[1])
        if v[0]=='ce':
            k=P.key(f,v)
            if len(v)>2 and isinstance(v[2],(list,tuple)): work+=[o for o in v[2] if isinstance(o,tuple)]
        if v[0]=='g': keys.add(('g',v[1]))
        if v[0]!='i' or v[1] in ins: continue
        x=f.insts[v[1]]
        ins.add(v[1])
        if x.op=='alloca':
            al.add(x.i)
            for c in ptrargs.get(x.i,()):
                work.append(('i',c))
            for y in f.all():
                if y.op=='store' and y.o[1]==v and y.blk in body: work.append(y.o[0])
            continue
        if x.blk not in body: continue
        if x.op=='phi': work+=[o for o,b in x.o if b in body]; continue
        if x.op=='load':
            k=P.key(f,x.o[0])
            if k: keys.add(k)
        if x.op=='call':
            for n in ([x.cname] if x.cname else (P.fl.targets(f,x) or ())):
                e=P.effects(n)
                if e: keys|=e[1]
        work+=[o for o in x.o if isinstance(o,tuple) and o and isinstance(o[0],str)]
    return ins,keys,al,not exits
def judge(P,f,h,cur):
    """-> list of (changes {sym: dir}, unknown?, mask, trace) per back edge state"""
    ins,keys,al,every=slice_of(P,f,h)
    P.slice=(f,ins); P.relcells=set()
    P.relkeys=None if every else set(keys)|P.posfields(); P.relext=every; P.mutable=P.effects(f.name)[0]
    backs=P.iteration(f,h,cur)
    res=[]
    for b,s in backs:
        ch={}; unk=set()
        for y in f.blocks[h]:
            if y.op!='phi': break
            if y.i not in ins and not every: continue
            note(ch,unk,('phi',f.name,y.i),s.env.get(('i',y.i)))
        for c,v in s.cells.items():
            if not every and c not in P.relcells and P.info.get(c) not in keys and not(c[0][0]=='al' and c[0][2] in al): continue
            note(ch,unk,('init',c),v)
        for e in s.eff:
            if e[0]=='io': ch[('io',)]='+'
            elif e[0]=='st' and (e[1] in keys or every): unk.add(e)
            elif e[0]=='ind': unk.add(e)
            elif every: unk.add(e)
        res.append((ch,unk,s.mask,b,any(e[0]=='cut' for e in s.eff)))
    return res
def note(ch,unk,sym,v):
    if v is not None and v==('s',sym,0): return
    if v is not None and v[0]=='s' and v[1]==sym:
        d=v[2]
        if isinstance(d,int): d='+' if d>0 else '-'
        if d in('+','-','nz'): ch[sym]=d; return
        if d in('0+','0-'): ch[sym]=d; return
    if linked(v,sym): ch[sym]='L'; return
    if sym[0]=='init' and linked(v,sym): ch[sym]='L'; return
    unk.add(sym)
def ranked(res):
    """lexicographic: repeatedly remove the states in which a value moves that is not moved the other way in any remaining state"""
    rest=[r for r in res if ('io',) not in r[0]]
    while rest:
        syms={s for r in rest for s in r[0]}; best=None
        for s in syms:
            for d in('+','-','nz','L'):
                okd={'+':{'+','0+'},'-':{'-','0-'},'nz':{'nz'},'L':{'L'}}[d]
                if any(s in r[1] or (s in r[0] and r[0][s] not in okd) for r in rest): continue
                left=[r for r in rest if r[0].get(s)!=d]
                if len(left)<len(rest): best=left; break
            if best is not None: break
        if best is None: return rest
        rest=best
    return []
def decide(P,f,h,stages=(0,2,5)):
    """('ok',how) / ('bad',states) / ('open',states)"""
    last=None; curs=set()
    for d in stages:
        P.maxdepth=d; P.sums={}; now=None
        for cur in [None]+sorted(curs,key=str):
            if cur is None and d>2 and curs: continue
            P.steps=0
            try: res=judge(P,f,h,cur)
            except (TooMany,Budget): continue
            left=ranked(res)
            if not left: return 'ok',(d,cur)
            now=keep(now,left)
            if cur is None:
                curs|={s for r in res for s in r[0] if s!=('io',) and pointer(P,f,s)}|{s for r in res for s in r[1] if s[0] in('phi','init') and pointer(P,f,s)}
        if not d and curs:
            for cur in sorted(curs,key=str):
                P.steps=0
                try: left=ranked(judge(P,f,h,cur))
                except (TooMany,Budget): continue
                if not left: return 'ok',(d,cur)
                now=keep(now,left)
        if now is not None: last=now
    if last is None: return 'open',[]
    still=[r for r in last if not any(v!='0+' and v!='0-' for v in r[0].values()) and not r[1] and not r[4] and not r[0]]
    return ('bad',still) if still else ('open',last)
def keep(a,b):
    def w(l): return (sum(1 for r in l if r[1]),sum(1 for r in l if not r[0] and not r[1]))
    return b if a is None or w(b)<=w(a) else a
def pointer(P,f,sym):
    if sym[0]=='al': return False
    if sym[0]=='phi': return f.insts[sym[2]].t in('ptr','i8*')
    return True
# -------------------------------------------------------------------- recursion
def recursion(P,only=None):
    """calls on cycles of the call graph, with what has changed since the caller was entered: [(f, call, g, 'moved'|'same'|'open')]"""
    m=P.m; names=[f.name for f in m.defined() if not(f.file and f.file.endswith('yaep.c'))]; tg={}
    for n in names:
        tg[n]={x.cname for x in m.funcs[n].calls() if x.cname in m.funcs and not m.funcs[x.cname].decl}
    # strongly connected components
    idx={}; low={}; st=[]; on=set(); comp={}; c=[0]
    def visit(v):
        work=[(v,iter(sorted(tg[v])))]; idx[v]=low[v]=c[0]; c[0]+=1; st.append(v); on.add(v)
        while work:
            u,it=work[-1]
            for w in it:
                if w not in tg: continue
                if w not in idx:
                    idx[w]=low[w]=c[0]; c[0]+=1; st.append(w); on.add(w); work.append((w,iter(sorted(tg[w])))); break
                elif w in on: low[u]=min(low[u],idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]]=min(low[work[-1][0]],low[u])
                if low[u]==idx[u]:
                    k=[]
                    while True:
                        w=st.pop(); on.discard(w); k.append(w)
                        if w==u: break
                    for w in k: comp[w]=frozenset(k)
    for v in names:
        if v not in idx: visit(v)
    out=[]
    for n in names:
        if not(len(comp[n])>1 or n in tg[n]): continue
        if only is not None and not any(w in only for w in comp[n]): continue
        f=m.funcs[n]; cell={}
        for (p,off,K),d in P.contracts.get(n,{}).items():
            if K: cell[p]=(('arg',n,p),off)
        got={}
        orig=P.call
        def call(fn,s,x):
            if fn is f and P.depth==0 and x.cname in comp[n]:
                how='open'
                args=[P.op(fn,s,v) for v in x.o]
                if any(a is not None and a[0]=='s' and deeper(a[1],n) for a in args): how='moved'
                for p,c in cell.items():
                    v=s.cells.get(c,('s',('init',c),0))
                    if v is not None and v[0]=='s' and v[1]==('init',c):
                        if v[2]=='+' or isinstance(v[2],int) and v[2]>0: how='moved'
                        elif v[2]==0 and how!='moved': how='same'
                if not cell and how!='moved' and all(a is not None and (a[0]=='k' or a[0]=='s' and a[1][0]=='arg' and a[2]==0) for a in args): how='same'
                got.setdefault(x.i,set()).add(how)
            return orig(fn,s,x)
        P.call=call
        P.relkeys=P.posfields(); P.relext=False; P.mutable=P.effects(n)[0]; P.slice=None; P.cursym=None
        env={('a',i):('s',('arg',n,i),0) for i in range(len(f.params))}
        done=False
        for d in(1,0):
            P.maxdepth=d; P.sums={}; P.depth=0; P.round=1; P.steps=0; b,P.budget=P.budget,8000; got.clear()
            try: P.run(f,0,St(env,{},FULL),limit=6000); done=True
            except (TooMany,Budget): pass
            P.budget=b
            if done: break
        P.call=orig
        for x in f.calls():
            if x.cname in comp[n]:
                g=got.get(x.i,set()) if done else {'open'}
                out.append((f,x,x.cname,'same' if 'same' in g else 'open' if 'open' in g or (not g and not done) else 'moved'))
    return out
def deeper(sym,n):
    d=0
    while sym[0]=='init': sym=sym[1][0]; d+=1
    return d>0 and sym[0]=='arg' and sym[1]==n
