"""Loader for the IR dump written by tool/irx (see tool/irx.cpp)."""
import json, collections

class Inst:
    __slots__ = ('i','op','t','o','l','f','fn','n','callee','noret','s','p','g','at','asz','vt','ix','blk','func','pos','ats')
    def __init__(self, d, blk, func, pos):
        self.i=d['i']; self.op=d['op']; self.t=d['t']; self.o=[_t(x) for x in d['o']] if d['op']!='phi' else [(_t(x[0]),x[1]) for x in d['o']]
        self.l=d.get('l',0); self.f=d.get('f'); self.fn=d.get('fn'); self.n=d.get('n')
        c=d.get('callee'); self.callee=_t(c) if c else None
        self.noret=d.get('noret',False); self.s=d.get('s'); self.p=d.get('p'); self.g=d.get('g')
        self.at=d.get('at'); self.asz=d.get('as'); self.vt=d.get('vt'); self.ix=d.get('ix'); self.ats=d.get('ats')
        self.blk=blk; self.func=func; self.pos=pos
    @property
    def cname(self):
        return self.callee[1] if self.callee and self.callee[0]=='g' else None
    def succs(self):
        if self.op=='br': return list(self.s)
        if self.op=='switch': return [x[1] for x in self.s]
        return []
    def loc(self):
        f=self.func.mod.files[self.f] if self.f is not None else '?'
        return '%s:%d'%(short(f), self.l or 0)
    def __repr__(self):
        return '<%s#%d %s %s>'%(self.func.name,self.i,self.op,self.loc())

def short(f):
    for k in ('/src/main/c/',):
        j=f.find(k)
        if j>=0: return 'src/main/c/'+f[j+len(k):].replace('parts/../','')
    return f

def _t(x):
    """JSON operand -> tuple (hashable)."""
    if isinstance(x,list): return tuple(_t(y) for y in x)
    if isinstance(x,dict): return Frozen(x)
    return x

class Frozen(dict):
    def __hash__(self): return hash(json.dumps(self,sort_keys=True))

class Func:
    def __init__(self, d, mod):
        self.mod=mod; self.name=d['name']; self.decl=d['decl']; self.internal=d['internal']; self.rt=d['rt']; self.vararg=d['vararg']
        self.noret=d['noret']; self.file=short(mod.files[d['file']]) if 'file' in d else None; self.line=d.get('line',0)
        self.blocks=[]; self.params=[]; self.insts={}
        if self.decl: return
        self.params=d['params']
        for bi,b in enumerate(d['blocks']):
            L=[Inst(x,bi,self,k) for k,x in enumerate(b)]
            self.blocks.append(L)
            for x in L: self.insts[x.i]=x
        self._c={}
    def term(self,b): return self.blocks[b][-1]
    def succ(self,b):
        out=[]
        for s in self.term(b).succs():
            if s not in out: out.append(s)
        return out
    @property
    def preds(self):
        if 'preds' not in self._c:
            p=collections.defaultdict(list)
            for b in range(len(self.blocks)):
                for s in self.succ(b): p[s].append(b)
            self._c['preds']=p
        return self._c['preds']
    def rpo(self):
        if 'rpo' not in self._c:
            seen=set(); order=[]
            stack=[(0,iter(self.succ(0)))]; seen.add(0)
            while stack:
                b,it=stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s,iter(self.succ(s)))); break
                else:
                    order.append(b); stack.pop()
            self._c['rpo']=order[::-1]
        return self._c['rpo']
    def idom(self):
        if 'idom' in self._c: return self._c['idom']
        rpo=self.rpo(); num={b:i for i,b in enumerate(rpo)}; idom={rpo[0]:rpo[0]}; ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                ps=[p for p in self.preds[b] if p in idom]
                n=ps[0]
                for p in ps[1:]:
                    a,c=p,n
                    while a!=c:
                        while num[a]>num[c]: a=idom[a]
                        while num[c]>num[a]: c=idom[c]
                    n=a
                if idom.get(b)!=n: idom[b]=n; ch=True
        self._c['idom']=idom
        return idom
    def dominates(self,a,b):
        idom=self.idom()
        if b not in idom: return False
        while True:
            if a==b: return True
            if idom[b]==b: return False
            b=idom[b]
    def idominst(self,x,y):
        if x.blk==y.blk: return x.pos<y.pos
        return self.dominates(x.blk,y.blk)
    def loops(self):
        """natural loops: header -> (set of blocks, [latches])"""
        if 'loops' in self._c: return self._c['loops']
        L={}
        reach=set(self.rpo())
        for b in reach:
            for s in self.succ(b):
                if self.dominates(s,b):
                    body,lat=L.setdefault(s,(set([s]),[])); lat.append(b)
                    st=[b]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in self.preds[x] if p in reach)
        self._c['loops']=L
        return L
    def uses(self):
        """inst id -> list of using insts; args keyed ('a',k)"""
        if 'uses' in self._c: return self._c['uses']
        u=collections.defaultdict(list)
        for b in self.blocks:
            for x in b:
                ops = [v for v,_ in x.o] if x.op=='phi' else x.o
                for v in ops:
                    if v[0] in('i','a'): u[v].append(x)
                if x.callee and x.callee[0] in ('i','a'): u[x.callee].append(x)
        self._c['uses']=u
        return u
    def live_in(self):
        """block -> frozenset of ('i',id)/('a',k) live at block entry (phi results of the block excluded, phi operands counted live-out of preds)"""
        if 'live' in self._c: return self._c['live']
        nb=len(self.blocks); gen=[set() for _ in range(nb)]; kill=[set() for _ in range(nb)]; phiuse=collections.defaultdict(set)
        for bi,b in enumerate(self.blocks):
            for x in b:
                if x.op=='phi':
                    for v,p in x.o:
                        if v[0] in('i','a'): phiuse[p].add(v)
                    kill[bi].add(('i',x.i)); continue
                ops=list(x.o)+([x.callee] if x.callee else [])
                for v in ops:
                    if v[0] in('i','a') and v not in kill[bi]: gen[bi].add(v)
                kill[bi].add(('i',x.i))
        live=[set() for _ in range(nb)]; ch=True; order=self.rpo()[::-1]
        while ch:
            ch=False
            for b in order:
                out=set(phiuse[b])
                for s in self.succ(b): out|=live[s]
                n=gen[b]|(out-kill[b])
                if n!=live[b]: live[b]=n; ch=True
        self._c['live']=[frozenset(x) for x in live]
        self._c['phiuse']=phiuse
        return self._c['live']
    def all(self):
        for b in self.rpo():
            for x in self.blocks[b]: yield x
    def calls(self,name=None):
        for x in self.all():
            if x.op=='call' and (name is None or x.cname==name): yield x
    def __repr__(self): return '<fn %s>'%self.name

class Module:
    def __init__(self,path):
        d=json.load(open(path))
        self.files=d['files']
        self.funcs={f['name']:Func(f,self) for f in d['functions']}
        self.globals={g['name']:g for g in d['globals']}
        for g in self.globals.values():
            if 'init' in g: g['init']=_t(g['init'])
        self.structs={s['name']:s for s in d['structs']}
        self.enums={e['name']:e['v'] for e in d['enums'] if e['name']}
        self.enumvals={n:v for e in d['enums'] for n,v in e['v']}
        self._str={}
    def defined(self): return [f for f in self.funcs.values() if not f.decl]
    def field(self,struct,name):
        for f in self.structs['struct.'+struct]['fields']:
            if f[0]==name: return f
        return None
    def field_at(self,struct,off):
        for f in self.structs['struct.'+struct]['fields']:
            if f[2]<=off<f[2]+max(1,f[3]): return f[0]
        return None
    def cstr(self,v):
        """constant string bytes for an operand that is (or points to the start of) a string global"""
        off=0
        while v[0]=='ce':
            if v[1]=='getelementptr':
                g=v[3]
                if 'off' not in g: return None
                off+=g['off']; v=v[2][0]
            else: return None
        if v[0]!='g': return None
        g=self.globals.get(v[1])
        if not g or 'init' not in g: return None
        i=g['init']
        if i[0]=='s': b=bytes.fromhex(i[1])
        elif i[0]=='z': b=b'\0'*g['sz']
        else: return None
        b=b[off:]
        k=b.find(b'\0')
        return b[:k] if k>=0 else b
    def address_taken(self):
        """function names whose address is stored/passed"""
        if not hasattr(self,'_at'):
            s=set()
            def rec(v):
                if not isinstance(v,tuple) or not v: return
                if v[0]=='g' and len(v)==2 and v[1] in self.funcs: s.add(v[1])
                for y in v[1:]:
                    if isinstance(y,tuple): rec(y)
            for g in self.globals.values():
                if 'init' in g: rec(g['init'])
            for f in self.defined():
                for x in f.all():
                    ops=[v for v,_ in x.o] if x.op=='phi' else x.o
                    for v in ops: rec(v)
            self._at=s
        return self._at
    READONLY={'strcmp','strncmp','strlen','memcmp','strchr','strcasecmp','strncasecmp','bsearch','llvm.dbg.value','llvm.dbg.declare'}
    def frozen(self):
        """names of static globals that are never written and whose address is only read through"""
        if hasattr(self,'_fz'): return self._fz
        cand={n for n,g in self.globals.items() if g.get('internal') and 'init' in g and not g.get('const')}
        bad=set()
        def base(v):
            while isinstance(v,tuple) and v and v[0]=='ce' and v[1] in('getelementptr','bitcast'): v=v[2][0]
            return v[1] if isinstance(v,tuple) and len(v)==2 and v[0]=='g' else None
        def deep(v,out):
            if isinstance(v,tuple):
                if len(v)==2 and v[0]=='g': out.add(v[1]); return
                for y in v: deep(y,out)
        for g in self.globals.values():
            if 'init' in g:
                o=set(); deep(g['init'],o); bad|=o
        for f in self.defined():
            der={}
            ch=True
            while ch:
                ch=False
                for x in f.all():
                    if x.op in('getelementptr','phi','select','bitcast'):
                        ops=[v for v,_ in x.o] if x.op=='phi' else x.o
                        for v in ops:
                            for b in ({base(v)} if base(v) else set())|(der.get(v,set()) if v and v[0]=='i' else set()):
                                k=('i',x.i)
                                if b in cand and b not in der.setdefault(k,set()): der[k].add(b); ch=True
            for x in f.all():
                if x.op in('load','getelementptr','phi','select','bitcast','icmp'): continue
                if x.op=='call' and x.cname in self.READONLY: continue
                ops=x.o
                for v in ops:
                    if not isinstance(v,tuple): continue
                    o=set(); deep(v,o); bad|=o
                    if v and v[0]=='i': bad|=der.get(v,set())
        self._fz=cand-bad
        return self._fz
    def callgraph(self):
        """direct call edges: name -> set(names)"""
        if not hasattr(self,'_cg'):
            self._cg={f.name:{x.cname for x in f.calls() if x.cname} for f in self.defined()}
        return self._cg
    def reach(self,roots,edges=None):
        e=edges or self.callgraph(); seen=set(); st=list(roots)
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x); st.extend(e.get(x,()))
        return seen
