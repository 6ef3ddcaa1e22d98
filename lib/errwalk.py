"""Path walker for error discipline: explores all CFG paths of a function, remembering which conditions are decided
(through phis, call results, getters of the error field), whether an error has been recorded, which fallible calls
are still unchecked and which struct fields are known to be non-null."""
import collections
from util import *
from flow import addr_key
class ErrWalk:
    """err: (struct,off) of the error code field for each object kind: {'doc':..,'state':..}"""
    def __init__(self,m,fl,err,LIMIT=60000):
        self.m=m; self.fl=fl; self.err=err; self.kinds={v:k for k,v in err.items()}; self.LIMIT=LIMIT
        self.structs={v[0]:k for k,v in err.items()}
        self._getters(); self._paramkinds(); self._maywrite()
        self.jumps=None; self._sum={}; self.active=set()
        self.fallible={}      # fn -> kind of object the error is recorded in
    # -------------------------------------------------------------- classification
    def key(self,f,a):
        k=addr_key(f,a)
        return (k[1],k[2]) if k and k[0]=='f' else None
    def _getters(self):
        """functions that only return the error code of their first argument"""
        self.getter={}
        for f in self.m.defined():
            if any(x.op in('store','call') for x in f.all() if not(x.op=='call' and str(x.cname).startswith('llvm.'))): continue
            r=[x for x in f.all() if x.op=='ret' and x.o]
            if len(r)!=1 or r[0].o[0][0]!='i': continue
            ld=f.insts[r[0].o[0][1]]
            if ld.op=='load' and self.key(f,ld.o[0]) in self.kinds and strip_ptr(f,ld.o[0])==('a',0): self.getter[f.name]=self.kinds[self.key(f,ld.o[0])]
    def _paramkinds(self):
        """which kind of object each parameter points to (from the struct accesses through it, directly or in callees)"""
        pk=self.pk=collections.defaultdict(dict); ch=True
        while ch:
            ch=False
            for f in self.m.defined():
                for x in f.all():
                    if x.op=='getelementptr' and x.g and x.g.get('ow') in self.structs:
                        b=x.o[0]
                        if b[0]=='a' and b[1] not in pk[f.name]: pk[f.name][b[1]]=self.structs[x.g['ow']]; ch=True
                    elif x.op=='call':
                        for t in self.fl.targets(f,x):
                            for k,o in enumerate(x.o):
                                if o[0]=='a' and k in pk[t] and o[1] not in pk[f.name]: pk[f.name][o[1]]=pk[t][k]; ch=True
    def _maywrite(self):
        """functions that may (transitively) store the error field, per kind"""
        mw=self.mw={f.name:{self.kinds[self.key(f,x.o[1])] for x in f.all() if x.op=='store' and self.key(f,x.o[1]) in self.kinds} for f in self.m.defined()}
        ch=True
        while ch:
            ch=False
            for f in self.m.defined():
                for x in f.calls():
                    for t in self.fl.targets(f,x):
                        if mw.get(t,set())-mw[f.name]: mw[f.name]|=mw[t]; ch=True
    # -------------------------------------------------------------- values
    def canon(self,f,v,d=0):
        while v[0]=='i':
            x=f.insts[v[1]]
            if x.op in('zext','sext','trunc','freeze','bitcast'): v=x.o[0]; continue
            if x.op=='load' and d<4:
                k=self.key(f,x.o[0])
                if k: return ('fld',k[0],k[1])
            break
        return v
    def val(self,f,v,E,d=0):
        """int, 'nz' (known non zero), or None"""
        if v[0]=='c': return v[1]
        if v[0]=='n': return 0
        if v[0]=='s' or v[0]=='g': return 'nz'
        c=self.canon(f,v)
        if c[0]=='c': return c[1]
        if c in E: return E[c]
        if c[0]!='i' or d>10: return None
        x=f.insts[c[1]]
        if ('i',x.i) in E: return E[('i',x.i)]
        if x.op=='call' and x.cname in self.getter:
            return E.get(('err',self.getter[x.cname]))
        if x.op=='icmp' and x.p in('eq','ne'):
            a,b=self.val(f,x.o[0],E,d+1),self.val(f,x.o[1],E,d+1)
            if a is None or b is None: return None
            if 'nz' in(a,b):
                if 0 in(a,b) and a!=b: return int(x.p=='ne')
                return None
            return int((a==b)==(x.p=='eq'))
        if x.op=='xor' and x.o[1][0]=='c' and x.o[1][1] in(1,-1):
            a=self.val(f,x.o[0],E,d+1)
            return None if a is None else (0 if a=='nz' or a else 1)
        if x.op=='and' and x.t=='i1':
            a,b=self.val(f,x.o[0],E,d+1),self.val(f,x.o[1],E,d+1)
            if a==0 or b==0: return 0
            return 1 if a and b else None
        if x.op=='or' and x.t=='i1':
            a,b=self.val(f,x.o[0],E,d+1),self.val(f,x.o[1],E,d+1)
            if a or b: return 1
            return 0 if a==0 and b==0 else None
        if x.op=='select':
            s=self.val(f,x.o[0],E,d+1)
            if s is not None: return self.val(f,x.o[1 if s else 2],E,d+1)
            a,b=self.val(f,x.o[1],E,d+1),self.val(f,x.o[2],E,d+1)
            return a if a==b else None
        return None
    def assume(self,f,v,truth,E,d=0):
        """record that condition v is truth; False when contradictory"""
        cur=self.val(f,v,E)
        if cur is not None and bool(cur)!=truth: return False
        if v[0] in('c','n','s','g') or d>10: return True
        c=self.canon(f,v)
        if c[0]=='i':
            x=f.insts[c[1]]
            if x.op=='icmp' and x.p in('eq','ne'):
                eq=(x.p=='eq')==truth
                for a,b in((x.o[0],x.o[1]),(x.o[1],x.o[0])):
                    vb=self.val(f,b,E)
                    if vb==0 and b[0] in('c','n'): return self.assume(f,a,not eq,E,d+1)
                    if isinstance(vb,int) and eq and b[0]=='c':
                        ca=self.canon(f,a)
                        if ca[0]!='c': E[ca]=vb
                        if self.ischar(f,ca): E[('chr',)]=vb
                    if eq and b[0]=='a' and self.ischar(f,self.canon(f,a)): E[('chr',)]=('a',b[1])
                    if eq and self.canon(f,b)[0]=='a' and self.ischar(f,self.canon(f,a)): E[('chr',)]=self.canon(f,b)
                E[c]=int(truth); return True
            if x.op=='icmp' and getattr(self,'endfields',None):
                a,b=self.canon(f,x.o[0]),self.canon(f,x.o[1])
                for p,q,lt in((a,b,('ult','slt')),(b,a,('ugt','sgt'))):
                    if p[0]=='fld' and q[0]=='fld' and (p[1:],q[1:])==self.endfields:
                        if x.p in lt: E[('end',)]=not truth
                for p,q,ge in((a,b,('uge','sge')),(b,a,('ule','sle'))):
                    if p[0]=='fld' and q[0]=='fld' and (p[1:],q[1:])==self.endfields:
                        if x.p in ge or x.p=='eq': E[('end',)]=truth
                        if x.p=='ne': E[('end',)]=not truth
            if x.op=='xor' and x.o[1][0]=='c' and x.o[1][1] in(1,-1): return self.assume(f,x.o[0],not truth,E,d+1)
            if x.op=='select':
                a,b=self.val(f,x.o[1],E,d+1),self.val(f,x.o[2],E,d+1)
                if a is not None and b is not None and bool(a)!=bool(b):
                    if not self.assume(f,x.o[0],bool(a)==truth,E,d+1): return False
            if x.op=='and' and x.t=='i1' and truth:
                return self.assume(f,x.o[0],True,E,d+1) and self.assume(f,x.o[1],True,E,d+1)
            if x.op=='or' and x.t=='i1' and not truth:
                return self.assume(f,x.o[0],False,E,d+1) and self.assume(f,x.o[1],False,E,d+1)
            if x.op=='call' and x.cname in self.getter: E[('err',self.getter[x.cname])]='nz' if truth else 0
            if x.op=='call' and x.cname in('_setjmp','setjmp','__sigsetjmp') and truth: E[('err','state')]='nz'
            if x.op=='phi' and ('lnk',x.i) in E:
                if not self.assume(f,('i',E[('lnk',x.i)]),truth,E,d+1): return False
            if x.op=='call' and not truth:
                kd=self.kind_for_call(f,x)
                if kd: E[('err',kd)]='nz'
            if x.op=='call':
                for fk in self.truthfacts(x,truth): E[('fld',)+fk]='nz'
            if x.t=='i1': E[c]=int(truth); return True
        if c[0]=='fld' and (c[1],c[2]) in self.kinds: E[('err',self.kinds[(c[1],c[2])])]='nz' if truth else 0
        if c[0] in('i','a','fld'): E[c]=('nz' if truth else 0) if E.get(c) in(None,'nz',0) else E[c]
        return True
    # -------------------------------------------------------------- exploring
    def outcomes(self,f,want=lambda E:True):
        """list of (kind of end, instruction, E): 'ret','jump'. E: decided values + ('err',kind): 0/'nz'/None + ('pend',call)."""
        out=[]; seen=set(); n=0
        st=[(0,None,frozenset())]
        keep=self.relevant(f); live,phiuse=self.livedeps(f); sticky=self.sticky(f)
        while st:
            b,pb,env=st.pop()
            if (b,env,pb if any(x.op=='phi' for x in f.blocks[b]) else None) in seen: continue
            seen.add((b,env,pb if any(x.op=='phi' for x in f.blocks[b]) else None))
            n+=1
            if n>self.LIMIT: return None
            E=dict(env); L=f.blocks[b]; NE={}; k=0
            while k<len(L) and L[k].op=='phi':
                for o,p in L[k].o:
                    if p==pb:
                        NE[('i',L[k].i)]=self.val(f,o,E)
                        # a phi that forwards a call result keeps the link
                        if o[0]=='i': NE[('lnk',L[k].i)]=self.root(f,o,E)
                        self.phifx(f,L[k],o,E,NE)
                k+=1
            for q in L[:k]: E.pop(('lnk',q.i),None)
            for q,v in NE.items():
                if v is None: E.pop(q,None)
                else: E[q]=v
            end=False
            while k<len(L):
                y=L[k]; k+=1
                if y.i is not None and ('i',y.i) in E and y.op!='phi':
                    E.pop(('i',y.i))
                if y.op=='store':
                    self.storefx(f,y,E)
                    ky=self.key(f,y.o[1])
                    if ky:
                        v=self.val(f,y.o[0],E)
                        E.pop(('fld',)+ky,None)
                        if getattr(self,'endfields',None) and ky in self.endfields: E.pop(('end',),None)
                        if ky in self.kinds:
                            kd=self.kinds[ky]
                            if v is None:
                                r=possible_consts(f,y.o[0])
                                if r is not None and 0 not in r: v='nz'
                            E[('err',kd)]=v if v is not None else '?'
                            if v==0: E[('reset',kd)]=1
                            if v not in(0,None) : E[('code',kd)]=v
                        if v is not None: E[('fld',)+ky]=v
                        elif y.vt=='ptr': E[('fld',)+ky]=self.ptrval(f,y.o[0],E)
                        if E.get(('fld',)+ky,0) is None: E.pop(('fld',)+ky)
                elif y.op=='call':
                    if y.cname and y.cname.startswith('llvm.'): continue
                    self.hook(f,y,E)
                    if y.cname in('longjmp','_longjmp'):
                        out.append(('jump',y,E)); end=True; break
                    self.callfx(f,y,E)
                    if y.noret: end=True; break
                elif y.op=='ret':
                    out.append(('ret',y,E)); end=True; break
                elif y.op=='unreachable': end=True; break
            if end: continue
            t=L[-1]
            def go(s,E2): st.append((s,b,frozenset((q,v) for q,v in E2.items() if ((q[1] in keep and (q[1] in sticky or q in live[s] or q in phiuse[b])) if q[0]=='i' else q[1:] in self.fldkeep(f) if q[0]=='fld' else True))))
            if t.op=='br' and len(t.s)==2 and t.o:
                for idx,s in enumerate(t.s):
                    E2=dict(E)
                    if self.assume(f,t.o[0],idx==0,E2):
                        self.branch(f,t.o[0],idx==0,E2); go(s,E2)
            elif t.op=='switch':
                v=self.val(f,t.o[0],E); cs=[c[0] for c in t.s]; c0=self.canon(f,t.o[0])
                for val,s in t.s:
                    E2=dict(E)
                    if val is None:
                        if isinstance(v,int) and v in cs: continue
                        if 0 in cs and v is None and c0[0] in('i','a','fld'): E2[c0]='nz'
                    else:
                        if isinstance(v,int) and v!=val: continue
                        if v=='nz' and val==0: continue
                        E2[c0]=val
                        if c0[0]=='fld' and (c0[1],c0[2]) in self.kinds: E2[('err',self.kinds[(c0[1],c0[2])])]='nz' if val else 0
                    self.branch(f,t.o[0],None,E2); go(s,E2)
            else:
                for s in f.succ(b): go(s,E)
        return out
    def livedeps(self,f):
        r=getattr(f,'_livedeps',None)
        if r is None:
            memo={}
            def deps(v,d=0):
                if v[0]!='i': return {v}
                if v in memo: return memo[v]
                memo[v]={v}; x=f.insts[v[1]]; out={v}
                if x.op in('zext','sext','trunc','freeze','icmp','xor','and','or','select'):
                    for o in x.o: out|=deps(o,d+1)
                memo[v]=out; return out
            def cl(S):
                out=set()
                for v in S: out|=deps(v)
                return out
            lv=f.live_in(); pu=f._c['phiuse']
            r=f._livedeps=([cl(x) for x in lv],collections.defaultdict(set,{b:cl(x) for b,x in pu.items()}))
        return r
    def sticky(self,f):
        """calls whose outcome matters until the function returns"""
        return {x.i for x in f.calls() if x.t in('i1','i8') and any(self.mw.get(t) or t in self.fallible for t in self.fl.targets(f,x))}
    def fldkeep(self,f):
        r=getattr(f,'_fldkeep',None)
        if r is None:
            r=f._fldkeep={self.key(f,x.o[0]) for x in f.all() if x.op=='load' and x.t in('i1','i8','ptr','i32') and any(u.op in('icmp','switch','trunc') for u in f.uses().get(('i',x.i),()))}|set(self.kinds)|set(getattr(self,'locfields',()))
        return r
    def relevant(self,f):
        """instructions whose decided value is worth remembering: phis, calls and comparisons used more than in their own block"""
        r=getattr(f,'_errrel',None)
        if r is None:
            r=set()
            for x in f.all():
                if x.i is None: continue
                if x.op=='phi': r.add(x.i)
                elif x.op in('call','icmp','select'):
                    if any(u.blk!=x.blk or u.op=='phi' for u in f.uses().get(('i',x.i),())): r.add(x.i)
                    if x.op=='call' and x.t in('i1','i8','i32'): r.add(x.i)
            f._errrel=r
        return r
    def root(self,f,v,E):
        c=self.canon(f,v)
        if c[0]=='i' and ('lnk',c[1]) in E: return E[('lnk',c[1])]
        return c[1] if c[0]=='i' and f.insts[c[1]].op=='call' else None
    def ptrval(self,f,v,E):
        """'nz' when a stored pointer is the current position of a parse (never null), else None"""
        b=bases(f,v)
        for q in b:
            if q[0]=='i' and f.insts[q[1]].op=='load' and self.key(f,f.insts[q[1]].o[0]) in getattr(self,'nnfields',()): continue
            return None
        return 'nz'
    def hook(self,f,y,E): pass
    def phifx(self,f,x,o,E,NE): pass
    def storefx(self,f,y,E): pass
    def branch(self,f,cond,truth,E):
        """a decided condition examines the calls it depends on: they are no longer pending"""
        for r in self.depends(f,cond,E): 
            E.pop(('pend',r),None)
    def depends(self,f,v,E,d=0):
        if d>10: return set()
        c=self.canon(f,v)
        if c[0]=='fld' and (c[1],c[2]) in self.kinds:
            kd=self.kinds[(c[1],c[2])]; return {q[1] for q in E if q[0]=='pend' and E[q]==kd}
        if c[0]!='i': return set()
        x=f.insts[c[1]]
        if x.op=='phi': return {E[('lnk',x.i)]} if ('lnk',x.i) in E else set()
        if x.op=='call':
            out={x.i}
            if x.cname in self.getter:
                kd=self.getter[x.cname]; out|={q[1] for q in E if q[0]=='pend' and E[q]==kd}
            return out
        if x.op in('icmp','xor','and','or','select'):
            out=set()
            for o in x.o: out|=self.depends(f,o,E,d+1)
            return out
        return set()
    def kind_for_call(self,f,y):
        for t in self.fl.targets(f,y):
            if t in self.fallible: return self.fallible[t]
        return None
    def callfx(self,f,y,E):
        ts=self.fl.targets(f,y)
        ext=not ts
        w=set()
        for t in ts: w|=self.mw.get(t,set())
        for kd in w:
            E.pop(('fld',)+self.err[kd],None)
            if not self.getter.get(y.cname):
                cur=E.get(('err',kd))
                if cur in(0,None): E[('err',kd)]='?'
        if getattr(self,'endfields',None) and ts:
            if any('state' in self.pk[t].values() and t not in self.getter for t in ts) and any(self.maymove(t) for t in ts): E.pop(('end',),None)
            lc=[self.lastchr(t) for t in ts]
            if len(set(lc))==1 and lc[0] is not None:
                E[('chr',)]=lc[0] if isinstance(lc[0],int) else (self.val(f,y.o[lc[0][1]],E) if lc[0][1]<len(y.o) else None)
        fk=self.kind_for_call(f,y)
        if fk: E[('pend',y.i)]=fk

        for q in [q for q in E if q[0]=='fld']:
            if any((q[1],q[2]) in self.nulled(t) for t in ts): E.pop(q)
        for fk in self.truthfacts(y,None): E[('fld',)+fk]='nz'
    def nulled(self,t):
        """pointer fields a function may (transitively) set to something not known to be non-null"""
        if not hasattr(self,'_nul'):
            d={f.name:set() for f in self.m.defined()}
            for f in self.m.defined():
                for x in f.all():
                    if x.op=='store' and x.vt=='ptr':
                        k=self.key(f,x.o[1])
                        if k and k[0] in self.structs and self.ptrval(f,x.o[0],{})!='nz': d[f.name].add(k)
            ch=True
            while ch:
                ch=False
                for f in self.m.defined():
                    for x in f.calls():
                        for g in self.fl.targets(f,x):
                            if d.get(g,set())-d[f.name]: d[f.name]|=d[g]; ch=True
            self._nul=d
        return self._nul.get(t,())
    def truthfacts(self,y,truth):
        """fields of interest that are non-null after call y returned `truth` (None: whatever it returned)"""
        t=y.cname
        if not getattr(self,'nnfields',None) or t not in self.m.funcs or self.m.funcs[t].decl: return ()
        if 'state' not in self.pk[t].values(): return ()
        if t not in self._sum:
            self._sum[t]={}      # recursion: nothing known
            f=self.m.funcs[t]
            touched=any(x.op in('load','store') and self.key(f,x.o[0] if x.op=='load' else x.o[1]) in self.locfields for x in f.all()) or any(x.op=='call' for x in f.all())
            r=self.outcomes(f) if touched and sum(len(b) for b in f.blocks)<1500 else None
            if r is None: self._sum[t]={}
            else:
                S={}
                for kind,z,E in r:
                    if kind!='ret': continue
                    fs={(q[1],q[2]) for q,v in E.items() if q[0]=='fld' and v=='nz' and (q[1],q[2]) in self.locfields}
                    v=self.val(f,z.o[0],E) if z.o else None
                    for tr in(True,False,None):
                        if tr is not None and v is not None and bool(v)!=tr: continue
                        S[tr]=fs if tr not in S else S[tr]&fs
                self._sum[t]=S
        return self._sum[t].get(truth,())

    def ischar(self,f,c):
        """a byte read from memory (or returned as a char by a call)"""
        if c[0]!='i': return False
        x=f.insts[c[1]]
        return x.t=='i8' and x.op in('load','phi','call','select')
    def maymove(self,t):
        """functions that may move the read position"""
        if not hasattr(self,'_mv'):
            pos=self.endfields[0]
            d=self._mv={f.name for f in self.m.defined() if any((x.op=='store' and self.key(f,x.o[1])==pos) or (x.op=='call' and any(o[0]=='i' and f.insts[o[1]].op=='getelementptr' and self.key(f,o)==pos for o in x.o)) for x in f.all())}
            ch=True
            while ch:
                ch=False
                for f in self.m.defined():
                    if f.name in d: continue
                    if any(g in d for x in f.calls() for g in self.fl.targets(f,x)): d.add(f.name); ch=True
        return t in self._mv
    def lastchr(self,t):
        """the character every normally returning path of t has compared successfully last: int, ('a',k) or None"""
        if not hasattr(self,'_lc'): self._lc={}
        if t not in self._lc:
            self._lc[t]=None; f=self.m.funcs[t]
            if f.rt=='void' and 'state' in self.pk[t].values() and sum(len(b) for b in f.blocks)<400 and any(x.cname in('longjmp','_longjmp') for x in f.calls()):
                hk=self.hook; self.hook=lambda *a: None
                r=self.outcomes(f); self.hook=hk
                if r:
                    s={E.get(('chr',)) for k,z,E in r if k=='ret'}
                    if len(s)==1: self._lc[t]=s.pop()
        return self._lc[t]
