"""P8: JSON output is well formed whatever the document contains."""
import json, itertools, os
import numpy as np
from driver import Check
from util import *
from flow import Flow, addr_key
from charset import *
NAMEF={('struct._xmlNode',16),('struct._xmlNs',24),('struct._xmlAttr',16),('struct._xmlEntity',16)}
OPEN={'{':'}','[':']'}
# ---------------------------------------------------------------- engine models: heap, strlen/strcmp of the input buffer
class Heap:
    def __init__(self,eng,LN,bytes_):
        self.e=eng; self.LN=LN; self.B=bytes_; self.k=0
    def model(self,e,x,args,mask,mem):
        n=x.cname
        if n in('malloc','calloc','xmlMalloc'):
            self.k+=1; p=Ptr(('heap',self.k),0)
            if n=='calloc': mem[(p.base,'zero')]=1<<40
            return p
        if n in('realloc','xmlRealloc'):
            if isinstance(args[0],Ptr): return args[0]
            self.k+=1; return Ptr(('heap',self.k),0)
        if n=='free': return TOP
        if n=='strlen' and isinstance(args[0],Ptr) and args[0].base==('buf',): return simp(self.LN-args[0].off)
        if n in('strcmp','strncmp') and isinstance(args[0],Ptr) and args[0].base==('buf',) and isinstance(args[1],Ptr) and args[1].base[0]=='g' and isinstance(args[0].off,int):
            s=e.m.cstr(('g',args[1].base[1]))
            if s is None: return NotImplemented
            s=s[args[1].off:] if isinstance(args[1].off,int) else s
            k=len(s)+1
            if n=='strncmp':
                if not isinstance(args[2],int): return NotImplemented
                k=min(k,args[2])
            z=s+b'\0'; eq=np.ones(e.n,dtype=bool)
            for d in range(k):
                o=args[0].off+d
                eq&=(self.B[:,o]==z[d]) if o<self.B.shape[1] else (z[d]==0)
            out=[]
            if (mask&eq).any(): out.append((mask&eq,0,mem.copy()))
            if (mask&~eq).any(): out.append((mask&~eq,1,mem.copy()))
            return out
        if n and n.startswith('llvm.memcpy') and all(isinstance(a,Ptr) for a in args[:2]) and isinstance(args[2],np.ndarray):
            out=[]
            for u in np.unique(args[2][mask]):
                if u>64: return NotImplemented
                mm=mask&(args[2]==u); me=mem.copy(); self.copy(e,args[0],args[1],int(u),me,mm); out.append((mm,TOP,me))
            return out
        return NotImplemented
    def copy(self,e,d,s,n,mem,mask):
        for k in range(n):
            e.store(Ptr(d.base,d.off+k),e.load(Ptr(s.base,s.off+k),'i8',mem,mask),'i8',mem)
def engine(m,B,LN,**kw):
    def ld(off,t):
        if t=='i8' and 0<=off<B.shape[1]: return s8(B[:,off])
        return None
    e=Engine(m,len(LN),input_mem={('buf',):ld},**kw); h=Heap(e,LN,B); e.cm=h.model
    return e
def s8(a): return ((a&255)^128)-128
def enc(cp):
    n=len(cp); b=np.zeros((n,5),dtype=np.int64); ln=np.zeros(n,dtype=np.int64)
    m1=cp<0x80; m2=(cp>=0x80)&(cp<0x800); m3=(cp>=0x800)&(cp<0x10000); m4=cp>=0x10000
    b[m1,0]=cp[m1]; ln[m1]=1
    b[m2,0]=0xc0|(cp[m2]>>6); b[m2,1]=0x80|(cp[m2]&63); ln[m2]=2
    b[m3,0]=0xe0|(cp[m3]>>12); b[m3,1]=0x80|((cp[m3]>>6)&63); b[m3,2]=0x80|(cp[m3]&63); ln[m3]=3
    b[m4,0]=0xf0|(cp[m4]>>18); b[m4,1]=0x80|((cp[m4]>>12)&63); b[m4,2]=0x80|((cp[m4]>>6)&63); b[m4,3]=0x80|(cp[m4]&63); ln[m4]=4
    return b,ln
def outbytes(e,v,mem,mask):
    """bytes of the returned NUL terminated string on one path: list of scalars/arrays, or None"""
    out=[]
    if not isinstance(v,Ptr) or not isinstance(v.off,int): return None
    for k in range(400):
        x=e.load(Ptr(v.base,v.off+k),'i8',mem,mask)
        if x is TOP or isinstance(x,Ptr): return None
        if not isinstance(x,np.ndarray) and x==0: return out
        if isinstance(x,np.ndarray):
            z=(x[mask]==0)
            if z.all(): return out
            if z.any(): return None
        out.append(x)
    return None
# ---------------------------------------------------------------- (a) the quoting functions
def check_quoter(c,m,g,kargs,seen):
    """g(start,stop,consts..) -> heap string: is its result, for every character, the body of a JSON string that decodes to the character? returns True(adds quotes)/False/None"""
    key=(g,kargs)
    if key in seen: return seen[key]
    f=m.funcs[g]; where='%s:%d'%(f.file,f.line); name='%s(%s)'%(g,','.join(map(str,kargs)))
    seen[key]=None; quoted=None
    def dom(B,LN,want,label):
        nonlocal quoted
        n=len(LN); e=engine(m,B,LN,max_paths=200000,max_steps=4000000)
        args=[]; kp=0; kc=0
        for p in f.params:
            t=p[0]
            if t=='ptr':
                args.append(Ptr(('buf',),0) if kp==0 else Ptr(('buf',),LN)); kp+=1
            else: args.append(kargs[kc]); kc+=1
        tot=np.zeros(n,dtype=bool)
        for mk,v,mem in e.run(g,args):
            ob=outbytes(e,v,mem,mk)
            if ob is None:
                c.undecided('quote:%s:%s'%(g,label),where,'output of %s not determined for e.g. %r'%(name,want[int(np.nonzero(mk)[0][0])])); tot|=mk; continue
            tot|=mk
            idx=np.nonzero(mk)[0]
            q=len(ob)>=2 and not isinstance(ob[0],np.ndarray) and ob[0]==34 and not isinstance(ob[-1],np.ndarray) and ob[-1]==34
            if quoted is None: quoted=q
            if q!=quoted: c.ob('quote:%s:quotes'%g,False,where,'%s surrounds only some results with quotes'%name)
            body=ob[1:-1] if q else ob
            # fast path: copied verbatim
            L=len(body); fast=np.zeros(n,dtype=bool)
            if L and L<=B.shape[1]:
                fast=mk&(LN==L)
                for k in range(L): fast&=((body[k]+np.zeros(n,dtype=np.int64))&255)==(B[:,k]&255)
                for k in range(L): fast&=(B[:,k]>=0x20)&(B[:,k]!=34)&(B[:,k]!=92)
                if label=='malformed': fast&=False
            slow=[i for i in idx if not fast[i]]
            bad=[]
            for i in slow[:200000]:
                raw=bytes(int(x[i] if isinstance(x,np.ndarray) else x)&255 for x in body)
                try:
                    s=json.loads('"'+raw.decode('utf-8')+'"')
                    if want[i] is not None and s!=want[i]: bad.append((want[i],raw))
                except Exception: bad.append((want[i],raw))
                if len(bad)>3: break
            for i,(w,raw) in enumerate(bad[:3]): c.ob('quote:%s:%s'%(g,label),False,where,'%s turns %r into %r, which is not a JSON string body for it'%(name,w,raw))
            if not bad: c.ob('quote:%s:%s'%(g,label),True,where)
        c.ob('quote:%s:%s:total'%(g,label),bool(tot.all()),where,'no result for %d inputs'%int((~tot).sum()))
    for cp in char_domains():
        B,LN=enc(cp); dom(B,LN,Lazy(cp),'char')
    # every pair of ASCII characters: context does not matter
    a,b=np.meshgrid(np.arange(1,128),np.arange(1,128)); a=a.ravel(); b=b.ravel()
    B=np.zeros((a.size,4),dtype=np.int64); B[:,0]=a; B[:,1]=b
    dom(B,np.full(a.size,2,dtype=np.int64),[chr(x)+chr(y) for x,y in zip(a,b)],'pair')
    b=np.arange(128,256); B=np.zeros((128,3),dtype=np.int64); B[:,0]=b
    dom(B,np.ones(128,dtype=np.int64),[None]*128,'malformed')
    if any(t=='null' for t in ()): pass
    seen[key]=quoted
    c.cov['quoting functions']=sorted('%s%s'%k for k in seen)
    return quoted
def char_domains():
    """quick: all code points below U+3000 and, above, every combination of the leading bytes with boundary/special last bytes; thorough: all code points"""
    cp=np.arange(1,0x110000,dtype=np.int64); cp=cp[(cp<0xd800)|(cp>0xdfff)]
    if os.environ.get('VERIF_TIER')!='thorough':
        low=cp&63; lo2=(cp>>6)&63
        keep=(cp<0x3000)|((cp<0x10000)&np.isin(low,[0,0x22,0x27,0x28,0x29,0x3c,0x3f]))|((cp>=0x10000)&np.isin(low,[0,0x22,0x3f])&np.isin(lo2,[0,0x17,0x22,0x3c,0x3f]))
        cp=cp[keep]
    return [cp[i:i+40000] for i in range(0,len(cp),40000)]
class Lazy:
    def __init__(self,cp): self.cp=cp
    def __getitem__(self,i): return chr(int(self.cp[i]))
# ---------------------------------------------------------------- (c) validators of content printed unquoted
import re
NUM=re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?\Z')
def json_scalar(s): return s in('true','false','null') or NUM.match(s) is not None
def check_validator(c,m,g,seen):
    """g(string) nonzero only for JSON scalars"""
    if g in seen: return seen[g]
    f=m.funcs[g]; where='%s:%d'%(f.file,f.line); seen[g]=False
    if len(f.params)!=1 or f.decl: return False
    # only functions deciding from the characters alone are candidates
    D=[''.join(t) for k in range(0,6) for t in itertools.product('05-+.eE, x',repeat=k)]
    base=['true','false','null','True','nul','truefalse','tru','nulll','NaN','Infinity','-Infinity','0x10','falsee','"',"\n",'1\n','1\t','1}','1]','[','{','\x80','-true','1.5e-10','123456','1,2,3']
    near=[]                                                # everything one edit away from a scalar
    for w in('true','false','null','1','-12.5e+3'):
        for ch in map(chr,range(1,256)):
            near+=[w+ch,ch+w]
            for k in range(len(w)): near+=[w[:k]+ch+w[k+1:],w[:k]+ch+w[k:]]
        near+=[w[:k]+w[k+1:] for k in range(len(w))]+[w+a+b for a in ' \t\n,}]0tx' for b in ' \t\n,}]0tx']+[w+w,w+' '+w,w.upper(),w.capitalize()]
    D=sorted(set(D+base+near)); n=len(D)
    W=max(map(len,D))+1
    B=np.zeros((n,W),dtype=np.int64); LN=np.array([len(s) for s in D],dtype=np.int64)
    for i,s in enumerate(D): B[i,:len(s)]=[ord(ch)&255 for ch in s]
    e=engine(m,B,LN,max_paths=400000,max_steps=20000000)
    try: outs=e.run(g,[Ptr(('buf',),0)])
    except Limit: return False
    if all(v is TOP for _,v,_ in outs): return False      # not decided by the characters: not a validator
    acc=np.zeros(n,dtype=bool); unk=np.zeros(n,dtype=bool)
    for mk,v,mem in outs:
        if v is TOP: unk|=mk
        elif isinstance(v,Ptr): acc|=mk
        else: acc|=mk&((v+np.zeros(n,dtype=np.int64))!=0)
    if unk.mean()>0.5 or not acc.any() or acc.all(): return False
    bad=[D[i] for i in np.nonzero(acc|unk)[0] if not json_scalar(D[i])]
    c.cov.setdefault('strings per unquoted-content validator',n)
    seen[g]=not bad; seen[g+'!']=bad[:5]
    return seen[g]
# ---------------------------------------------------------------- (b) structure + provenance of everything written
class Writer:
    def __init__(self,c,m):
        self.c=c; self.m=m; self.fl=Flow(m); self.q={}; self.v={}; self.sum={}; self.sites=0; self.npaths=0
        self.lastf={('struct.XMQPrintState',o) for nm,t,o,s in m.structs['struct.XMQPrintState']['fields'] if nm=='last_char'}
        self.emits=set(); self.find_region()
    def is_write(self,f,x):
        if x.op!='call' or x.cname: return False
        v=x.callee
        if v[0]=='i' and f.insts[v[1]].op=='load':
            k=addr_key(f,f.insts[v[1]].o[0])
            return k is not None and k[0]=='f' and ('XMQWriter' in k[1] or 'XMQOutputSettings' in k[1])
        return False
    def find_region(self):
        m=self.m; root='xmq_print_json'; self.c.need(root in m.funcs,root)
        seen=[root]; 
        for n in seen:
            f=m.funcs[n]
            for x in f.calls():
                for t in self.fl.targets(f,x):
                    if t not in seen and t!='print_utf8' and not self.is_write(f,x): seen.append(t)
        sinks=lambda f:any(self.is_write(f,x) or x.cname=='print_utf8' for x in f.calls())
        em={n for n in seen if sinks(m.funcs[n])}
        ch=True
        while ch:
            ch=False
            for n in seen:
                if n not in em and any(t in em for x in m.funcs[n].calls() for t in self.fl.targets(m.funcs[n],x)): em.add(n); ch=True
        self.emits=em
    # ---------- provenance
    def ekey(self,f,v,d=0):
        if v[0]!='i' or d>6: return (f.name,v)
        x=f.insts[v[1]]
        if x.op=='call' and x.cname in self.m.funcs and not self.m.funcs[x.cname].decl: return ('call',x.cname)+tuple(self.ekey(f,o,d+1) for o in x.o)
        if x.op=='load':
            a=x.o[0]
            if a[0]=='i' and f.insts[a[1]].op=='getelementptr':
                g=f.insts[a[1]]
                if g.g and 'off' in g.g: return ('load',g.g['off'],self.ekey(f,g.o[0],d+1))
            return ('load',(f.name,a))
        return (f.name,v)
    def is_name_val(self,f,v,seen=None):
        """an XML name: a load of a libxml2 name/prefix field, a function returning only such, an out parameter filled only with such"""
        seen=seen or set()
        if (f.name,v) in seen: return True
        seen.add((f.name,v))
        if v[0]=='n' or v==('c',0): return True
        if v[0]=='a':
            cs=self.fl.callers.get(f.name,[])
            return bool(cs) and all(v[1]<len(y.o) and self.is_name_val(y.func,y.o[v[1]],seen) for y in cs)
        if v[0]!='i': return self.m.cstr(v) is not None and re.match(rb'[\w:.&;/!-]*\Z',self.m.cstr(v)) is not None
        x=f.insts[v[1]]
        if x.op=='phi': return all(self.is_name_val(f,o,seen) for o,_ in x.o)
        if x.op=='select': return all(self.is_name_val(f,o,seen) for o in x.o[1:])
        if x.op=='call' and x.cname in self.m.funcs and not self.m.funcs[x.cname].decl:
            g=self.m.funcs[x.cname]
            rets=[y.o[0] for y in g.all() if y.op=='ret' and y.o]
            return bool(rets) and all(self.is_name_val(g,r,seen) for r in rets)
        if x.op=='load':
            k=addr_key(f,x.o[0])
            if k and k[0]=='f' and (k[1],k[2]) in NAMEF: return True
            if k and k[0]=='l':
                al=('i',k[2])
                for y in f.uses().get(al,()):
                    if y.op=='store' and y.o[1]==al:
                        if not self.is_name_val(f,y.o[0],seen): return False
                    elif y.op=='call' and y.cname in self.m.funcs and not self.m.funcs[y.cname].decl:
                        g=self.m.funcs[y.cname]
                        for i,o in enumerate(y.o):
                            if o==al:
                                for z in g.uses().get(('a',i),()):
                                    if z.op=='store' and z.o[1]==('a',i):
                                        if not self.is_name_val(g,z.o[0],seen): return False
                                    elif z.op!='load' : return False
                    elif y.op=='call' and y.cname and y.cname.startswith('llvm.'): pass
                    elif y.op!='load': return False
                return True
        return False
    def numbuf(self,f,v,path):
        """a local buffer last filled by snprintf with a constant number format: returns the possible text with digits as 0"""
        if v[0]!='i': return None
        b=strip_ptr(f,v)
        if b[0]!='i' or f.insts[b[1]].op!='alloca': return None
        fm=set()
        for x in f.calls():
            if x.cname in('snprintf','sprintf') and strip_ptr(f,x.o[0])==b:
                fmt=self.m.cstr(x.o[2 if x.cname=='snprintf' else 1])
                if fmt is None: return None
                fm.add(fmt)
            elif x.cname and not x.cname.startswith('llvm.') and x.cname!='print_utf8' and any(strip_ptr(f,o)==b for o in x.o if isinstance(o,tuple)) and not self.is_write(f,x): return None
        if len(fm)!=1: return None
        t=re.sub(rb'%(zu|d|u|lu|zd|ld|i|zi)',b'0',fm.pop())
        return None if b'%' in t else t.decode()
    def piece(self,f,v,stop,env):
        v=self.resolve(f,v,env)
        if v[0]=='n' or v==('c',0): return ('const','')
        s=self.m.cstr(v)
        if s is not None: return ('const',s.decode('latin1'))
        if stop is not None and stop!=('n',) and stop!=('c',0):
            return ('unknown','printed up to a computed end')
        t=self.numbuf(f,v,env)
        if t is not None: return ('const',t)
        if self.is_name_val(f,v): return ('name',)
        if v[0]=='i':
            x=f.insts[v[1]]
            if x.op=='call' and x.cname in self.m.funcs and not self.m.funcs[x.cname].decl:
                g=self.m.funcs[x.cname]; ka=[]; ok=g.rt=='ptr'; np_=0
                for i,p in enumerate(g.params):
                    t=p[0]
                    if t=='ptr': np_+=1
                    else:
                        pc=possible_consts(f,x.o[i])
                        if pc is None or len(pc)!=1: ok=False
                        else: ka.append(next(iter(pc)))
                if ok and np_ in(1,2) and not self.returns_param(g):
                    r=check_quoter(self.c,self.m,g.name,tuple(ka),self.q)
                    if r is not None: return ('quoted',r)
            return ('content',self.ekey(f,v))
        return ('content',self.ekey(f,v))
    def returns_param(self,g):
        """a getter (returns memory it was given), not a function building a new string"""
        return not any(x.cname in('malloc','calloc','realloc','xmlMalloc') or self.allocs(x.cname) for x in g.calls())
    def allocs(self,n,seen=None):
        seen=seen if seen is not None else set()
        if n in('malloc','calloc','realloc','strdup'): return True
        g=self.m.funcs.get(n) if n else None
        if g is None or g.decl or n in seen: return False
        seen.add(n)
        return any(self.allocs(x.cname,seen) for x in g.calls())
    def resolve(self,f,v,env):
        n=0
        while v[0]=='i' and n<20:
            x=f.insts[v[1]]; n+=1
            if x.op=='phi' and ('phi',v[1]) in env: v=env[('phi',v[1])]; continue
            if x.op in('bitcast','freeze') or x.op=='call' and x.cname in('strdup','xmlStrdup','xmlCharStrdup'): v=x.o[0]; continue
            break
        return v
    # ---------- facts implied by conditions
    def implied(self,f,v,env,val,d=0):
        """set of content keys validated when i1/int value v is `val` (True = nonzero)"""
        if d>12 or v[0]!='i': return frozenset()
        v=self.resolve(f,v,env)
        if v[0]!='i': return frozenset()
        x=f.insts[v[1]]
        if x.op in('zext','sext','trunc','freeze'): return self.implied(f,x.o[0],env,val,d+1)
        if x.op=='icmp' and x.p in('ne','eq') and x.o[1] in(('c',0),('n',)): return self.implied(f,x.o[0],env,val==(x.p=='ne'),d+1)
        if x.op=='xor' and x.o[1] in(('c',1),('c',-1)): return self.implied(f,x.o[0],env,not val,d+1)
        if x.op in('and','or'):
            a,b=self.implied(f,x.o[0],env,val,d+1),self.implied(f,x.o[1],env,val,d+1)
            return a|b if (x.op=='and')==val else a&b
        if x.op=='select':
            a,b=x.o[1],x.o[2]
            if a[0]=='c':   # c ? true : b   (or)
                ca=self.implied(f,x.o[0],env,val,d+1); cb=self.implied(f,b,env,val,d+1)
                return ca&cb if val else cb
            if b[0]=='c':
                return self.implied(f,x.o[0],env,True,d+1)|self.implied(f,a,env,True,d+1) if val and b[1]==0 else frozenset()
            return frozenset()
        if x.op=='call' and val and x.cname in self.m.funcs and len(x.o)==1:
            if check_validator(self.c,self.m,x.cname,self.v): return frozenset([self.ekey(f,self.resolve(f,x.o[0],env))])
        return frozenset()
    def constcond(self,f,v,env):
        v=self.resolve(f,v,env)
        if v[0]=='c': return v[1]&1
        if v[0]=='i':
            x=f.insts[v[1]]
            if x.op=='icmp' and x.p in('eq','ne'):
                a,b=self.resolve(f,x.o[0],env),self.resolve(f,x.o[1],env)
                if a[0]=='n' and b[0]=='n': return int(x.p=='eq')
                for q,w in((a,b),(b,a)):
                    if q[0]=='n' and w[0]=='g': return int(x.p=='ne')
        return None
    # ---------- one function
    def summary(self,n):
        if n in self.sum: return self.sum[n]
        self.sum[n]=dict(outs={'v','?'},ready=False,rec=True)   # recursion: refined below
        for _ in range(4):
            s=self.analyse(n)
            if s==self.sum[n]: break
            self.sum[n]=s
        return self.sum[n]
    def comma_role(self,n):
        """function that writes ',' exactly when the last character printed is not an opening bracket, a comma or nothing"""
        m=self.m; f=m.funcs[n]
        if not any(x.op=='load' and x.o[0][0]=='i' and (addr_key(f,x.o[0]) or ())[1:] in self.lastf for x in f.all()): return None
        # load of last_char through the gep with that owner/offset
        off=next(iter(self.lastf))[1]
        dom=byte_domain(); log=[]
        def ld(o,t): return dom if o==off else None
        def cm(e,x,args,mask,mem):
            if x.op=='call' and not x.cname and self.is_write(x.func,x):
                s=m.cstr(('g',args[1].base[1])) if isinstance(args[1],Ptr) and args[1].base[0]=='g' else None
                mem[('log',0)]=(mem.get(('log',0),((),))[0]+(s,),'x'); return TOP
            if x.cname=='print_utf8':
                num=[m.cstr(('g',a.base[1])) for a in args[3::2] if isinstance(a,Ptr) and a.base[0]=='g']
                mem[('log',0)]=(mem.get(('log',0),((),))[0]+tuple(num),'x'); return TOP
            return NotImplemented
        e=Engine(m,256,input_mem={('ps',):ld},call_model=cm)
        com=np.zeros(256,dtype=bool); oth=False
        for mk,v,mem in e.run(n,[Ptr(('ps',),0)]+[TOP]*(len(f.params)-1)):
            lg=mem.get(('log',0),((),))[0]
            if lg==(b',',): com|=mk
            elif lg!=(): oth=True
        want=np.array([b not in(0,ord('{'),ord('['),ord(',')) for b in range(256)])
        self.c.ob('separator:%s'%n,bool((com==want).all()) and not oth,'%s:%d'%(f.file,f.line),
                  'a comma is %s after %s'%(('missing','not wanted')[int(bool((com&~want).any()))],[chr(b) for b in np.nonzero(com!=want)[0]][:6]))
        return True
    def analyse(self,n):
        m=self.m; f=m.funcs[n]; c=self.c
        outs=set(); ready=[False]
        init=(0,None,(),False,'?','?',frozenset(),frozenset())
        work=[init]; seen={init}
        phis={b:[x for x in L if x.op=='phi' and (x.t=='ptr' or x.t in('i1','i8'))] for b,L in enumerate(f.blocks)}
        def bad(kind,x,why): c.ob('%s:%s'%(n,kind),False,x.loc(),why)
        while work:
            b,prev,stack,instr,last,stored,valid,envf=work.pop(); self.npaths+=1
            if self.npaths>400000: c.ob('%s:analysis'%n,False,f.name,'too many states'); return dict(outs=outs,ready=ready[0])
            env=dict(envf); L=f.blocks[b]
            for x in phis[b]:
                for o,pb in x.o:
                    if pb==prev: env[('phi',x.i)]=self.resolve(f,o,env) if o!=('i',x.i) else o
            # a phi redefinition invalidates facts about it
            states=[(stack,instr,last,stored,valid)]
            nxt=None
            for x in L:
                if x.op=='phi': continue
                new=[]
                for st in states:
                    stack,instr,last,stored,valid=st
                    if x.op=='store' and (addr_key(f,x.o[1]) or ())[1:] in self.lastf:
                        pc=possible_consts(f,x.o[0])
                        s2='v'
                        if pc is not None and len(pc)==1: s2={'{':'open','[':'open',',':'sep',':':'colon'}.get(chr(next(iter(pc))&255),'v')
                        new.append((stack,instr,last,s2,valid)); continue
                    if x.op=='call' and (x.cname=='print_utf8' or self.is_write(f,x)):
                        direct=x.cname!='print_utf8'
                        if direct: pairs=[(x.o[1],x.o[2])]
                        else:
                            np_=possible_consts(f,x.o[2]); np_=next(iter(np_)) if np_ else 0
                            pairs=[(x.o[3+2*k],x.o[4+2*k]) for k in range(np_) if 4+2*k<len(x.o)]
                        cur=(stack,instr,last)
                        for a,s in pairs:
                            self.sites+=1
                            p=self.piece(f,a,self.resolve(f,s,env),env)
                            cur=self.emit(n,x,p,cur,valid,ready,bad)
                        stack,instr,last=cur
                        new.append((stack,instr,last,stored if direct else (last if not instr else 'v'),valid)); continue
                    if x.op=='call':
                        ts=[t for t in self.fl.targets(f,x) if t in self.emits]
                        if ts:
                            for t in ts:
                                if self.comma_role_of(t):
                                    if instr: bad('quotes',x,'separator written inside a string')
                                    if stored!=last and not(last in('v','colon') and stored in('v','colon')): bad('last-char',x,'the remembered last character (%s) is not the one written (%s)'%(stored,last))
                                    if last=='colon': bad('structure',x,'separator after a colon')
                                    new.append((stack,instr,'sep' if last!='open' else 'open','sep' if last!='open' else 'open',valid)); continue
                                s=self.summary(t)
                                if instr: bad('quotes',x,'%s is called inside a string'%t)
                                if s['ready']:
                                    if last=='v': bad('structure',x,'%s writes a value directly after another one'%t)
                                    if last=='?': ready[0]=True
                                for o in s['outs']:
                                    if o=='?': new.append((stack,instr,last,stored,valid))
                                    else: new.append((stack,instr,o,o,valid))
                            continue
                    new.append(st)
                states=list(dict.fromkeys(new))
                if x.op=='ret':
                    for stack,instr,last,stored,valid in states:
                        if stack: bad('structure',x,'returns with open %s'%''.join(stack))
                        if instr: bad('quotes',x,'returns inside an unterminated string')
                        if last in('colon','sep') : bad('structure',x,'returns after a dangling %s'%last)
                        if last!=stored and last!='?' and n!='xmq_print_json': bad('last-char',x,'returns with the remembered last character (%s) differing from the one written (%s)'%(stored,last))
                        outs.add(last)
                        c.ob('%s:return'%n,True,x.loc())
            t=L[-1]
            if t.op in('ret','unreachable'): continue
            for stack,instr,last,stored,valid in states:
                if t.op=='br' and len(t.s)==2:
                    cc=self.constcond(f,t.o[0],env)
                    for k,s in enumerate(t.s):
                        if cc is not None and (cc==1)!=(k==0): continue
                        v2=valid|self.implied(f,t.o[0],env,k==0)
                        self.push(work,seen,s,b,stack,instr,last,stored,v2,env,f)
                else:
                    for s in f.succ(b): self.push(work,seen,s,b,stack,instr,last,stored,valid,env,f)
        return dict(outs=outs or {'v'},ready=ready[0])
    def helpers(self):
        """functions called by separator functions only: covered by the analysis of those"""
        out=set()
        for n in self.emits:
            cs={x.func.name for x in self.fl.callers.get(n,())}
            if cs and all(self.comma_role_of(k) for k in cs if k in self.emits) and cs&self.emits: out.add(n)
        return out
    def comma_role_of(self,t):
        if not hasattr(self,'cr'): self.cr={}
        if t not in self.cr: self.cr[t]=self.comma_role(t)
        return self.cr[t]
    def push(self,work,seen,s,b,stack,instr,last,stored,valid,env,f):
        # keep only resolved phis that are constants/calls (small), drop the rest
        e={k:v for k,v in env.items() if v[0] in('c','n','g','i','a')}
        if len(stack)>12: self.c.ob('%s:structure'%f.name,False,f.name,'unbounded nesting inside one function'); return
        st=(s,b,stack,instr,last,stored,valid,frozenset(e.items()))
        if st not in seen: seen.add(st); work.append(st)
    def item(self,n,x,last,ready,bad,what):
        if last=='v': bad('structure',x,'%s directly after another value'%what)
        if last=='?': ready[0]=True
    def emit(self,n,x,p,cur,valid,ready,bad):
        stack,instr,last=cur; c=self.c; k=p[0]
        if k=='const':
            i=0; s=p[1]
            while i<len(s):
                ch=s[i]
                if instr:
                    if ch=='\\': i+=2; continue
                    if ch=='"': instr=False; last='v'
                    elif ord(ch)<32: bad('escape',x,'control character in a string constant')
                elif ch=='"': self.item(n,x,last,ready,bad,'a string'); instr=True
                elif ch in OPEN: self.item(n,x,last,ready,bad,'a container'); stack=stack+(ch,); last='open'
                elif ch in '}]':
                    if last in('colon','sep'): bad('structure',x,'%s after a dangling %s'%(ch,last))
                    if not stack or OPEN[stack[-1]]!=ch: bad('structure',x,'unbalanced %s'%ch)
                    else: stack=stack[:-1]
                    last='v'
                elif ch==':':
                    if last not in('v','?'): bad('structure',x,'colon not after a key')
                    last='colon'
                elif ch==',':
                    if last in('open','colon','sep'): bad('structure',x,'comma after %s'%last)
                    last='sep'
                elif ch in ' \n\t\r': pass
                else:
                    mo=re.match(r'true|false|null|-?\d+(\.\d+)?',s[i:])
                    if not mo: bad('structure',x,'%r written outside a string'%s[i:i+10]); i+=1; continue
                    self.item(n,x,last,ready,bad,'a value'); last='v'; i+=len(mo.group(0)); continue
                i+=1
            return stack,instr,last
        if k=='quoted':
            if p[1]:
                if instr: bad('quotes',x,'a complete JSON string is written inside another one')
                self.item(n,x,last,ready,bad,'a string'); return stack,instr,'v'
            if not instr: bad('quotes',x,'an escaped text is written outside the quotes')
            c.ob('%s:escaped'%n,True,x.loc()); return cur
        if k=='name':
            if not instr: bad('quotes',x,'a name is written outside the quotes')
            c.ob('%s:name'%n,True,x.loc()); return cur
        if k=='content':
            if not instr and p[1] in valid:
                self.item(n,x,last,ready,bad,'a value'); c.ob('%s:validated'%n,True,x.loc()); return stack,instr,'v'
            bad('escape',x,'text that is neither escaped nor validated as a JSON number/keyword is written')
            return stack,instr,(last if instr else 'v')
        bad('escape',x,'text of unknown origin: %s'%p[1]); return cur
def run(m):
    c=Check('P08','typestate analysis of everything the JSON printer writes + set-valued dataflow of its escaping and number recognition',
            'Every write of every function reachable from the JSON print entry is followed on all paths. Each written piece must be a constant, an XML name, a bounded decimal, the result of an escaping function, or content on a path where a validator accepted it; '
            'a bracket/quote/separator automaton over those pieces must stay well formed. The escaping function is analysed for all code points and all ASCII pairs (its output must decode, as JSON, to its input); the validators for all strings up to 5 over the number alphabet plus keywords.')
    w=Writer(c,m)
    for n in sorted(w.emits):
        if w.comma_role_of(n) or n in w.helpers(): continue
        w.summary(n)
    c.ob('quoter-found',any(v is not None for v in w.q.values()),'','no escaping function is used by the JSON printer')
    for g,ok in list(w.v.items()):
        if g.endswith('!') and ok:
            pass
    # number recognition is exact (parser and printer use the same function)
    if 'is_jnumber' in m.funcs: exact_number(c,m)
    c.cov.update(functions=sorted(w.emits),write_sites=w.sites,states=w.npaths,validators={k:bool(v) for k,v in w.v.items() if not k.endswith('!')})
    return c
def exact_number(c,m):
    f=m.funcs['is_jnumber']; where='%s:%d'%(f.file,f.line)
    D=[''.join(t) for k in range(0,6) for t in itertools.product('05-+.eE, x',repeat=k)]+['1'+t for t in('\t','\r','\n','}',']','{','/',':','"','\0')]
    n=len(D); B=np.zeros((n,8),dtype=np.int64); LN=np.array([len(s) for s in D],dtype=np.int64)
    for i,s in enumerate(D): B[i,:len(s)]=[ord(ch) for ch in s]
    # behind the end there is arbitrary data: the function must not look at it
    for i,s in enumerate(D): B[i,len(s):]=0x37
    past=[]
    class E2(Engine):
        def load(self,p,t,mem,mask=None):
            if isinstance(p,Ptr) and p.base==('buf',) and isinstance(p.off,int) and mask is not None:
                w=mask&(LN<=p.off)
                if w.any(): past.append(D[int(np.nonzero(w)[0][0])])
            return Engine.load(self,p,t,mem,mask)
    def ld(off,t): return s8(B[:,off]) if t=='i8' and 0<=off<8 else None
    e=E2(m,n,input_mem={('buf',):ld},max_paths=400000,max_steps=20000000)
    PRE=re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?')
    want=[]
    for s in D:
        mo=PRE.match(s); e_=-1
        if mo and (mo.end()==len(s) or s[mo.end()] in ' \n\t\r,}]'): e_=mo.end()
        want.append(e_)
    want=np.array(want); tot=np.zeros(n,dtype=bool)
    for mk,v,mem in e.run('is_jnumber',[Ptr(('buf',),0),Ptr(('buf',),LN)]):
        tot|=mk
        if v is TOP: r=np.full(n,-9)
        elif isinstance(v,Ptr): r=v.off+np.zeros(n,dtype=np.int64)
        else: r=np.where(v==0,-1,-9)+np.zeros(n,dtype=np.int64)
        w=mk&(r!=want); k=np.nonzero(w)[0]
        c.ob('is_jnumber:exact',not w.any(),where,'%r: number end at %d, the JSON grammar says %d (-1 = not a number)'%((D[int(k[0])],int(r[k[0]]),int(want[k[0]])) if k.size else ('',0,0)))
    c.ob('is_jnumber:total',bool(tot.all()),where,'no result for some strings')
    c.ob('is_jnumber:past-end',not past,where,'reads behind the end for %r'%past[:1])
    c.cov['number strings']=n
