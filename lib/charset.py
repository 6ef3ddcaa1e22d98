"""Set-valued dataflow over a finite character domain.

The abstract state of a program point is the set of domain elements (a boolean mask) that can reach it on one CFG path,
together with, for every SSA value, the function domain element -> value (a numpy array, or a scalar when it does not
depend on the element).  Branches split the set; nothing is executed and no element is singled out.  The domain is given
by the caller: e.g. all 256 bytes, or all code points together with the bytes of their UTF-8 encodings.
Anything the analysis cannot express becomes TOP; a branch on TOP is followed both ways with the whole set."""
import numpy as np
class Top:
    def __repr__(self): return 'TOP'
TOP=Top()
class Limit(Exception): pass
BITS={'i1':1,'i8':8,'i16':16,'i32':32,'i64':64,'ptr':64}
SIZE={'i1':1,'i8':1,'i16':2,'i32':4,'i64':8,'ptr':8,'double':8}
class Ptr:
    """base: hashable object name; off: scalar or array byte offset"""
    __slots__=('base','off')
    def __init__(self,b,o=0): self.base=b; self.off=o
    def __repr__(self): return 'Ptr(%s,%s)'%(self.base,self.off if np.isscalar(self.off) else '*')
def wrap(v,bits):
    if bits>=64: return v
    m=(1<<bits)-1; h=1<<(bits-1)
    if bits==1: return v&1
    return ((v&m)^h)-h
def uns(v,bits):
    if bits>=64:
        return v
    return v&((1<<bits)-1)
def simp(v):
    if isinstance(v,np.ndarray) and v.size and (v==v.flat[0]).all(): return int(v.flat[0])
    return v
class Result:
    def __init__(self): self.rets=[]; self.calls=[]; self.unknown_calls=set(); self.stuck=[]; self.aborts=[]
class State:
    __slots__=('mask','env','mem','frames')
class Engine:
    """model(engine, inst, args, st) -> value or NotImplemented : models of calls.
       input_load(ptr, size, st) -> array or TOP : contents of caller-supplied memory"""
    def __init__(self,m,n,input_mem=None,call_model=None,max_paths=20000,max_steps=400000,opaque=(),max_depth=12,loopcap=2000):
        self.m=m; self.n=n; self.input_mem=input_mem or {}; self.cm=call_model; self.max_paths=max_paths; self.max_steps=max_steps
        self.opaque=set(opaque); self.max_depth=max_depth; self.steps=0; self.loopcap=loopcap; self.fresh=0
    # -------------------------------------------------- constants / globals
    def const(self,v):
        k=v[0]
        if k=='c': return v[1]
        if k=='n': return 0
        if k=='g': return Ptr(('g',v[1]),0)
        if k=='ce' and v[1]=='getelementptr':
            b=self.const(v[2][0])
            if isinstance(b,Ptr) and 'off' in v[3]: return Ptr(b.base,b.off+v[3]['off'])
        return TOP
    def ginit(self,name,off,t):
        """scalar constant stored in a global at byte offset, if the global's initialiser is known"""
        g=self.m.globals.get(name)
        if not g or 'init' not in g: return None
        if not(g.get('const') or name.startswith(('.str','__const'))) and name not in getattr(self,'frozen',()) and name not in self.m.frozen(): return None
        return self._gi(g['init'],g['t'],off,t)
    def _gi(self,i,gt,off,t):
        if off<0: return None
        if i[0]=='s':
            b=bytes.fromhex(i[1])
            n=SIZE.get(t)
            if n is None or off+n>len(b): return None
            return int.from_bytes(b[off:off+n],'little',signed=True)
        if i[0]=='z': return 0
        if i[0]=='agg':
            import re
            mo=re.match(r'\[(\d+) x (.*)\]$',gt)
            if mo:
                et=mo.group(2); es=self.tysize(et)
                if es is None: return None
                k=off//es
                if k>=len(i[1]): return None
                e=i[1][k]
                return self._gi(e,et,off%es,t)
            s=self.m.structs.get(gt.lstrip('%'))
            if s:
                for fi,f in enumerate(s['fields']):
                    if f[2]<=off<f[2]+max(1,f[3]) and fi<len(i[1]): return self._gi(i[1][fi],'?',off-f[2],t)
            return None
        if i[0]=='c': return i[1] if off==0 else None
        if i[0]=='n': return 0
        if i[0] in('g','ce'): return self.const(i)
        return None
    def tysize(self,t):
        import re
        if t in SIZE: return SIZE[t]
        mo=re.match(r'\[(\d+) x (.*)\]$',t)
        if mo:
            e=self.tysize(mo.group(2)); return None if e is None else e*int(mo.group(1))
        s=self.m.structs.get(t.lstrip('%'))
        return s.get('size') if s else None
    # -------------------------------------------------- values
    def val(self,v,env):
        if v[0] in('i','a'): return env.get(v,TOP)
        return self.const(v)
    def sel(self,mask,a):
        return a
    def binop(self,op,a,b,bits):
        if a is TOP or b is TOP: return TOP
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.base==b.base: return simp(a.off-b.off)
            return TOP
        if op in('udiv','urem','sdiv','srem'):
            if isinstance(b,np.ndarray) or b==0: return TOP
            if op in('udiv','urem'): a=uns(a,bits); b=uns(b,bits)
            q=np.abs(a)//abs(b)*np.sign(a)*np.sign(b) if op in('sdiv','srem') else a//b
            r=q if op in('udiv','sdiv') else a-q*b
            return simp(wrap(r,bits)) if isinstance(r,np.ndarray) else int(wrap(int(r),bits))
        f={'add':lambda:a+b,'sub':lambda:a-b,'mul':lambda:a*b,'and':lambda:a&b,'or':lambda:a|b,'xor':lambda:a^b}.get(op)
        if f: r=f()
        elif op=='shl': r=a<<b
        elif op=='ashr': r=a>>b
        elif op=='lshr': r=uns(a,bits)>>b
        else: return TOP
        r=wrap(r,bits)
        return simp(r) if isinstance(r,np.ndarray) else int(r)
    def cmp(self,p,a,b,bits):
        if a is TOP or b is TOP: return TOP
        pa=False
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.base==b.base: a,b,pa=a.off,b.off,True
            elif p in('eq','ne') and ((isinstance(a,Ptr) and isinstance(b,int) and b==0) or (isinstance(b,Ptr) and isinstance(a,int) and a==0)):
                q=a if isinstance(a,Ptr) else b
                if q.base[0]=='maybe': return TOP
                return int(p=='ne')
            else: return TOP
        if p[0]=='u' and bits>=64 and not pa:       # order of unsigned numbers: the sign bit counts most
            flip=lambda v: v^np.int64(-2**63) if isinstance(v,np.ndarray) else (int(v)&(2**64-1))-2**63
            a=flip(a); b=flip(b)
        elif p[0]=='u' and bits<64: a=uns(a,bits); b=uns(b,bits)
        q=p if p in('eq','ne') else p[1:]
        r={'eq':lambda:a==b,'ne':lambda:a!=b,'lt':lambda:a<b,'le':lambda:a<=b,'gt':lambda:a>b,'ge':lambda:a>=b}[q]()
        if isinstance(r,np.ndarray): return simp(r.astype(np.int64))
        return int(r)
    # -------------------------------------------------- memory
    def load(self,p,t,mem,mask=None):
        if not isinstance(p,Ptr): return TOP
        off=p.off
        if isinstance(off,np.ndarray):
            vals=off[mask] if mask is not None else off
            u=np.unique(vals)
            if u.size==1: off=int(u[0])
            elif u.size<=4096:
                out=np.zeros(self.n,dtype=np.int64); 
                for k in u:
                    v=self.load(Ptr(p.base,int(k)),t,mem)
                    if v is TOP or isinstance(v,Ptr): return TOP
                    sl=off==k
                    out[sl]=v[sl] if isinstance(v,np.ndarray) else v
                return simp(out) if mask is None else out
            else: return TOP
        k=(p.base,off,t)
        c=mem.get((p.base,off))
        if c is not None:
            v,ct=c
            if ct==t: return v
            if t in BITS and ct in BITS and BITS[t]<BITS[ct] and not isinstance(v,Ptr) and v is not TOP: return self.trunc(v,BITS[t])
            return TOP
        # a wider earlier store covering this byte, or several narrower ones
        n=SIZE.get(t)
        if n is None: return TOP
        if (p.base,'havoc') in mem: return TOP
        for d in range(1,8):
            c=mem.get((p.base,off-d))
            if c and SIZE.get(c[1],0)>d:
                if c[0] is TOP or isinstance(c[0],Ptr): return TOP
                return self.trunc(c[0]>>(8*d),8*n)
        if n>1:
            parts=[]
            for d in range(n):
                c=mem.get((p.base,off+d))
                if c is None: break
                if c[1]!='i8' or c[0] is TOP or isinstance(c[0],Ptr): return TOP
                parts.append(uns(c[0],8))
            if len(parts)==n:
                r=0
                for d,x in enumerate(parts): r=r|(x<<(8*d))
                return wrap(r,8*n) if n<8 else r
            if parts: return TOP
        z=mem.get((p.base,'zero'))
        if z is not None and off<z: return 0
        if p.base[0]=='g':
            r=self.ginit(p.base[1],off,t)
            return TOP if r is None else r
        if p.base in self.input_mem:
            r=self.input_mem[p.base](off,t)
            return TOP if r is None else r
        return TOP
    def trunc(self,v,bits):
        if v is TOP or isinstance(v,Ptr): return TOP
        r=wrap(v,bits); return simp(r) if isinstance(r,np.ndarray) else int(r)
    def store(self,p,v,t,mem):
        if not isinstance(p,Ptr): mem[('anywhere',0)]=(TOP,'?'); return
        if isinstance(p.off,np.ndarray):
            mem[(p.base,'havoc')]=(TOP,'?')
            for k in [k for k in mem if k[0]==p.base and isinstance(k[1],int)]: del mem[k]
            return
        n=SIZE.get(t,8)
        for d in range(1,8):
            c=mem.get((p.base,p.off-d))
            if c and SIZE.get(c[1],0)>d: mem[(p.base,p.off-d)]=(TOP,c[1])
        for d in range(1,n):
            if (p.base,p.off+d) in mem: del mem[(p.base,p.off+d)]
        mem[(p.base,p.off)]=(v,t)
    def anywhere(self,mem): return ('anywhere',0) in mem
    # -------------------------------------------------- run
    def run(self,fn,args,mask=None,mem=None,depth=0):
        """-> list of (mask, return value, memory)"""
        f=self.m.funcs[fn] if isinstance(fn,str) else fn
        if mask is None: mask=np.ones(self.n,dtype=bool)
        env={('a',k):v for k,v in enumerate(args)}
        self.fresh+=1; frame=(f.name,self.fresh)
        outs=[]; work=[(0,None,mask,env,dict(mem or {}),{})]; npaths=0
        while work:
            b,prev,mask,env,mem,visits=work.pop()
            npaths+=1
            if npaths>self.max_paths: raise Limit('paths in '+f.name)
            while True:
                if not mask.any(): break
                visits=dict(visits); visits[b]=visits.get(b,0)+1
                if visits[b]>self.loopcap: raise Limit('loop in '+f.name)
                L=f.blocks[b]; nxt=None; k=0; forked=False
                ph={}
                while k<len(L) and L[k].op=='phi':
                    x=L[k]
                    for o,pb in x.o:
                        if pb==prev: ph[('i',x.i)]=self.val(o,env)
                    k+=1
                if ph: env=dict(env); env.update(ph)
                else: env=dict(env)
                done=False
                for x in L[k:]:
                    self.steps+=1
                    if self.steps>self.max_steps: raise Limit('steps')
                    op=x.op
                    if op=='br':
                        if len(x.o)==0 or len(x.s)==1: nxt=x.s[0]; break
                        c=self.val(x.o[0],env)
                        if c is TOP or isinstance(c,Ptr):
                            work.append((x.s[1],b,mask,env,mem.copy(),visits)); nxt=x.s[0]
                        elif isinstance(c,np.ndarray):
                            m1=mask&(c!=0); m2=mask&(c==0)
                            if m2.any(): work.append((x.s[1],b,m2,env,mem.copy(),visits))
                            mask=m1; nxt=x.s[0]
                        else: nxt=x.s[0] if c else x.s[1]
                        break
                    if op=='switch':
                        c=self.val(x.o[0],env); rest=mask
                        if c is TOP or isinstance(c,Ptr):
                            for s in {s for _,s in x.s[1:]}: work.append((s,b,mask,env,mem.copy(),visits))
                            nxt=x.s[0][1]
                        elif not isinstance(c,np.ndarray):
                            nxt=x.s[0][1]
                            for kv,s in x.s[1:]:
                                if kv==c: nxt=s
                        else:
                            tg={}
                            for kv,s in x.s[1:]:
                                mm=rest&(c==kv)
                                if mm.any():
                                    tg[s]=tg[s]|mm if s in tg else mm
                                    rest=rest&~mm
                            d=x.s[0][1]; tg[d]=tg[d]|rest if d in tg else rest
                            for s,mm in tg.items():
                                if s!=d and mm.any(): work.append((s,b,mm,env,mem.copy(),visits))
                            mask=tg[d]; nxt=d
                        break
                    if op=='ret':
                        outs.append((mask,self.val(x.o[0],env) if x.o else None,mem)); done=True; break
                    if op=='unreachable': done=True; break
                    if op=='call':
                        r=self.call(f,x,env,mask,mem,depth)
                        if r is None: done=True; break          # never returns
                        if len(r)==0: done=True; break
                        # several outcomes: fork
                        for mm,v,me in r[1:]:
                            e2=dict(env); e2[('i',x.i)]=v
                            self._resume(f,b,x.pos+1,mm,e2,me,visits,work,outs,depth,prev)
                        mask,v,mem=r[0]
                        env[('i',x.i)]=v
                        continue
                    v=self.step(f,x,env,mask,mem,frame)
                    if v is not None: env[('i',x.i)]=v
                if done or nxt is None: break
                prev,b=b,nxt
        return outs
    def _resume(self,f,b,pos,mask,env,mem,visits,work,outs,depth,prev):
        # continue a block after a call that split the set: re-enter through a pseudo path
        sub=Resume(self,f); sub.go(b,pos,mask,env,mem,visits,work,outs,depth,prev)
    def step(self,f,x,env,mask,mem,frame):
        op=x.op; o=x.o
        if op=='alloca':
            return Ptr(('l',frame,x.i),0)
        if op=='load': return self.load(self.val(o[0],env),x.t,mem,mask)
        if op=='store': self.store(self.val(o[1],env),self.val(o[0],env),x.vt,mem); return None
        if op=='getelementptr':
            p=self.val(o[0],env)
            g=x.g or {}
            if isinstance(p,int) and not isinstance(p,bool):      # arithmetic on a null base
                if 'off' in g: return p+g['off']
                i=self.val(o[1],env)
                return p+i*g['es'] if len(o)==2 and g.get('es') and isinstance(i,int) else TOP
            if not isinstance(p,Ptr): return TOP
            if 'off' in g: return Ptr(p.base,p.off+g['off'])
            return self.gep(f,x,p,env)
        if op=='icmp':
            t=self.optype(f,o[0],o[1])
            return self.cmp(x.p,self.val(o[0],env),self.val(o[1],env),BITS.get(t,64))
        if op in('zext',):
            v=self.val(o[0],env)
            if v is TOP or isinstance(v,Ptr): return TOP
            return uns(v,BITS.get(self.optype(f,o[0]),64))
        if op in('sext','freeze','bitcast'): return self.val(o[0],env)
        if op in('ptrtoint','inttoptr'): return self.val(o[0],env)
        if op=='trunc': return self.trunc(self.val(o[0],env),BITS.get(x.t,64))
        if op=='select':
            c=self.val(o[0],env); a=self.val(o[1],env); b=self.val(o[2],env)
            if c is TOP: return TOP
            if not isinstance(c,np.ndarray): return a if c else b
            cm=c[mask]
            if cm.size and cm.all(): return a
            if cm.size and not cm.any(): return b
            if a is TOP or b is TOP or isinstance(a,Ptr) or isinstance(b,Ptr): return TOP
            return simp(np.where(c!=0,a,b).astype(np.int64))
        if op in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem'):
            return self.binop(op,self.val(o[0],env),self.val(o[1],env),BITS.get(x.t,64))
        return TOP
    def gep(self,f,x,p,env):
        g=x.g or {}; es=g.get('es')
        idx=[self.val(v,env) for v in x.o[1:]]
        if any(i is TOP or isinstance(i,Ptr) for i in idx): return Ptr(('maybe',('top',x.i,f.name)),0) if False else TOP
        # [elem type, index] or [array type, 0, index]
        if len(idx)==1 and es: return Ptr(p.base,simp(p.off+idx[0]*es) if isinstance(idx[0],np.ndarray) else p.off+idx[0]*es)
        if len(idx)==2 and not isinstance(idx[0],np.ndarray) and idx[0]==0:
            import re
            st=g.get('st') or g.get('rt') or ''
            mo=re.match(r'\[(\d+) x (.*)\]$',st)
            e=self.tysize(mo.group(2)) if mo else es
            if e: return Ptr(p.base,p.off+idx[1]*e)
        return TOP
    def optype(self,f,*vs):
        for v in vs:
            if v[0]=='i': return f.insts[v[1]].t
            if v[0]=='a': return f.params[v[1]][0]
            if v[0] in('g','n','ce'): return 'ptr'
        return 'i64'
    # -------------------------------------------------- calls
    def call(self,f,x,env,mask,mem,depth):
        args=[self.val(v,env) for v in x.o]
        n=x.cname
        if self.cm:
            r=self.cm(self,x,args,mask,mem)
            if r is not NotImplemented:
                if r is None: return None
                if isinstance(r,list): return r
                return [(mask,r,mem)]
        if n and n.startswith('llvm.'):
            if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.stack'): return [(mask,TOP,mem)]
            if n.startswith('llvm.memset') and isinstance(args[0],Ptr) and isinstance(args[1],int) and args[1]==0 and isinstance(args[2],int) and isinstance(args[0].off,int):
                b=args[0].base
                for k in [k for k in mem if k[0]==b and isinstance(k[1],int) and args[0].off<=k[1]<args[0].off+args[2]]: del mem[k]
                if args[0].off==0: mem[(b,'zero')]=args[2]
                else:
                    for d in range(min(args[2],64)): mem[(b,args[0].off+d)]=(0,'i8')
                return [(mask,TOP,mem)]
            if n.startswith('llvm.memcpy') and isinstance(args[0],Ptr) and isinstance(args[1],Ptr) and isinstance(args[2],int) and args[2]<=64 and isinstance(args[0].off,int) and isinstance(args[1].off,int):
                for d in range(args[2]):
                    self.store(Ptr(args[0].base,args[0].off+d),self.load(Ptr(args[1].base,args[1].off+d),'i8',mem,mask),'i8',mem)
                return [(mask,TOP,mem)]
            if n.startswith(('llvm.umin','llvm.umax','llvm.smin','llvm.smax','llvm.abs')): return [(mask,TOP,mem)]
            if n.startswith('llvm.mem') and isinstance(args[0],Ptr): mem[(args[0].base,'havoc')]=(TOP,'?')
            return [(mask,TOP,mem)]
        if x.noret: return None
        if n=='strlen' and isinstance(args[0],Ptr) and args[0].base[0]=='g' and isinstance(args[0].off,int):
            s=self.m.cstr(('g',args[0].base[1]))
            if s is not None: return [(mask,len(s)-args[0].off,mem)]
        if n in('strchr','memchr') and isinstance(args[0],Ptr) and args[0].base[0]=='g' and args[0].off==0 and args[1] is not TOP and not isinstance(args[1],Ptr):
            s=self.m.cstr(('g',args[0].base[1]))
            if s is not None:
                s=s+b'\0'
                if n=='memchr': s=s[:args[2]] if isinstance(args[2],int) else s
                a=args[1] if isinstance(args[1],np.ndarray) else np.full(self.n,args[1])
                a=a&255
                hit=np.isin(a,list(s)); m1=mask&hit; m2=mask&~hit; out=[]
                if m1.any():
                    pos=np.zeros(self.n,dtype=np.int64)
                    for j in range(len(s)-1,-1,-1): pos[a==s[j]]=j
                    out.append((m1,Ptr(args[0].base,simp(pos) if (pos[m1]!=pos[m1][0]).any() else int(pos[m1][0])),mem.copy()))
                if m2.any(): out.append((m2,0,mem.copy()))
                return out
        if n in('isspace','isdigit','isalpha','isalnum','isxdigit','isupper','islower') and args[0] is not TOP:
            a=args[0] if isinstance(args[0],np.ndarray) else np.full(self.n,args[0])
            S={'isspace':b' \t\n\r\v\f','isdigit':b'0123456789','isxdigit':b'0123456789abcdefABCDEF'}
            import string
            S['isupper']=string.ascii_uppercase.encode(); S['islower']=string.ascii_lowercase.encode(); S['isalpha']=string.ascii_letters.encode(); S['isalnum']=S['isalpha']+S['isdigit']
            return [(mask,simp(np.isin(a,list(S[n])).astype(np.int64)),mem)]
        g=self.m.funcs.get(n) if n else None
        if g is not None and not g.decl and n not in self.opaque and depth<self.max_depth:
            return self.run(g,args,mask,mem,depth+1)
        # unknown: results TOP, memory reachable from pointer args unknown
        for a in args:
            if isinstance(a,Ptr) and a.base[0]!='g': 
                for k in [k for k in mem if k[0]==a.base]: del mem[k]
                mem[(a.base,'havoc')]=(TOP,'?')
        return [(mask,TOP,mem)]
class Resume:
    def __init__(self,e,f): self.e=e; self.f=f
    def go(self,b,pos,mask,env,mem,visits,work,outs,depth,prev):
        e=self.e; f=self.f
        # run the rest of block b, then push its successors on the worklist
        for x in f.blocks[b][pos:]:
            op=x.op
            if op=='br':
                if len(x.s)==1: work.append((x.s[0],b,mask,env,mem,visits)); return
                c=e.val(x.o[0],env)
                if c is TOP or isinstance(c,Ptr):
                    for s in x.s: work.append((s,b,mask,dict(env),mem.copy(),visits))
                elif isinstance(c,np.ndarray):
                    for s,mm in((x.s[0],mask&(c!=0)),(x.s[1],mask&(c==0))):
                        if mm.any(): work.append((s,b,mm,dict(env),mem.copy(),visits))
                else: work.append((x.s[0] if c else x.s[1],b,mask,env,mem,visits))
                return
            if op=='switch':
                c=e.val(x.o[0],env)
                if c is TOP or isinstance(c,Ptr):
                    for s in {s for _,s in x.s}: work.append((s,b,mask,dict(env),mem.copy(),visits))
                    return
                ca=c if isinstance(c,np.ndarray) else np.full(e.n,c)
                rest=mask
                for kv,s in x.s[1:]:
                    mm=rest&(ca==kv)
                    if mm.any(): work.append((s,b,mm,dict(env),mem.copy(),visits)); rest=rest&~mm
                if rest.any(): work.append((x.s[0][1],b,rest,dict(env),mem.copy(),visits))
                return
            if op=='ret': outs.append((mask,e.val(x.o[0],env) if x.o else None,mem)); return
            if op=='unreachable': return
            if op=='call':
                r=e.call(f,x,env,mask,mem,depth)
                if r is None or not r: return
                for mm,v,me in r[1:]:
                    e2=dict(env); e2[('i',x.i)]=v
                    self.go(b,x.pos+1,mm,e2,me,visits,work,outs,depth,prev)
                mask,v,mem=r[0]; env[('i',x.i)]=v
                continue
            v=e.step(f,x,env,mask,mem,(f.name,'r'))
            if v is not None: env[('i',x.i)]=v

def byte_domain():
    return np.array([b-256 if b>127 else b for b in range(256)],dtype=np.int64)

def byte_classes(m,fn,argk=0,nargs=None,extra=None,**kw):
    """partition of the 256 byte values by the (scalar) return value of a predicate/classifier taking a char"""
    e=Engine(m,256,**kw); f=m.funcs[fn]
    args=[TOP]*len(f.params)
    if extra: 
        for k,v in extra.items(): args[k]=v
    args[argk]=byte_domain()
    out={}
    for mask,v,mem in e.run(fn,args):
        if v is TOP: key='?'
        elif isinstance(v,Ptr): key=m.cstr(('g',v.base[1])) if v.base[0]=='g' and v.off==0 else str(v)
        elif isinstance(v,np.ndarray):
            for u in np.unique(v[mask]):
                out.setdefault(int(u),set()).update(np.nonzero(mask&(v==u))[0].tolist())
            continue
        else: key=v
        out.setdefault(key,set()).update(np.nonzero(mask)[0].tolist())
    return out
