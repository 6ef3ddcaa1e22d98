"""Integer and pointer-offset intervals at program points (conditions that dominate the point are taken into account)."""
import re
from util import *
INF=float('inf')
BITS={'i1':1,'i8':8,'i16':16,'i32':32,'i64':64}
SZ={'i1':1,'i8':1,'i16':2,'i32':4,'i64':8,'ptr':8,'double':8,'float':4}
def full(t):
    n=BITS.get(t,64)
    if n==1: return (0,1)
    return (-(1<<(n-1)),(1<<n)-1)
def tsize(t):
    if t in SZ: return SZ[t]
    mo=re.match(r'\[(\d+) x (.*)\]$',str(t))
    if mo:
        s=tsize(mo.group(2)); return None if s is None else int(mo.group(1))*s
    return None
def join(a,b):
    if a is None: return b
    if b is None: return a
    return (min(a[0],b[0]),max(a[1],b[1]))
SWAP={'eq':'eq','ne':'ne','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle'}
NEG={'eq':'ne','ne':'eq','ult':'uge','uge':'ult','ule':'ugt','ugt':'ule','slt':'sge','sge':'slt','sle':'sgt','sgt':'sle'}
class Interval:
    def __init__(self,m,fl):
        self.m=m; self.fl=fl; self.pmemo={}; self.depth=0; self.fmemo={}
    # ------------------------------------------------------------ dominating conditions
    def edges(self,f,b):
        """(condition, truth) facts that hold when block b is entered"""
        r=f._c.setdefault('ivedges',{})
        if b in r: return r[b]
        out=[]; seen=set(); d=b
        idom=f.idom
        idom=idom() if callable(idom) else idom
        preds=f.preds
        while d is not None and d not in seen:
            seen.add(d)
            ps=list(dict.fromkeys(preds[d]))
            if len(ps)==1:
                t=f.blocks[ps[0]][-1]
                if t.op=='br' and t.o and len(t.s)==2 and t.s[0]!=t.s[1]: out.append((t.o[0],t.s[0]==d,ps[0]))
                elif t.op=='switch':
                    vs=[v for v,s in t.s if s==d]
                    if vs and None not in vs: out.append((('sw',t.o[0],tuple(vs)),True,ps[0]))
            nd=idom[d] if not isinstance(idom,dict) else idom.get(d)
            if nd==d: break
            d=nd
        r[b]=out
        return out
    def strip(self,f,v):
        while v[0]=='i' and f.insts[v[1]].op in('zext','sext','freeze','bitcast'): v=f.insts[v[1]].o[0]
        return v
    def clip(self,f,v,r,conds,env):
        """narrow range r of v by conditions"""
        if r is None: return None
        sv=self.strip(f,v)
        for c,truth,b in conds:
            if c[0]=='sw':
                if self.strip(f,c[1])==sv: r=(max(r[0],min(c[2])),min(r[1],max(c[2])))
                continue
            if c[0]!='i': continue
            x=f.insts[c[1]]
            if x.op=='xor' and x.o[1][0]=='c': r=self.clip(f,v,r,[(x.o[0],not truth,b)],env); continue
            if x.op in('and','or') and x.t=='i1' and truth==(x.op=='and'):
                r=self.clip(f,v,r,[(x.o[0],truth,b),(x.o[1],truth,b)],env); continue
            if x.op=='phi' and x.t=='i1':
                # short-circuit: and-phi true (or-phi false) implies the last operand
                ks=[(o,p) for o,p in x.o if not(o[0]=='c' and bool(o[1])!=truth)]
                if len(ks)==1:
                    if ks[0][0][0]!='c': r=self.clip(f,v,r,[(ks[0][0],truth,b)],env)
                    r=self.clip(f,v,r,self.edges(f,ks[0][1]),env)
                    continue
            if x.op!='icmp':
                if x.op=='trunc': r=self.clip(f,v,r,[(x.o[0],truth,b)],env)
                continue
            p=x.p if truth else NEG[x.p]
            for a,o,q in((x.o[0],x.o[1],p),(x.o[1],x.o[0],SWAP[p])):
                if o==a: continue
                k=self.offset_of(f,a,v)          # a = v + k
                if k is None: continue
                if (q[0]=='u' or q in('eq','ne')) and BITS.get(x.o[0][2] if len(x.o[0])>2 else None) : pass
                orr=self.rng(f,o,b,env) if o[0]!='c' else (o[1],o[1])
                if orr is None: continue
                lo,hi=orr[0]-k,orr[1]-k
                if q=='eq': r=(max(r[0],lo),min(r[1],hi))
                elif q=='ne':
                    if lo==hi:
                        if r[0]==lo: r=(lo+1,r[1])
                        if r[1]==lo: r=(r[0],lo-1)
                    q2=self.counted(f,a,orr,b,env)
                    if q2: r=(r[0],min(r[1],hi-1))
                elif q in('slt','ult'):
                    r=(max(r[0],-k) if q=='ult' and orr[0]>=0 and self.uns(f,a) else r[0],min(r[1],hi-1))
                elif q in('sle','ule'):
                    r=(max(r[0],-k) if q=='ule' and orr[0]>=0 and self.uns(f,a) else r[0],min(r[1],hi))
                elif q=='sgt' or q=='ugt' and lo+k>=0 and r[0]+k>=0: r=(max(r[0],lo+1),r[1])
                elif q=='sge' or q=='uge' and lo+k>=0 and r[0]+k>=0: r=(max(r[0],lo),r[1])
        if r[0]>r[1]: return None
        return r
    def counted(self,f,a,orr,b,env):
        """a = counter + k, tested against != bound in every round, counting up by one from below the bound"""
        k=0; w=a
        while w[0]=='i':
            x=f.insts[w[1]]
            if x.op in('zext','sext','freeze'): w=x.o[0]; continue
            if x.op=='add' and x.o[1][0]=='c': k+=x.o[1][1]; w=x.o[0]; continue
            break
        if w[0]!='i' or f.insts[w[1]].op!='phi': return False
        x=f.insts[w[1]]; init=None; n=0
        for o,p in x.o:
            y=f.insts[o[1]] if o[0]=='i' else None
            if y is not None and y.op=='add' and y.o[0]==w and y.o[1]==('c',1):
                n+=1
                if not self.dom(f,b,p): return False
            elif o==w: return False
            else:
                r=self.rng(f,o,p,{q:v for q,v in env.items() if not(isinstance(q,tuple) and len(q)==2 and q[1]==w)},12)
                if r is None: continue
                init=r if init is None else (min(init[0],r[0]),max(init[1],r[1]))
        return n>0 and init is not None and init[1]+k<=orr[0]
    def dom(self,f,a,b):
        idom=f.idom
        idom=idom() if callable(idom) else idom
        seen=set()
        while b is not None and b not in seen:
            if a==b: return True
            seen.add(b); b=idom[b] if not isinstance(idom,dict) else idom.get(b)
        return False
    def uns(self,f,a): return True
    def offset_of(self,f,a,v):
        """k with a = v + k (same value up to extension and added constants), else None"""
        ka,kv=0,0
        def red(w):
            k=0
            while w[0]=='i':
                x=f.insts[w[1]]
                if x.op in('zext','sext','freeze'): w=x.o[0]; continue
                if x.op=='add' and x.o[1][0]=='c': k+=x.o[1][1]; w=x.o[0]; continue
                if x.op=='sub' and x.o[1][0]=='c': k-=x.o[1][1]; w=x.o[0]; continue
                break
            return w,k
        wa,ka=red(a); wv,kv=red(v)
        if wa==wv and wa[0] in('i','a'): return ka-kv
        if wa[0]=='i' and wv[0]=='i':
            # two loads of the same place without a store in between are not followed
            pass
        return None
    def dead(self,f,b,env):
        """block b cannot be reached with the ranges in env"""
        for c,truth,cb in self.edges(f,b):
            if c[0]!='i': continue
            x=f.insts[c[1]]
            if x.op=='trunc' or x.op!='icmp' or x.p not in('eq','ne'): 
                if x.op!='icmp':
                    r=self.rng(f,c,cb,dict(env))
                    if r is not None and r[0]==r[1] and bool(r[0])!=truth: return True
                continue
            a,o=self.rng(f,x.o[0],cb,dict(env)),self.rng(f,x.o[1],cb,dict(env))
            if a is None or o is None: return True
            eq=(x.p=='eq')==truth
            if eq and (a[1]<o[0] or a[0]>o[1]): return True
            if not eq and a[0]==a[1]==o[0]==o[1]: return True
        return False
    # ------------------------------------------------------------ integers
    def rng(self,f,v,b,env=None,d=0):
        """interval of v when control is in block b; None: unreachable (no value)"""
        env=env if env is not None else {}
        if v[0]=='c': return (v[1],v[1])
        if v[0]=='n': return (0,0)
        r=self.raw(f,v,env,d)
        return self.clip(f,v,r,self.edges(f,b),env) if d<40 else r
    def raw(self,f,v,env,d=0):
        key=(f.name,v)
        if key in env: return env[key]
        if d>40: return (-INF,INF)
        if v[0]=='a':
            if f.name in env.get('ctx',{}): return env['ctx'][f.name].get(v[1],full(self.ptype(f,v[1])))
            return self.param(f,v[1])
        if v[0]=='u': return (0,0)
        if v[0]!='i': return (-INF,INF)
        x=f.insts[v[1]]; R=lambda o: self.rng(f,o,x.blk,env,d+1)
        n=BITS.get(x.t,64); F=full(x.t)
        def fit(r):
            if r is None: return None
            return (min(max(r[0],F[0]),F[1]),max(min(r[1],F[1]),F[0]))     # values that wrap around are not followed
        if x.op=='phi':
            cur=None; key2=key
            for it in range(6):
                env2=dict(env); env2[key2]=cur
                new=None
                for o,p in x.o:
                    q=self.rngedge(f,o,p,x.blk,env2,d+1) if not(o==v) else cur
                    new=join(new,q)
                if new==cur: break
                if cur is not None and it>=2:
                    new=(new[0] if new[0]>=cur[0] else F[0], new[1] if new[1]<=cur[1] else F[1])
                    if it>=4: 
                        cur=new; break
                cur=join(cur,new) if it<2 or True else new
            # one narrowing pass
            if cur is not None:
                env2=dict(env); env2[key2]=cur; new=None
                for o,p in x.o: new=join(new,self.rngedge(f,o,p,x.blk,env2,d+1) if o!=v else None)
                if new is not None: cur=(max(cur[0],new[0]),min(cur[1],new[1]))
            return cur
        if x.op=='select':
            a=self.clip(f,x.o[1],R(x.o[1]),[(x.o[0],True,x.blk)],env); b=self.clip(f,x.o[2],R(x.o[2]),[(x.o[0],False,x.blk)],env)
            return join(a,b)
        if x.op=='zext':
            r=R(x.o[0])
            if r is None: return None
            if r[0]>=0: return r
            t=self.otype(f,x.o[0]); return (0,(1<<BITS.get(t,64))-1) 
        if x.op in('sext','freeze','bitcast'):
            r=R(x.o[0])
            if r is None: return None
            t=self.otype(f,x.o[0]); h=(1<<(BITS.get(t,64)-1))-1
            return r if r[1]<=h else (-h-1,h)
        if x.op=='trunc':
            r=R(x.o[0]); return fit(r)
        if x.op in('add','sub','mul'):
            a,b=R(x.o[0]),R(x.o[1])
            if a is None or b is None: return None
            if x.op=='add': return fit((a[0]+b[0],a[1]+b[1]))
            if x.op=='sub':
                q=self.ptrdiff(f,x,env)
                if q is not None: return q
                return fit((a[0]-b[1],a[1]-b[0]))
            ps=[p*q for p in a for q in b if not(abs(p)==INF and q==0 or abs(q)==INF and p==0)] or [0]
            return fit((min(ps),max(ps)))
        if x.op=='and':
            for k in(1,0):
                if x.o[k][0]=='c' and x.o[k][1]>=0: return (0,x.o[k][1])
            return F
        if x.op in('or','xor'):
            a,b=R(x.o[0]),R(x.o[1])
            if a and b and a[0]>=0 and b[0]>=0 and max(a[1],b[1])<INF:
                return (0,(1<<int(max(a[1],b[1])).bit_length())-1)
            return F
        if x.op in('lshr','ashr','shl') and x.o[1][0]=='c':
            a=R(x.o[0]); k=x.o[1][1]
            if a is None: return None
            if x.op=='shl': return fit((a[0]*(1<<k),a[1]*(1<<k)))
            if a[0]>=0: return (int(a[0])>>k if a[0]<INF else INF,int(a[1])>>k if a[1]<INF else INF)
            if x.op=='lshr': return (0,(1<<n)-1>>k)
            return F
        if x.op in('urem','srem') and x.o[1][0]=='c' and x.o[1][1]>0:
            a=R(x.o[0]); k=x.o[1][1]
            return (0,k-1) if x.op=='urem' or a and a[0]>=0 else (1-k,k-1)
        if x.op in('udiv','sdiv') and x.o[1][0]=='c' and x.o[1][1]>0:
            a=R(x.o[0]); k=x.o[1][1]
            if a and a[0]>=0: return (a[0]//k,a[1]//k if a[1]<INF else INF)
            return F
        if x.op=='icmp': return (0,1)
        if x.op=='call':
            n2=x.cname or ''
            if n2 in('strlen','strnlen','xmlStrlen'):
                base=env.get('base',{}).get(f.name); sz=env.get('size',{}).get(f.name)
                if base is not None and sz is not None:
                    o=self.off(f,x.o[0],base,x.blk,env,8)
                    if o not in(None,'no') and o[0]>=0: return (0,max(0,sz-1-o[0]))     # strings are terminated
                q=self.slen(f,x.o[0]); return q if q is not None else (0,1<<40)
            if n2 in('snprintf','sprintf','vsnprintf'): return (-1,(1<<31)-1)
            if n2 in('read','write','fread','fwrite') and len(x.o)>2:
                s=self.rng(f,x.o[2 if n2 in('read','write') else 2],x.blk,env,d+1)
                if n2=='fread':
                    return (0,s[1]) if s else F
                return (-1,s[1]) if s else F
            if n2.startswith('llvm.smin') or n2.startswith('llvm.umin'):
                a,b=R(x.o[0]),R(x.o[1]); return (min(a[0],b[0]),min(a[1],b[1])) if a and b else None
            if n2.startswith('llvm.smax') or n2.startswith('llvm.umax'):
                a,b=R(x.o[0]),R(x.o[1]); return (max(a[0],b[0]),max(a[1],b[1])) if a and b else None
            ts=self.fl.targets(f,x); out=None
            if not ts or len(ts)>4 or d>12: return F
            for t in ts:
                g=self.m.funcs[t]
                if ('ret',t) in env: return F
                env2={'ctx':{t:{k:self.rng(f,o,x.blk,env,d+1) for k,o in enumerate(x.o) if self.otype(f,o) in BITS}},('ret',t):1}
                for k in list(env2['ctx'][t]):
                    if env2['ctx'][t][k] is None: return None
                for y in g.all():
                    if y.op=='ret' and y.o: out=join(out,self.rng(g,y.o[0],y.blk,env2,d+6))
            return out if out is not None else F
        if x.op=='load':
            c=self.const_table(f,x)
            if c is not None: return c
            return self.field(f,x,F,env)
        return F
    def rngedge(self,f,o,p,b,env,d):
        """value o arriving over edge p->b"""
        r=self.rng(f,o,p,env,d)
        if r is None or o[0]=='c': return r
        t=f.blocks[p][-1]
        if t.op=='br' and t.o and len(t.s)==2 and t.s[0]!=t.s[1]: r=self.clip(f,o,r,[(t.o[0],t.s[0]==b,p)],env)
        return r
    def ptrdiff(self,f,x,env):
        """difference of two pointers into the object under consideration"""
        base=env.get('base',{}).get(f.name)
        if base is None: return None
        r=[]
        for o in x.o:
            if o[0]!='i' or f.insts[o[1]].op!='ptrtoint': return None
            q=self.off(f,f.insts[o[1]].o[0],base,x.blk,env,8)
            if q=='no' or q is None: return None
            r.append(q)
        return (r[0][0]-r[1][1],r[0][1]-r[1][0])
    def field(self,f,x,F,env):
        """range of an integer field: everything that is ever stored in it (fields start as zero)"""
        from flow import addr_key
        k=addr_key(f,x.o[0])
        if not k or k[0]!='f' or x.t not in('i8','i32','i64'): return F
        if str(k[1]).startswith('struct._') or k[1] in self.public_structs(): return F     # set outside of this code
        if k in self.fmemo: return self.fmemo[k]
        if not hasattr(self,'_fst'):
            self._fst={}; self._fbad=set()
            for g in self.m.defined():
                for y in g.all():
                    if y.op!='getelementptr': continue
                    q=addr_key(g,('i',y.i))
                    if not q or q[0]!='f': continue
                    for u in g.uses().get(('i',y.i),()):
                        if u.op=='load': continue
                        if u.op=='store' and u.o[1]==('i',y.i): self._fst.setdefault(q,[]).append((g,u))
                        else: self._fbad.add(q)
        if k in self._fbad: return F
        cur=(0,0)
        for it in range(4):
            self.fmemo[k]=cur; new=cur
            for g,u in self._fst.get(k,()): new=join(new,self.stored(g,u,k))
            if new==cur: break
            cur=new if it<2 else F
        self.fmemo[k]=cur
        return cur
    def stored(self,g,u,k):
        """what a store leaves in the field: a test right behind it may replace the value again"""
        from flow import addr_key
        r=self.rng(g,u.o[0],u.blk,None,10)
        blk=g.blocks[u.blk]; t=blk[-1]; i=blk.index(u)
        if r is None or t.op!='br' or not t.o or t.o[0][0]!='i' or t.s[0]==t.s[1]: return r
        if any(x.op in('call','store') and not(x.cname or '').startswith('llvm.dbg') for x in blk[i+1:]): return r
        x=g.insts[t.o[0][1]]
        if x.op!='icmp' or x.o[1][0]!='c': return r
        a=x.o[0]
        if a[0]=='i' and g.insts[a[1]].op=='load' and g.insts[a[1]].blk==u.blk and blk.index(g.insts[a[1]])>i and addr_key(g,g.insts[a[1]].o[0])==k and strip_ptr(g,g.insts[a[1]].o[0])==strip_ptr(g,u.o[1]): pass
        elif a!=u.o[0]: return r
        for e in(0,1):
            if any(y.op=='store' and addr_key(g,y.o[1])==k and strip_ptr(g,y.o[1])==strip_ptr(g,u.o[1]) for y in g.blocks[t.s[e]]):
                p=x.p if e==1 else NEG[x.p]; n=x.o[1][1]     # condition on the way that keeps the value
                if p=='eq': return (max(r[0],n),min(r[1],n))
                if p=='ne': return (r[0],r[1]-1) if r[1]==n else (r[0]+1,r[1]) if r[0]==n else r
                if p in('slt','ult') and r[0]>=0: return (r[0],min(r[1],n-1))
                if p in('sle','ule') and r[0]>=0: return (r[0],min(r[1],n))
                if p in('sgt','ugt') and r[0]>=0: return (max(r[0],n+1),r[1])
                if p in('sge','uge') and r[0]>=0: return (max(r[0],n),r[1])
        return r
    def public_structs(self):
        if not hasattr(self,'_pst'):
            import os
            t=open(os.path.join(os.environ.get('XMQ_REPO','/repo'),'src/main/c/xmq.h'),errors='replace').read()
            self._pst={'struct.'+n for n in re.findall(r'struct\s+(\w+)\s*\{',t)}
        return self._pst
    def slen(self,f,v,d=0):
        """range of the length of a string, None when unknown"""
        s=self.m.cstr(v)
        if s is not None: return (len(s),len(s))
        if d>8: return None
        if v[0]=='a':
            cs=self.fl.callers.get(f.name,[]); out=None
            if not cs or f.name in self.m.address_taken() or f.name in self.api(): return None
            for y in cs:
                q=self.slen(y.func,y.o[v[1]],d+1) if v[1]<len(y.o) else None
                if q is None: return None
                out=join(out,q)
            return out
        if v[0]!='i': return None
        x=f.insts[v[1]]
        if x.op in('phi','select'):
            out=None
            for o in ([a for a,_ in x.o] if x.op=='phi' else x.o[1:]):
                q=self.slen(f,o,d+1)
                if q is None: return None
                out=join(out,q)
            return out
        if x.op=='getelementptr' and all(o==('c',0) for o in x.o[1:]): return self.slen(f,x.o[0],d+1)
        if x.op=='alloca':
            n=x.asz or tsize(x.at)
            if not n or not str(x.at).startswith('['): return None
            # text written by one kind of bounded snprintf
            hi=n-1; ws=[]
            for a in [('i',x.i)]+[('i',y.i) for y in f.uses().get(('i',x.i),()) if y.op=='getelementptr' and all(o==('c',0) for o in y.o[1:])]:
                for y in f.uses().get(a,()):
                    if y.op=='call' and not(y.cname or '').startswith('llvm.') and y.o and y.o[0]==a and y.cname in('snprintf','sprintf'): ws.append(self.fmtmax(y))
                    elif y.op in('store',) and y.o[1]==a or y.op=='call' and self.fl.targets(f,y) or y.op=='getelementptr' and not all(o==('c',0) for o in y.o[1:]): ws.append(None)
                    elif y.op=='call' and y.cname in('strcpy','strcat','memcpy','read','fgets','fread') : ws.append(None)
            if ws and all(w is not None for w in ws): hi=min(hi,max(ws))
            return (0,hi)
        if x.op=='call':
            out=None; ts=self.fl.targets(f,x)
            for t in ts:
                g=self.m.funcs[t]
                for y in g.all():
                    if y.op=='ret' and y.o:
                        q=self.slen(g,y.o[0],d+1)
                        if q is None: return None
                        out=join(out,q)
            return out
        if x.op=='load':
            a=x.o[0]
            if a[0]=='i' and f.insts[a[1]].op=='getelementptr': a=f.insts[a[1]].o[0]
            g=self.m.globals.get(a[1]) if a[0]=='g' else None
            if g and (g.get('const') or a[1] in self.m.frozen() or self.nostore(a[1])) and 'init' in g:
                out=None
                def walk(w):
                    nonlocal out
                    if isinstance(w,tuple):
                        if len(w)==2 and w[0]=='g':
                            s=self.m.cstr(w)
                            out=join(out,(len(s),len(s)) if s is not None else (0,INF))
                        else:
                            for y in w: walk(y)
                walk(g['init'])
                return out if out and out[1]<INF else None
        return None
    def nostore(self,name):
        if not hasattr(self,'_nst'):
            self._nst=set()
            for f in self.m.defined():
                for x in f.all():
                    if x.op in('store','call'):
                        for k,o in enumerate(x.o):
                            b=strip_ptr(f,o) if isinstance(o,tuple) and o and o[0] in('i','g','ce') else None
                            if b and b[0]=='g' and not(x.op=='call' and o==('g',b[1]) and self.m.cstr(o) is not None): self._nst.add(b[1])
        return name not in self._nst
    def fmtmax(self,y): return None
    def const_table(self,f,x):
        a=x.o[0]
        if a[0]=='i' and f.insts[a[1]].op=='getelementptr' and f.insts[a[1]].o[0][0]=='g': a=f.insts[a[1]].o[0]
        if a[0]!='g': return None
        g=self.m.globals.get(a[1])
        if not g or not(g.get('const') or a[1] in self.m.frozen()): return None
        out=None
        def walk(v):
            nonlocal out
            if isinstance(v,tuple):
                if len(v)==2 and v[0]=='c' and isinstance(v[1],int): out=join(out,(v[1],v[1]))
                elif len(v)==2 and v[0]=='g': pass
                else:
                    for y in v: walk(y)
        if 'init' in g: walk(g['init'])
        return out
    def ptype(self,f,k): 
        p=f.params[k] if k<len(f.params) else None
        return p[0] if p else 'i64'
    def otype(self,f,o):
        if o[0]=='i': return f.insts[o[1]].t
        if o[0]=='a': return self.ptype(f,o[1])
        if o[0]=='c': return 'i64'
        return None
    def param(self,f,k):
        """range over all callers (or the full range of the type when called from outside)"""
        key=(f.name,k)
        if key in self.pmemo: return self.pmemo[key]
        F=full(self.ptype(f,k)); self.pmemo[key]=F
        cs=self.fl.callers.get(f.name,[])
        if not cs or f.name in self.m.address_taken() or f.name in self.api(): return F
        out=None
        for y in cs:
            if k>=len(y.o): return F
            r=self.rng(y.func,y.o[k],y.blk,None,20)
            out=join(out,r)
        if out is not None: self.pmemo[key]=out
        return self.pmemo[key]
    def api(self):
        if not hasattr(self,'_api'): self._api=set(public_api(self.m))
        return self._api
    # ------------------------------------------------------------ pointers
    def off(self,f,v,base,b,env=None,d=0):
        """byte offset interval of pointer v relative to object `base` when in block b; 'no' when v is not derived from it"""
        env=env if env is not None else {}
        if v==base: return (0,0)
        key=('o',f.name,v)
        if key in env: return env[key]
        if v[0]=='a' and (f.name,v[1]) in env.get('pctx',{}): return env['pctx'][(f.name,v[1])]
        if v==('n',) or v[0]=='n' or v[0]=='a' and env.get('ctx',{}).get(f.name,{}).get(v[1])==(0,0): return None   # no pointer at all
        if v[0]!='i' or d>40: return 'no'
        x=f.insts[v[1]]
        if x.op in('bitcast','freeze'): return self.off(f,x.o[0],base,b,env,d+1)
        if x.op=='getelementptr':
            r=self.off(f,x.o[0],base,b,env,d+1)
            if r=='no' or r is None: return r
            k=self.gepoff(f,x,b,env,d)
            if k is None: return (-INF,INF)
            r=(r[0]+k[0],r[1]+k[1])
            return self.pclip(f,v,r,base,b,env,d)
        if x.op=='select':
            a,c=self.off(f,x.o[1],base,b,env,d+1),self.off(f,x.o[2],base,b,env,d+1)
            return 'no' if 'no' in(a,c) else join(a,c)
        if x.op=='phi':
            q=self.inlockstep(f,x,base,b,env,d)
            if q is not None: return q
            cur=None
            for it in range(5):
                env2=dict(env); env2[key]=cur; new=None
                for o,p in x.o:
                    if o==v: continue
                    q=self.off(f,o,base,p,env2,d+1)
                    if q=='no': return 'no'
                    if q is not None: q=self.pclip(f,o,q,base,p,env2,d,edge=x.blk)
                    new=join(new,q)
                if new==cur: break
                if cur is not None and it>=1: new=(new[0] if new[0]>=cur[0] else -INF,new[1] if new[1]<=cur[1] else INF)
                cur=join(cur,new)
            env2=dict(env); env2[key]=cur; new=None
            for o,p in x.o:
                if o==v: continue
                q=self.off(f,o,base,p,env2,d+1)
                if q is not None and q!='no': q=self.pclip(f,o,q,base,p,env2,d,edge=x.blk)
                new=join(new,q)
            if new is not None and cur is not None: cur=(max(cur[0],new[0]),min(cur[1],new[1]))
            return self.pclip(f,v,cur,base,b,env,d) if cur is not None else None
        return 'no'
    def inlockstep(self,f,x,base,b,env,d):
        """pointer that advances together with a counter of the same loop"""
        def step(ph,ptr):
            init=[]; st=set(); latch=[]
            for o,p in ph.o:
                k=None
                if o[0]=='i':
                    y=f.insts[o[1]]
                    if ptr and y.op=='getelementptr' and y.o[0]==('i',ph.i) and (y.g or {}).get('off') is not None and all(q[0]=='c' for q in y.o[1:]): k=y.g['off']
                    if not ptr and y.op=='add' and y.o[0]==('i',ph.i) and y.o[1][0]=='c': k=y.o[1][1]
                if k is None: init.append((o,p))
                else: st.add(k); latch.append(p)
            return (init,st.pop(),latch) if len(init)==1 and len(st)==1 else None
        P=step(x,True)
        if not P: return None
        for y in f.blocks[x.blk]:
            if y.op!='phi': break
            if y is x: continue
            if y.t=='ptr':
                # another pointer that moves at the same pace, with a known end
                J=step(y,True)
                if not J or J[2]!=P[2] or J[1]<=0 or env.get('lock'): continue
                r0=strip_ptr(f,J[0][0][0])
                if r0 is None or r0==base: continue
                e2=dict(env); e2['lock']=1
                o0=self.off(f,P[0][0][0],base,P[0][0][1],env,d+1); j0=self.off(f,J[0][0][0],r0,J[0][0][1],e2,d+1); j=self.off(f,('i',y.i),r0,b,e2,d+1)
                if 'no' in(o0,j0,j) or o0 is None or j0 is None: continue
                if j is None: return None
                if j[1]>=1<<31: continue
                a,e=max(0,j[0]-j0[1])//J[1],(j[1]-j0[0])//J[1]
                r=[a*P[1],e*P[1]]
                return (o0[0]+min(r),o0[1]+max(r))
            if y.t not in BITS: continue
            J=step(y,False)
            if not J or J[2]!=P[2] or J[1]==0: continue
            o0=self.off(f,P[0][0][0],base,P[0][0][1],env,d+1); j0=self.rng(f,J[0][0][0],J[0][0][1],env,d+1); j=self.rng(f,('i',y.i),b,env,d+1)
            if o0 in('no',None) or j0 is None: continue
            if j is None: return None
            if J[1]<0:
                if j0[1]>=full(y.t)[1]//2 or j[0]<0: continue
                a,e=max(0,j0[0]-j[1])//-J[1],max(0,j0[1]-j[0])//-J[1]
            else:
                if j[1]>=full(y.t)[1]//2: continue
                a,e=max(0,j[0]-j0[1])//J[1],(j[1]-j0[0])//J[1]
            r=[a*P[1],e*P[1]]
            return (o0[0]+min(r),o0[1]+max(r))
        return None
    def gepoff(self,f,x,b,env,d):
        g=x.g or {}
        if 'off' in g and all(o[0]=='c' for o in x.o[1:]): return (g['off'],g['off'])
        if len(x.o)==2:
            r=self.rng(f,x.o[1],b,env,d+1)
            es=g.get('es')
            if r is None: return (0,0)
            return (r[0]*es,r[1]*es) if es else None
        if len(x.o)==3 and x.o[1]==('c',0):
            es=tsize(g.get('rt'))
            if es is None and g.get('an') and g.get('es'): es=g['es']//g['an']
            r=self.rng(f,x.o[2],b,env,d+1)
            if es is None: return None
            if r is None: return (0,0)
            return (r[0]*es,r[1]*es)
        return None
    def pclip(self,f,v,r,base,b,env,d,edge=None):
        conds=list(self.edges(f,b))
        if edge is not None:
            t=f.blocks[b][-1]
            if t.op=='br' and t.o and len(t.s)==2 and t.s[0]!=t.s[1]: conds.append((t.o[0],t.s[0]==edge,b))
        for c,truth,cb in conds:
            if c[0]!='i': continue
            x=f.insts[c[1]]
            if x.op!='icmp': continue
            p=x.p if truth else NEG[x.p]
            for a,o,q in((x.o[0],x.o[1],p),(x.o[1],x.o[0],SWAP[p])):
                if a!=v: continue
                w=self.off(f,o,base,cb,dict(env,**{}),d+8) if d<24 else 'no'
                if w=='no' or w is None: continue
                if q in('ult','slt'): r=(r[0],min(r[1],w[1]-1))
                elif q in('ule','sle'): r=(r[0],min(r[1],w[1]))
                elif q in('ugt','sgt'): r=(max(r[0],w[0]+1),r[1])
                elif q in('uge','sge'): r=(max(r[0],w[0]),r[1])
                elif q=='eq': r=(max(r[0],w[0]),min(r[1],w[1]))
                elif q=='ne' and w[0]==w[1]:
                    if r[1]==w[0]: r=(r[0],r[1]-1)
                    if r[1]==INF and r[0]<=w[0]: r=(r[0],w[0]-1)   # counting up to the end
        return r if r[0]<=r[1] else None
