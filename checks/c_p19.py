"""P19: fixed size buffers and tables are never accessed outside of their bounds."""
import re
from driver import Check
from util import *
from flow import Flow
from interval import Interval, tsize, INF, join
# external functions: (index of buffer, index of size or tuple of factors) ; reads or writes at most that many bytes
SIZED={'snprintf':(0,1),'vsnprintf':(0,1),'fgets':(0,1),'read':(1,2),'write':(1,2),'fread':(0,(1,2)),'fwrite':(0,(1,2)),'memset':(0,2),'memcpy':(0,2),'memmove':(0,2),'strncpy':(0,2),'memcmp':(0,2),'readlink':(1,2),'getcwd':(0,1),'strftime':(0,1),'recv':(1,2),'gethostname':(0,1)}
SIZED2={'memcpy':(1,2),'memmove':(1,2),'memcmp':(1,2)}
DIRW={'d':11,'i':11,'u':10,'x':8,'X':8,'o':11,'c':1}
def fmtmax(m,x,k,iv=None):
    """largest number of characters a literal format produces, None when it depends on strings"""
    b=m.cstr(x.o[k]) if k<len(x.o) else None
    if b is None: return None
    n=0; i=0; j=k+1
    for mo in re.finditer(rb'%([-+ #0]*)(\d+|\*|)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|q|L)?([a-zA-Z%])|.',b,re.S):
        c=mo.group(5)
        if c is None: n+=1; continue
        c=c.decode()
        if c=='%': n+=1; continue
        if b'*' in(mo.group(2),mo.group(3)): return None      # width given by an argument
        w=int(mo.group(2) or 0)
        if c in DIRW:
            ln=(mo.group(4) or b'').decode(); k2=DIRW[c]
            if c!='c' and ln in('l','ll','z','j','t','q'): k2={'d':20,'i':20,'u':20,'x':16,'X':16,'o':22}[c]
            if b'#' in mo.group(1): k2+=2
            if mo.group(1) and set(mo.group(1))&set(b'+ '): k2+=1
            n+=max(w,k2,int(mo.group(3) or 0))
        elif c=='s':
            s=m.cstr(x.o[j]) if j<len(x.o) else None
            if s is not None: n+=max(w,len(s))
            elif mo.group(3): n+=max(w,int(mo.group(3)))
            elif iv is not None and j<len(x.o) and iv.slen(x.func,x.o[j]) is not None: n+=max(w,iv.slen(x.func,x.o[j])[1])
            else: return None
        elif c=='p': n+=18
        else: return None
        j+=1
    return n
class IV(Interval):
    def fmtmax(self,y): return fmtmax(self.m,y,2 if y.cname=='snprintf' else 1,self)
    def raw(self,f,v,env,d=0):
        if v[0]=='i' and f.insts[v[1]].op=='call' and f.insts[v[1]].cname in('snprintf','sprintf'):
            x=f.insts[v[1]]; n=self.fmtmax(x)
            if n is not None: return (0,n)
        return super().raw(f,v,env,d)
def run(m):
    c=Check('P19','interval analysis of indexes, pointer offsets and sizes against the size of every fixed size array',
            'Every array of fixed size (local buffers, arrays in structs, global tables) is an object. All pointers derived from it, also in the functions it is passed to, are followed; each load, store and each library call that reads or writes a given number of bytes must stay inside the object for every value the index, offset or size can have at that point (conditions that dominate the point, loop bounds, masks and remainders are taken into account).')
    fl=Flow(m); iv=IV(m,fl); st=dict(objects=0,accesses=0,calls=0,escapes=0)
    at=m.address_taken()
    def access(f,x,lo,hi,n,size,what,name):
        st['accesses']+=1
        ok=lo>=0 and hi+n<=size
        c.ob('%s:%s:%s'%(f.name,name,what),ok,x.loc(),'%s of %s (%d bytes) in %s can reach offset %s..%s'%(what,name,size,f.name,lo,hi+n-1))
    def walk(f,base,size,name,env,depth,done):
        """all accesses through pointers derived from base (a value of f)"""
        work=[base]; seen={base}
        while work:
            v=work.pop()
            for x in f.uses().get(v,()):
                if x.op in('getelementptr','bitcast','phi','select','freeze'):
                    if x.op=='select' and v==x.o[0]: continue
                    if ('i',x.i) not in seen and not(x.op=='getelementptr' and v!=x.o[0]): seen.add(('i',x.i)); work.append(('i',x.i))
                    continue
                if x.op in('load','store','call') and env and iv.dead(f,x.blk,env): continue
                if x.op in('load','store'):
                    if x.op=='store' and x.o[0]==v:
                        if x.o[1]!=v: st['escapes']+=1; c.undecided('%s:%s'%(f.name,name),x.loc(),'pointer to %s is stored'%name)
                        if x.o[1]!=v: continue
                    o=iv.off(f,v,base,x.blk,dict(env))
                    n=tsize(x.t if x.op=='load' else x.vt)
                    if o is None or n is None: continue
                    if o=='no':
                        c.undecided('%s:%s'%(f.name,name),x.loc(),'pointer to several objects'); continue
                    if x.op=='load' and n==1 and o[1]==INF and o[0]>=0: c.undecided('%s:%s'%(f.name,name),x.loc(),'read up to the terminating zero'); continue
                    access(f,x,o[0],o[1],n,size,x.op,name)
                elif x.op=='call':
                    for k,q in enumerate(x.o):
                        if q!=v: continue
                        st['calls']+=1
                        o=iv.off(f,v,base,x.blk,dict(env))
                        if o is None: continue
                        if o=='no': c.undecided('%s:%s'%(f.name,name),x.loc(),'pointer to several objects'); continue
                        call(f,x,k,o,size,name,env,depth,done,base)
                elif x.op=='ret': st['escapes']+=1; c.undecided('%s:%s'%(f.name,name),x.loc(),'pointer to %s is returned'%name)
    def call(f,x,k,o,size,name,env,depth,done,base):
        n=x.cname
        if n and n.startswith('llvm.mem'): n=n.split('.')[1]
        if n and n.startswith('llvm.'): return
        ts=fl.targets(f,x)
        if ts:
            for t in ts:
                g=m.funcs[t]
                if k>=len(g.params) or depth>5: continue
                ctx={j:iv.rng(f,a,x.blk,dict(env)) for j,a in enumerate(x.o) if iv.otype(f,a) in('i1','i8','i32','i64') or a[0]=='n'}
                if any(r is None for r in ctx.values()): continue
                rest=size-(o[1] if o[1]<INF else 0)
                key=(t,k,rest,tuple(sorted(ctx.items())))
                if key in done: continue
                done.add(key)
                ctx[k]=(1,INF); e2={'ctx':{t:ctx},'base':{t:('a',k)},'size':{t:rest}}
                if o[0]==o[1]:
                    pc={}
                    for j,a in enumerate(x.o):
                        q=iv.off(f,a,base,x.blk,dict(env)) if j!=k else None
                        if q not in(None,'no'): pc[(t,j)]=(q[0]-o[0],q[1]-o[0])
                    e2['pctx']=pc
                walk(g,('a',k),rest if o[0]>=0 and o[1]<INF else 0,name,e2,depth+1,done)
            return
        for T in(SIZED,SIZED2):
            if n in T and T[n][0]==k:
                si=T[n][1]; hi=1
                for j in(si if isinstance(si,tuple) else(si,)):
                    r=iv.rng(f,x.o[j],x.blk,dict(env))
                    if r is None: return
                    hi*=r[1] if r[0]>=0 else INF
                if n in('snprintf','strftime') and n=='snprintf':
                    w=iv.fmtmax(x)
                    if w is not None: hi=min(hi,w+1)
                access(f,x,o[0],o[1],hi,size,n,name)
        if n=='sprintf' and k==0:
            w=iv.fmtmax(x)
            if w is None: w=INF
            access(f,x,o[0],o[1],w+1,size,n,name)
        if n in('strcpy','strcat','gets','stpcpy') and k==0:
            s=iv.slen(f,x.o[1]) if n in('strcpy','stpcpy') else None
            access(f,x,o[0],o[1],s[1]+1 if s is not None else INF,size,n,name)
    for f in m.defined():
        for x in f.all():
            if x.op=='alloca' and '[' in str(x.at) and 'va_list' not in str(x.at):
                size=x.asz or tsize(x.at)
                if not size: continue
                st['objects']+=1; walk(f,('i',x.i),size,x.n or 'buffer',{'base':{f.name:('i',x.i)}},0,set())
            elif x.op=='getelementptr':
                g=x.g or {}
                if str(g.get('rt','')).startswith('[') and str(g.get('ow','')).startswith('struct.') and tsize(g['rt']):
                    st['objects']+=1; walk(f,('i',x.i),tsize(g['rt']),'%s.%s'%(g['ow'][7:],'.'.join(map(str,g.get('p',[])))),{},0,set())
    for n,g in sorted(m.globals.items()):
        t=str(g.get('t',''))
        size=g.get('sz') or tsize(t)
        if not t.startswith('[') or not size or m.cstr(('g',n)) is not None: continue
        used=False
        for f in m.defined():
            if f.uses().get(('g',n)): used=True; walk(f,('g',n),size,n,{},0,set())
        st['objects']+=used
    c.need(st['objects']>20 and st['accesses']>60,'fixed size arrays')
    c.cov.update(st)
    return c
