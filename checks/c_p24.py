"""P24: a variadic argument list is consumed at most once."""
from driver import Check
from util import *
def unstarted(f,x,b,base):
    """walk backwards: every path must meet va_start/va_copy of the list before its beginning or a va_end"""
    seen=set(); st=[(x.blk,x.pos)]
    while st:
        bi,pos=st.pop()
        done=False
        for y in reversed(f.blocks[bi][:pos]):
            if y.op!='call' or not y.cname or not y.cname.startswith('llvm.va_') or base(f,y.o[0])!=b: continue
            if y.cname.startswith('llvm.va_end'): return 'ended at %s'%y.loc()
            done=True; break
        if done: continue
        if bi==0: return 'a path from the start of the function'
        for p in f.preds[bi]:
            if p not in seen: seen.add(p); st.append((p,len(f.blocks[p])))
    return None
def run(m):
    c=Check('P24','typestate analysis of va_list objects over LLVM IR CFGs',
            'Every call that passes a va_list to a callee which consumes it is a site. From each site all CFG paths are followed: another consuming call on the same va_list object '
            'must not be reachable unless a va_start/va_copy re-initialises it or a va_arg explicitly continues reading it. A local argument list must have been started or copied, and not ended, on every path to its use. Also va_start must be followed by va_end on every path to a return.')
    V={'vprintf','vfprintf','vsprintf','vsnprintf','vdprintf','vsyslog','vasprintf'}
    cons={n:None for n in V}   # name -> index of va_list arg (None = last)
    # internal functions which use a va_list parameter: forwards to a consumer or reads the tag
    def vl_base(f,v): return strip_ptr(f,v)
    ch=True
    while ch:
        ch=False
        for f in m.defined():
            if f.name in cons: continue
            for x in f.all():
                k=None
                if x.op=='call' and x.cname in cons and x.o:
                    i=cons[x.cname]; b=vl_base(f,x.o[-1 if i is None else i])
                    if b[0]=='a': k=b[1]
                elif x.op=='getelementptr' and x.g and x.g.get('ow')=='struct.__va_list_tag':
                    b=vl_base(f,x.o[0])
                    if b[0]=='a': k=b[1]
                if k is not None: cons[f.name]=k; ch=True; break
    n=0
    for f in m.defined():
        sites=[]
        for x in f.calls():
            if x.cname in cons and x.o:
                i=cons[x.cname]; i=len(x.o)-1 if i is None else i
                if i<len(x.o): sites.append((x,vl_base(f,x.o[i])))
        for x,b in sites:
            n+=1
            hit=None; seen=set(); st=[(x.blk,x.pos+1)]
            while st and not hit:
                bi,pos=st.pop()
                if (bi,pos) in seen: continue
                seen.add((bi,pos)); stop=False
                for y in f.blocks[bi][pos:]:
                    if y.op=='call' and y.cname and y.cname.startswith('llvm.va_') and y.o and vl_base(f,y.o[0])==b: stop=True; break
                    if y.op=='getelementptr' and y.g and y.g.get('ow')=='struct.__va_list_tag' and vl_base(f,y.o[0])==b: stop=True; break
                    if y.op=='call' and y.cname in cons and y.o:
                        i=cons[y.cname]; i=len(y.o)-1 if i is None else i
                        if i<len(y.o) and vl_base(f,y.o[i])==b: hit=y; break
                if not stop and not hit:
                    for s in f.succ(bi): st.append((s,0))
            c.ob('%s:%s'%(f.name,x.cname),hit is None,x.loc(),'argument list consumed here is consumed again at %s without re-initialisation'%(hit.loc() if hit else ''))
            # a local argument list has been started (and not ended) on every path to its use
            if b[0]=='i' and f.insts[b[1]].op=='alloca':
                bad=unstarted(f,x,b,vl_base)
                c.ob('%s:%s:started'%(f.name,x.cname),bad is None,x.loc(),'the argument list used here has not been started (%s)'%bad)
        for x in f.all():
            if x.op=='getelementptr' and x.g and x.g.get('ow')=='struct.__va_list_tag':
                b=vl_base(f,x.o[0])
                if b[0]=='i' and f.insts[b[1]].op=='alloca':
                    bad=unstarted(f,x,b,vl_base)
                    c.ob('%s:va_arg:started'%f.name,bad is None,x.loc(),'the argument list read here has not been started (%s)'%bad)
        for x in f.calls():
            if x.cname and x.cname.startswith('llvm.va_copy'):
                b=vl_base(f,x.o[1])
                if b[0]=='i' and f.insts[b[1]].op=='alloca':
                    bad=unstarted(f,x,b,vl_base)
                    c.ob('%s:va_copy:started'%f.name,bad is None,x.loc(),'the argument list copied here has not been started (%s)'%bad)
        starts=[x for x in f.calls() if x.cname and x.cname.startswith(('llvm.va_start','llvm.va_copy'))]
        for x in starts:
            b=vl_base(f,x.o[0]); seen=set(); st=[(x.blk,x.pos+1)]; bad=None
            while st and not bad:
                bi,pos=st.pop()
                if (bi,pos) in seen: continue
                seen.add((bi,pos)); done=False
                for y in f.blocks[bi][pos:]:
                    if y.op=='call' and y.cname and y.cname.startswith('llvm.va_end') and vl_base(f,y.o[0])==b: done=True; break
                    if y.op=='call' and y.noret: done=True; break
                    if y.op=='ret': bad=y; break
                if not done and not bad:
                    for s in f.succ(bi): st.append((s,0))
            c.ob('%s:va_end'%f.name,bad is None,x.loc(),'returns at %s without va_end'%(bad.loc() if bad else ''))
    c.need(n>=8,'va_list consumers (found %d)'%n)
    c.cov['consumer_calls']=n; c.cov['consumers']=sorted(cons)
    return c
