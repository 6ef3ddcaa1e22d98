"""P31: a character reference denotes the character with its number, wherever it is replaced."""
import html.entities
from driver import Check
from util import *
from flow import Flow
from interval import Interval
NUM={'strtol':2,'strtoll':2,'strtoul':2,'strtoull':2,'atoi':None,'atol':None,'atoll':None}
NAMED={n.rstrip(';'):ord(v) for n,v in html.entities.html5.items() if len(v)==1}
def split(f,v):
    """pointer as (base, constant offset or None)"""
    k=0
    while v[0]=='i':
        x=f.insts[v[1]]
        if x.op=='getelementptr':
            g=x.g or {}
            if len(x.o)==2 and x.o[1][0]=='c': k=None if k is None else k+x.o[1][1]*(g.get('es') or 1)
            elif all(o==('c',0) for o in x.o[1:]): pass
            else: k=None
            v=x.o[0]; continue
        if x.op in('bitcast','freeze'): v=x.o[0]; continue
        break
    return v,k
def addr(f,v):
    """where a reloaded pointer lives, so that two loads of the same place are the same base"""
    if v[0]=='i' and f.insts[v[1]].op=='load':
        b,k=split(f,f.insts[v[1]].o[0]); 
        from flow import addr_key
        return ('load',addr_key(f,f.insts[v[1]].o[0]),b if b[0]!='i' or f.insts[b[1]].op!='load' else addr(f,b))
    return v
def strip(f,v):
    while v[0]=='i' and f.insts[v[1]].op in('zext','sext','trunc','freeze','bitcast'): v=f.insts[v[1]].o[0]
    return v
def prefix(f,b,base,edges):
    """what is known about the characters of base when block b is entered: {offset: (set of values it is, set of values it is not)}"""
    r={}
    def one(c,truth):
        if c[0]=='sw':
            q=charof(c[1])
            if q is not None: r.setdefault(q,(set(),set()))[0].update(c[2])
            return
        if c[0]!='i': return
        x=f.insts[c[1]]
        if x.op=='xor' and x.o[1][0]=='c': return one(x.o[0],not truth)
        if x.op in('and','or') and x.t=='i1' and truth==(x.op=='and'): one(x.o[0],truth); one(x.o[1],truth); return
        if x.op=='trunc' : return one(x.o[0],truth)
        if x.op=='phi' and x.t=='i1':
            ks=[(o,p) for o,p in x.o if not(o[0]=='c' and bool(o[1])!=truth)]
            if len(ks)==1:
                if ks[0][0][0]!='c': one(ks[0][0],truth)
                for c2,t2,_ in edges(f,ks[0][1]): one(c2,t2)
            return
        if x.op in('zext','sext','freeze'): return one(x.o[0],truth)
        if x.op!='icmp' or x.p not in('eq','ne') or x.o[1][0]!='c': return
        w=strip(f,x.o[0])
        if x.o[1]==('c',0) and w[0]=='i' and f.insts[w[1]].t=='i1': return one(w,truth==(x.p=='ne'))
        q=charof(x.o[0])
        if q is not None: r.setdefault(q,(set(),set()))[0 if (x.p=='eq')==truth else 1].add(x.o[1][1])
    def charof(v):
        v=strip(f,v)
        if v[0]!='i' or f.insts[v[1]].op!='load' or f.insts[v[1]].t!='i8': return None
        bb,k=split(f,f.insts[v[1]].o[0])
        return k if k is not None and addr(f,bb)==addr(f,base) else None
    for t in edges(f,b): one(t[0],t[1])
    return r
def run(m):
    c=Check('P31','prefix facts on dominating conditions, def-use tracing of code points, named references against the HTML registry',
            'Every conversion of digits to a number whose text is known to start with # or x must start right behind that character with the base it announces. A number read from a reference reaches the UTF-8 encoder unchanged, is never cut down to a byte unless it is known to be below 128, and as many bytes are used as the encoder produced. Names of references stand for the character the HTML registry gives.')
    fl=Flow(m); iv=Interval(m,fl); st=dict(conversions=0,encodings=0,names=0,decoders=set())
    lib=[f for f in m.defined() if not is_yaep(f)]
    # ---- (a) digits
    for f in lib:
        for x in f.calls():
            if x.cname not in NUM: continue
            base,k=split(f,x.o[0]); si=NUM[x.cname]
            nb=10 if si is None else (x.o[si][1] if x.o[si][0]=='c' else None)
            pf=prefix(f,x.blk,base,iv.edges)
            marks={o for o,(eq,ne) in pf.items() if eq and eq<={35}}       # '#'
            if not marks and not any(eq and eq<={ord('x'),ord('X')} for eq,ne in pf.values()): continue
            st['conversions']+=1; st['decoders'].add(f.name)
            if k is None: c.undecided('digits:'+f.name,x.loc(),'the position of the digits is not a constant'); continue
            xs={o for o,(eq,ne) in pf.items() if eq and eq<={ord('x'),ord('X')}}
            if nb==0: ok=False; why='the base is guessed from the digits'
            elif xs:
                p=max(xs); zero=48 in pf.get(p-1,((),))[0] if p-1 in pf else False
                ok=nb==16 and (k==p+1 or zero and k==p-1); why='the text is known to have x at offset %d, and is read with base %s from offset %d'%(p,nb,k)
            else:
                p=max(marks); ne=pf.get(p+1,(set(),set()))[1]
                ok=nb==10 and k==p+1; why='the text is known to have # at offset %d, and is read with base %s from offset %d'%(p,nb,k)
                if ok and not ne&{ord('x'),ord('X')}:
                    ok=False; why='a reference that may be hexadecimal (x at offset %d was not excluded) is read as a decimal number'%(p+1)
            c.ob('digits:%s'%f.name,ok,x.loc(),'%s: %s'%(f.name,why))
        # a text that is known to start with & is a reference with another offset: create_entity style
    # ---- (a') decimal reading without a test for '#': offset relative to the hexadecimal reading in the same function
    for f in lib:
        xs=[x for x in f.calls() if x.cname in NUM and split(f,x.o[0])[1] is not None]
        for x in xs:
            for y in xs:
                if x is y: continue
                bx,kx=split(f,x.o[0]); by,ky=split(f,y.o[0])
                nx=10 if NUM[x.cname] is None else x.o[2][1] if x.o[2][0]=='c' else None; ny=10 if NUM[y.cname] is None else y.o[2][1] if y.o[2][0]=='c' else None
                if addr(f,bx)!=addr(f,by) or nx!=10 or ny!=16: continue
                pf=prefix(f,y.blk,by,iv.edges); X=[o for o,(eq,ne) in pf.items() if eq and eq<={ord('x'),ord('X')}]
                if not X or not any(eq and 35 in eq for eq,ne in pf.values()): continue
                c.ob('decimal:%s'%f.name,kx==max(X),x.loc(),'%s: decimal digits are read from offset %d, the hexadecimal form has its x at %d'%(f.name,kx,max(X)))
    # ---- decoders: functions returning a number read from text
    def numbers(f):
        return [x for x in f.calls() if x.cname in NUM and (f.name in st['decoders'])]
    ret={}
    def tracks(f,v,seen):
        """(is the value a number read from a reference, the operation that changes it)"""
        if v[0]!='i' or v in seen: return False,None
        seen.add(v); x=f.insts[v[1]]
        if x.op in('zext','sext','freeze','bitcast') : return tracks(f,x.o[0],seen)
        if x.op=='trunc':
            t,w=tracks(f,x.o[0],seen)
            return t,w or (x if t and x.t in('i8','i16') else None)
        if x.op in('phi','select'):
            hit=False; ch=None
            for o in ([o for o,_ in x.o] if x.op=='phi' else x.o[1:]):
                t,w=tracks(f,o,seen); hit|=t; ch=ch or w
            return hit,ch
        if x.op in('add','sub','mul','and','or','xor','shl','lshr','ashr','urem','srem','udiv','sdiv'):
            for o in x.o:
                t,w=tracks(f,o,seen)
                if t: return True,w or x
            return False,None
        if x.op=='call':
            if x.cname in NUM and f.name in st['decoders']: return True,None
            for t in fl.targets(f,x):
                if t in ret: return ret[t]
        return False,None
    for _ in range(3):
        for f in lib:
            if f.rt not in('i32','i64','i16','i8'): continue
            for x in f.all():
                if x.op=='ret' and x.o:
                    t,w=tracks(f,x.o[0],set())
                    if t: ret[f.name]=(True,ret.get(f.name,(0,None))[1] or w)
    st['decoders']|=set(ret)
    unknown0={n for n in ret if any(x.op=='ret' and x.o and can0(m.funcs[n],x.o[0]) for x in m.funcs[n].all())}
    # ---- (b) use of the number
    for f in lib:
        for x in f.all():
            if x.op=='trunc' and x.t in('i8','i16'):
                t,w=tracks(f,x.o[0],set())
                if t:
                    r=iv.rng(f,x.o[0],x.blk); ok=r is None or r[0]>=0 and r[1]<128
                    c.ob('narrowed:%s'%f.name,ok,x.loc(),'%s: the number of a character reference is cut down to %s'%(f.name,x.t))
            if x.op=='call' and x.cname=='encode_utf8':
                st['encodings']+=1
                t,w=tracks(f,x.o[0],set())
                if t: c.ob('unchanged:%s'%f.name,w is None,x.loc(),'%s: the number of a character reference is changed (%s at %s) before it is encoded'%(f.name,w.op if w else '',w.loc() if w else ''))
                if t:
                    v=x.o[0]
                    while v[0]=='i' and f.insts[v[1]].op in('zext','sext','trunc','freeze'): v=f.insts[v[1]].o[0]
                    if v[0]=='i' and f.insts[v[1]].op=='call' and f.insts[v[1]].cname in unknown0:
                        d=f.insts[v[1]]; ok=any(eq=={35} for eq,ne in prefix(f,d.blk,split(f,d.o[0])[0],iv.edges).values()) or any(z.op=='icmp' and z.o[1]==('c',0) and z.o[0][0]=='i' and f.insts[z.o[0][1]].op=='call' and f.insts[z.o[0][1]].cname==d.cname for z in f.all())
                        c.ob('unknown:%s'%f.name,ok,x.loc(),'%s: a reference %s does not know (0) is replaced by the character zero'%(f.name,d.cname))
                length(m,c,iv,f,x)
    # ---- (c) names
    for f in lib:
        if f.rt not in('i32','i64'): continue
        for x in f.calls():
            if x.cname not in('strcmp','xmlStrEqual') : continue
            s=[m.cstr(o) for o in x.o if m.cstr(o) is not None]
            if len(s)!=1: continue
            nm=s[0].decode('latin1')
            if nm not in NAMED: continue
            for u in f.uses().get(('i',x.i),()):
                if u.op!='icmp': continue
                for br in f.uses().get(('i',u.i),()):
                    if br.op!='br': continue
                    eqedge=(u.p=='eq')==(x.cname=='strcmp')
                    val=direct(f,br.blk,br.s[0 if eqedge else 1])
                    if val is None: continue
                    st['names']+=1
                    c.ob('name:%s:%s'%(f.name,nm),val==NAMED[nm],x.loc(),'%s: &%s; is taken for U+%04X instead of U+%04X'%(f.name,nm,val&0xffffff,NAMED[nm]))
    c.need(st['conversions']>=3,'conversions of the digits of a reference (found %d)'%st['conversions']); c.need(st['encodings']>=5,'calls of encode_utf8'); c.need(st['names']>=4,'named references (found %d)'%st['names'])
    st['decoders']=sorted(st['decoders']); c.cov.update(st)
    return c
def can0(f,v,d=0):
    if v==('c',0): return True
    if v[0]!='i' or d>6 or f.insts[v[1]].op not in('phi','select'): return False
    x=f.insts[v[1]]
    return any(can0(f,o,d+1) for o in ([o for o,_ in x.o] if x.op=='phi' else x.o[1:]))
def direct(f,pred,b):
    """constant returned when control goes from pred to b, and on to ret"""
    for _ in range(6):
        L=f.blocks[b]
        if any(x.op in('call','store') and not(x.cname or '').startswith('llvm.') for x in L): return None
        t=L[-1]
        if t.op=='ret':
            v=t.o[0] if t.o else None
            while v and v[0]=='i' and f.insts[v[1]].op in('phi','sext','zext','trunc'):
                x=f.insts[v[1]]
                if x.op=='phi':
                    if x.blk!=b: return None
                    v=[o for o,p in x.o if p==pred]; v=v[0] if v else None
                else: v=x.o[0]
            return v[1] if v and v[0]=='c' else None
        ss=f.succ(b)
        if len(ss)!=1: return None
        # value may be collected in a phi further down
        pred,b=b,ss[0]
    return None
def flat(f,E,d=0):
    for cd,truth,b in E:
        yield cd,truth,b
        if cd[0]!='i' or d>4: continue
        x=f.insts[cd[1]]
        if x.op in('trunc','zext','freeze'): yield from flat(f,[(x.o[0],truth,b)],d+1)
        elif x.op=='xor' and x.o[1][0]=='c': yield from flat(f,[(x.o[0],not truth,b)],d+1)
        elif x.op in('and','or') and x.t=='i1' and truth==(x.op=='and'): yield from flat(f,[(x.o[0],truth,b),(x.o[1],truth,b)],d+1)
        elif x.op=='phi' and x.t=='i1':
            ks=[(o,p) for o,p in x.o if not(o[0]=='c' and bool(o[1])!=truth)]
            if len(ks)==1:
                yield from flat(f,[(ks[0][0],truth,b)],d+1)
                t=[q for q in (f.blocks[ks[0][1]][-1],)][0]
                for p2 in set(f.preds[ks[0][1]]):
                    t=f.blocks[p2][-1]
                    if t.op=='br' and t.o and len(t.s)==2 and len(set(f.preds[ks[0][1]]))==1: yield from flat(f,[(t.o[0],t.s[0]==ks[0][1],b)],d+1)
def length(m,c,iv,f,x):
    """as many bytes are used as the encoder says"""
    base=strip_ptr(f,x.o[1])
    if base[0]!='i' or f.insts[base[1]].op!='alloca': return
    n=('i',x.i)
    for y in f.all():
        if y.op=='call' and (y.cname or '').split('.')[0:2]==['llvm','memcpy'] or y.op=='call' and y.cname in('memcpy','memmove'):
            if strip_ptr(f,y.o[1])==base and f.dominates(x.blk,y.blk):
                ok=strip(f,y.o[2])==n or y.o[2][0]=='c' and y.o[2][1]>=5
                c.ob('length:%s'%f.name,ok,y.loc(),'%s: a number of bytes other than the encoder reported is copied'%f.name)
        if y.op=='load' and y.t=='i8' and y.o[0][0]=='i' and f.insts[y.o[0][1]].op=='getelementptr' and strip_ptr(f,y.o[0])==base and f.dominates(x.blk,y.blk):
            g=f.insts[y.o[0][1]]
            if g.o[-1][0]=='c': continue
            ix=strip(f,g.o[-1]); ok=False; known=False
            for cd,truth,b in flat(f,iv.edges(f,y.blk)):
                if cd[0]!='i' or f.insts[cd[1]].op!='icmp': continue
                z=f.insts[cd[1]]
                for a,o,p in((z.o[0],z.o[1],z.p),(z.o[1],z.o[0],{'ult':'ugt','slt':'sgt','ugt':'ult','sgt':'slt','ule':'uge','uge':'ule','sle':'sge','sge':'sle'}.get(z.p,z.p))):
                    if strip(f,a)!=ix: continue
                    known=True
                    if strip(f,o)==n and (truth and p in('ult','slt','ne') or not truth and p in('uge','sge','eq')): ok=True
            if known: c.ob('length:%s'%f.name,ok,y.loc(),'%s: a number of bytes other than the encoder reported is copied'%f.name)
