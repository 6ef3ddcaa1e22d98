"""P1: every iteration of every loop changes something the loop depends on; recursion in the parsers consumes input."""
import os, sys, multiprocessing
from driver import Check
from util import *
from flow import Flow
from progress import Progress, decide, recursion
G={}
def one(job):
    m,fl,con=G['m'],G['fl'],G['con']
    f=m.funcs[job[0]]
    P=Progress(m,fl); P.contracts=con; P.budget=G['budget']
    P._mod=G['mod']
    try: v,w=decide(P,f,job[1])
    except RecursionError: v,w='open',[]
    if v=='ok': return job,v,'%s after %d calls deep'%(w[1],w[0]) if w[1] is not None else ''
    mask=0
    for r in w: mask|=r[2]
    return job,v,mask if v=='bad' else ''
def chars(mask):
    b=[i for i in range(256) if mask>>i&1]
    if len(b)>250: return ''
    return ' when the next byte is one of: '+' '.join(chr(i) if 33<=i<127 else '0x%02x'%i for i in b[:24])+(' ...' if len(b)>24 else '')
def run(m):
    sys.setrecursionlimit(100000)
    c=Check('P01','abstract interpretation of single loop iterations with a lexicographic progress argument (LLVM IR)',
            'One iteration of every loop is interpreted from its header back to it, with the values of the start as symbols, the byte at the reading position split into its 256 values, '
            'and calls replaced by their exits for these arguments. The iteration must move a value the loop depends on (a position, a counter, a link to a smaller part of the tree, a stream) '
            'in a direction no other iteration takes back (several values are combined lexicographically). A path back to the header on which nothing the loop depends on changes is a violation: '
            'the same iteration then repeats forever. Calls on cycles among the reading functions must have moved the reading position since the caller was entered.')
    fl=Flow(m); P=Progress(m,fl)
    con=P.contracts=P.learn()
    c.need(any(k for n in con for k in con[n]),'no function moves a reading position')
    P.effects('main')
    G.update(m=m,fl=fl,con=con,mod=P._mod,budget=40000 if os.environ.get('VERIF_TIER','quick')=='quick' else 120000)
    alive=called(m,fl)
    jobs=[]; dead=0
    for f in m.defined():
        if is_yaep(f): continue
        if f.name not in alive: dead+=1; continue
        for h in f.loops(): jobs.append((f.name,h))
    c.need(len(jobs)>100,'loops')
    jobs.sort(key=lambda j:-len(m.funcs[j[0]].blocks))
    with multiprocessing.get_context('fork').Pool(8) as pool: res=pool.map(one,jobs,chunksize=1)
    nopen=0; per={}
    for (n,h),v,w in sorted(res):
        f=m.funcs[n]; t=f.term(h)
        i=per[n]=per.get(n,-1)+1
        key='%s:loop%d'%(n,i)
        if v=='open': c.undecided(key,t.loc(),'no value was found that every iteration moves')
        else: c.ob(key,v=='ok',t.loc(),'an iteration of this loop in %s can come back with nothing changed that the loop depends on, so it repeats forever%s'%(n,chars(w) if v=='bad' else ''))
    # recursion of the readers
    only={n for n in con if any(K for (p,o,K) in con[n])}
    rec=recursion(P,only); same={}
    for f,x,g,how in rec:
        if how=='same': same.setdefault(f.name,[]).append((x,g))
    for f,x,g,how in rec:
        key='%s:calls %s'%(f.name,g)
        if how=='open': c.undecided(key,x.loc(),'whether the reading position moved before this call'); continue
        cyc=False
        if how=='same':
            seen=set(); st=[g]
            while st:
                n=st.pop()
                if n==f.name: cyc=True; break
                if n in seen: continue
                seen.add(n); st+=[t for _,t in same.get(n,())]
        c.ob(key,not cyc,x.loc(),'%s reaches itself through this call without having read a character: the recursion never ends'%f.name)
    c.cov.update(loops=len(jobs),functions=len({j[0] for j in jobs}),functions_not_called=dead,contracts=sum(1 for n in con if con[n]),recursive_calls=len(rec),budget=G['budget'])
    return c
def called(m,fl):
    """functions that something alive calls or whose address something alive takes"""
    tg={}
    for f in m.defined():
        t=set()
        for x in f.all():
            if x.op=='call':
                if x.cname: t.add(x.cname)
                else: t|=set(fl.targets(f,x) or ())
            t|=names(x.o,m)
        tg[f.name]=t
    seen=set(); st=['main']+[n for n in public_api(m)]
    while st:
        n=st.pop()
        if n in seen or n not in tg: continue
        seen.add(n); st+=tg[n]
    return seen
def names(o,m):
    r=set()
    if isinstance(o,(list,tuple)):
        if len(o)>1 and o[0] in('f','g') and isinstance(o[1],str) and o[1] in m.funcs: r.add(o[1])
        for u in o: r|=names(u,m)
    return r
