"""P13: every object a function acquires is released, returned, stored or handed over on every way out of the function; P21: and never used afterwards."""
from driver import Check
import own
from util import *
def analyse(m,c,what):
    o=own.Own(m); n=0; kinds={}; fns=set(); rets=0
    for f in m.defined():
        if is_yaep(f): continue
        if not(is_lib(f) or f.file.endswith('xmq-cli.c')): continue
        if f.name=='main': continue      # returning from main ends the process
        cnt={}
        for x,v,slot,kind in own.sites(m,o,f):
            src=x.cname or 'indirect'
            n+=1; kinds[kind]=kinds.get(kind,0)+1; fns.add(f.name)
            r=o.explore(f,x,v,slot,want_uaf=True)
            key='%s:%s%s'%(f.name,src,'' if slot is None else ':out')
            if r.get('limit'): c.undecided(key,x.loc(),'too many states'); continue
            if what=='leak':
                bad=r['leaks']
                c.ob(key,not bad,x.loc(),'%s obtained from %s at %s is neither released, returned nor stored on the way to %s'%(kind,src,x.loc(),', '.join(sorted({b.loc() for b in bad})[:4])))
            else:
                bad=r['uaf']
                c.ob(key,not bad,x.loc(),'%s from %s: released at %s, used again at %s'%((kind,src)+((bad[0][0].loc(),bad[0][1].loc()) if bad else ('',''))))
    c.need(n>200,'acquisition sites (found %d)'%n)
    c.cov.update(acquisition_sites=n,kinds=kinds,functions=len(fns),owning_returns=sorted(o.retown),out_parameters={k:{str(a):b for a,b in v.items()} for k,v in o.outown.items() if v})
    return o
def run(m):
    c=Check('P13','ownership / typestate analysis over CFG paths with interprocedural release-capture summaries',
            'Each call that returns a fresh object (memory, file, document, XPath/schema object, tree node; also through functions of the library that return or hand out fresh objects) is followed along every CFG path (branch correlations on flags and null tests are tracked) until it is released, returned, stored in another object, attached to a tree or handed to a keeper. Reaching a return or longjmp as the only owner is a violation. For each struct field that receives such objects and whose struct has a destructor, the destructor must release the field. A store to such a field must not drop its old content: on every path back from the store the old content was released, moved or known to be null, or the object is new (followed into the callers). A node taken out of a tree is freed or put somewhere on every path.')
    o=analyse(m,c,'leak')
    d=own.destructors(m,o); nf=0
    for k,l,ds,where in own.owned_fields(m,o,d):
        if 'Cli' in k[1]: continue          # dies with the process
        nf+=1; x=l[0][0]
        c.ob('field:%s'%own.fname(m,k),bool(where),x.loc(),'%s keeps %s from %s (stored at %s) but destroying the object (%s) does not release it'%(own.fname(m,k),l[0][1],l[0][2],x.loc(),', '.join(sorted(ds))))
    no=0
    for x,k,why in own.overwrites(m,o):
        no+=1; key='overwrite:%s:%s'%(x.func.name,own.fname(m,k))
        if why and why.startswith('callback') and x.o[0][0]!='n': c.undecided(key,x.loc(),'the order of the parse callbacks decides')
        else: c.ob(key,not why,x.loc(),'%s is overwritten while it may still keep an object that nothing else releases (%s)'%(own.fname(m,k),why))
    c.need(no>60,'stores to owning fields (found %d)'%no); c.cov['owning_field_stores']=no
    nu=0
    for x,r in own.unlinked(m,o):
        nu+=1; c.ob('unlinked:%s'%x.func.name,not r['leaks'],x.loc(),'the node taken out of the tree by %s is neither freed nor put anywhere'%x.cname)
    c.need(nu>=10,'nodes taken out of a tree (found %d)'%nu); c.cov['unlinked_nodes']=nu
    c.need(nf>15,'owning fields (found %d)'%nf); c.cov['owning_fields']=nf
    return c
