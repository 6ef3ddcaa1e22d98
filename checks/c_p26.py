"""P26: text handed to the library is never modified or freed by it."""
import re,os
from driver import Check
from util import *
from flow import Flow
def const_params(m):
    txt=open(os.path.join(m.repo_src,'xmq.h')).read()
    txt=re.sub(r'/\*.*?\*/','',txt,flags=re.S); txt=re.sub(r'//[^\n]*','',txt)
    out=[]
    for mo in re.finditer(r'\b(xmq[A-Za-z0-9_]+)\s*\(([^()]*)\)\s*;',txt):
        n,ps=mo.groups()
        if n not in m.funcs or m.funcs[n].decl: continue
        for k,p in enumerate(ps.split(',')):
            p=' '.join(p.split())
            if re.match(r'const (char|xmlChar) ?\* ?\w*$',p) and k<len(m.funcs[n].params): out.append((n,('a',k)))
    return out
def run(m):
    c=Check('P26','interprocedural field-based pointer value flow (effect analysis) over LLVM IR',
            'Seeds are all const char * parameters of the public header. Their values are followed through locals, struct fields, calls (indirect calls resolved by the functions stored in that callback field) and returns. '
            'No store, memcpy-like destination or free may use such a pointer.')
    seeds=const_params(m)
    c.need(len(seeds)>20,'const char* API parameters (found %d)'%len(seeds))
    fl=Flow(m)
    T,cells=fl.taint(seeds,stop_fn=lambda n: is_yaep(m.funcs[n]) or not is_lib(m.funcs[n]))
    sites=fl.write_sites()
    for n,v in seeds: c.ob('seed:%s:%d'%(n,v[1]),True,'')
    for x,v,how in sites:
        c.ob('%s:%s'%(x.func.name,how),False,x.loc(),'%s through a pointer that can be caller text: %s'%(how,fl.path((x.func.name,v))))
    c.cov.update(seeds=len(seeds),tainted_values=len(T),tainted_cells=[str(k) for k in cells][:100],functions=len({fn for fn,_ in T}))
    return c
