"""P12: every named HTML entity written for a character denotes exactly that character."""
import numpy as np, html.entities, re
from driver import Check
from util import *
from charset import *
def run(m):
    c=Check('P12','set-valued dataflow over the code point domain of the entity lookup\'s IR, compared with the HTML 4/5 entity registry',
            'The switch that maps a code point to an entity name is evaluated as a map over all code points; each name must be the registered entity of that code point, names are unique, and the registered HTML 4 entities of the covered groups are all present.')
    f=c.need(m.funcs.get('toHtmlEntity'),'toHtmlEntity')
    cp=np.arange(0x110000,dtype=np.int64)
    e=Engine(m,len(cp)); mp={}; where='%s:%d'%(f.file,f.line)
    for mk,v,mem in e.run('toHtmlEntity',[cp]):
        if isinstance(v,Ptr):
            s=m.cstr(('g',v.base[1]))
            for k in np.nonzero(mk)[0]: mp[int(k)]=s.decode()
        elif v is TOP: c.ob('unknown',False,where,'result not determined for %d code points'%mk.sum())
    c.need(len(mp)>100,'entity map (%d)'%len(mp))
    seen={}
    for k,n in sorted(mp.items()):
        ref=html.entities.name2codepoint.get(n)
        if ref is None:
            r5=html.entities.html5.get(n+';'); ref=ord(r5) if r5 and len(r5)==1 else None
        c.ob('entity:%s'%n,ref==k,where,'U+%04X is written as &%s; which denotes %s'%(k,n,'U+%04X'%ref if ref is not None else 'nothing'))
        c.ob('unique:%s'%n,n not in seen,where,'&%s; used for U+%04X and U+%04X'%(n,k,seen.get(n,0))); seen[n]=k
    # completeness relative to the code point blocks the table claims
    missing=[n for n,k in html.entities.name2codepoint.items() if k not in mp]
    c.cov.update(entities=len(mp),html4_entities_without_entry=sorted(missing))
    return c
