"""P21: nothing is used or released again after it was released."""
from driver import Check
import own
from c_p13 import analyse
def run(m):
    c=Check('P21','ownership / typestate analysis over CFG paths with interprocedural release summaries',
            'Each object acquired by a call is followed along every CFG path; after a call that certainly releases it, no value that still refers to it may be dereferenced, passed on or released again. An object released through a struct field must not be read from that field again, neither in the function, nor in its callers, nor by a later API call, before the field is overwritten. A tree node is only freed when it is new or was taken out of its tree on every path.')
    o=analyse(m,c,'uaf'); n=0
    for x,k,bad in own.dangling(m,o):
        n+=1
        c.ob('field:%s:%s:%s'%(x.func.name,own.fname(m,k),x.cname or 'indirect'),not bad,x.loc(),'%s is released at %s but still referred to: %s'%(own.fname(m,k),x.loc(),', '.join('%s at %s'%({'used':'used','left':'left dangling for the next API call'}[a],b.loc()) for a,b in bad[:3])))
    nv=0
    for x,v,bad in own.used_after(m,o):
        nv+=1
        c.ob('value:%s:%s'%(x.func.name,x.cname or 'indirect'),not bad,x.loc(),'released at %s but then %s'%(x.loc(),', '.join('%s at %s'%(a,b.loc()) for a,b in bad[:3])))
    nt=0
    for x,why in own.freed_in_tree(m,o):
        nt+=1; c.ob('tree:%s'%x.func.name,not why,x.loc(),'the node is freed without having been taken out of its tree (%s): its parent and neighbours still refer to it'%why)
    c.need(nt>=8,'freed nodes (found %d)'%nt); c.cov['freed_nodes']=nt
    c.need(nv>200,'releases of values (found %d)'%nv); c.cov['released_values']=nv
    c.need(n>50,'releases of fields (found %d)'%n); c.cov['released_fields']=n
    return c
