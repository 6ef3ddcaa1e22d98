"""P30: every tree node is treated as the kind of node it is."""
from driver import Check
from util import *
from flow import Flow,addr_key
from kinds import *
NAMES={1:'element',2:'attribute',3:'text',4:'cdata',5:'entity reference',7:'processing instruction',8:'comment',9:'document',13:'html document',14:'doctype',15:'element declaration',16:'attribute declaration',17:'entity declaration',18:'namespace'}
# which kinds have the fields of struct _xmlNode behind the common part (an entity declaration has its text where a node has it)
FIELD={72:('ns',{1,2,3,4,5,7,8}),80:('content',{1,3,4,5,7,8,17}),88:('properties',{1,3,4,5,7,8}),96:('nsDef',{1,3,4,5,7,8})}
OWN={'struct._xmlAttr':(72,{2}),'struct._xmlDoc':(72,{9,13}),'struct._xmlDtd':(72,{14}),'struct._xmlEntity':(72,{17}),'struct._xmlNs':(0,{18})}
NODE=set(NAMES)-{18}
# library functions that take the argument for a node with links
LINKED={'xmlUnlinkNode':(0,),'xmlReplaceNode':(0,1),'xmlAddChild':(0,1),'xmlAddNextSibling':(0,1),'xmlAddPrevSibling':(0,1),'xmlAddSibling':(0,1),'xmlNodeListGetString':(1,),'xmlNewNsProp':(0,),'xmlNewProp':(0,),'xmlSetNs':(0,),'xmlNewNs':(0,),'xmlNewChild':(0,),'xmlTextMerge':(0,1)}
def run(m):
    c=Check('P30','interprocedural dataflow of the kinds of tree nodes a pointer can refer to',
            'A pointer to a tree node can refer to the kinds that its origin allows (the roots of a document, the children of an element, the results of an XPath query, the parser stack, new nodes), minus those that the tests on the way exclude. A field is only used when every kind that can arrive has that field: namespaces share only the kind with other nodes, documents, attributes, doctypes and declarations have other data where an element has its namespace, text and attributes.')
    fl=Flow(m); scope=lambda f:not is_yaep(f) and (is_lib(f) or f.file.endswith('xmq-cli.c'))
    K=Kinds(m,fl,scope); c.need(len(K.entry)>300,'reached functions (found %d)'%len(K.entry))
    done=set(); n=0; funs=set()
    def judge(f,x,b,ok,what,F):
        nonlocal n
        ks=K.kinds(f,b,F)
        n+=1; funs.add(f.name)
        if ks==EVERY: return c.undecided('%s:%s'%(f.name,what),x.loc(),'nothing is known about where the pointer comes from')
        wrong=sorted({k&31 for k in ks if (k&31) not in ok})
        key='%s:%s:%s'%(f.name,what,'+'.join(NAMES[w] for w in wrong) or 'ok')
        c.ob(key,not wrong,x.loc(),'%s is used of a node that can be: %s'%(what,', '.join(NAMES[w] for w in wrong)))
    def acc(f,x,F):
        if x.op in('load','store'):
            a=x.o[0] if x.op=='load' else x.o[1]; k=addr_key(f,a)
            if k and k[0]=='f': cell(f,x,strip_ptr(f,a),k[1],k[2],F)
        elif x.op=='call':
            if x.cname in K.getter:
                kk,cells=K.getter[x.cname]
                if cells: cell(f,x,x.o[kk],cells[0][0],cells[0][1],F)
            for j in LINKED.get(x.cname,()):
                if j<len(x.o) and x.o[j][0] in('i','a'): judge(f,x,x.o[j],NODE,'%s argument %d'%(x.cname,j+1),F)
    def cell(f,x,b,s,off,F):
        if s=='struct._xmlNode':
            what,ok=FIELD.get(off,('a link or the name',NODE) if off!=8 else ('the kind',set(NAMES)))
            if off!=8: judge(f,x,b,ok,what,F)
        elif s in OWN and off>=OWN[s][0] and off!=8:
            judge(f,x,b,OWN[s][1],'a field of %s'%s[8:],F)
    K.acc=acc
    for t in sorted(K.entry):
        if t not in K.getter: K.analyse(m.funcs[t])
    c.need(n>250,'node accesses (found %d)'%n)
    c.cov.update(functions=len(K.entry),functions_with_nodes=len(funs),accesses=n,cells=len(K.cell),ranged=sorted(K.ranged))
    return c
