"""P22: a pointer that can be null is tested before it is used."""
from driver import Check
from util import *
from flow import Flow,addr_key
from nullness import *
import nullness
TREE=('_xmlNode','_xmlDoc','_xmlAttr','_xmlNs','_xmlDtd','_xmlEntity')
# the command line options that need not be given, the optional settings and the parse callbacks
OPTIONAL={'XMQCliCommand':{'xpath','content','entity','add_xmq','save_file','xslt','xsd','in','alias','node_content','node_doc','xslt_params','ixml_filename','ixml_ixml','help_command'},
 'XMQParseState':{'implicit_root','source_name','error_info','generated_error_msg','ixml_nonterminal','element_namespace','attribute_namespace','default_namespace','pi_name','add_pre_node_before','add_post_node_after'},
 'XMQOutputSettings':{'prefix_line','postfix_line'},'XMQThemeStrings':{'pre','post'},'xmlXPathObject':{'nodesetval'},'XMQPrintState':{'replay_active_color_pre','last_namespace'},'HashMapNode':{'next_'},'StackElement':{'below'},'IXMLCharset':{'first','last'},'IXMLNonTerminal':{'charset','alias'},'XMQDoc':{'source_name_','error_'}}
PARAMS={'stop','implicit_root','cb','file','file_name'}
VALUE=frozenset({3,4,5,6})
def cells(m):
    r=set()
    for s,d in m.structs.items():
        s0=s.replace('struct.',''); t=s0.lstrip('_')
        for n,ty,off,sz in d['fields']:
            if s0 in TREE:
                # an attribute has a name and an owner, every node kind but documents and cdata sections has a name (node kinds decide)
                if n in NODEF and not(s0=='_xmlAttr' and n in('name','parent')) and not(s0 in('_xmlNode','_xmlDtd','_xmlEntity') and n=='name'): r.add(('f',s,off))
            elif t=='XMQParseCallbacks' and n!='magic_cookie': r.add(('f',s,off))
            elif t=='XMQTheme' and sz==16: r|={('f',s,off),('f',s,off+8)}
            elif n in OPTIONAL.get(t,()): r.add(('f',s,off))
    return r
def run(m):
    c=Check('P22','flow-sensitive nullness dataflow over access paths with interprocedural summaries',
            'Sources of null: results of library functions that report failure or absence with null, links and strings of tree nodes, optional settings, options and callbacks, and own functions that can return null. Every dereference of such a value, every call through it and every hand-over to a function that dereferences the parameter must be reached only with a fact that it is not null (a test on the same value or the same access path, the kind of the node, a caller that tested).')
    fl=Flow(m); fields=cells(m)
    c.need(len(fields)>60,'nullable cells (found %d)'%len(fields))
    scope=lambda f:not is_yaep(f) and (is_lib(f) or f.file.endswith('xmq-cli.c'))
    api=public_api(m)
    optional={n:{k for k,p in enumerate(m.funcs[n].params) if p[0]=='ptr' and p[1] in PARAMS and not n.startswith(('xmqPrint','xmqNew'))} for n in api}
    N=None
    def trusted(f,x):
        if x.cname=='unicode_lookup_category_parts':
            # categories of a charset part were looked up when the part was made (checked below)
            k=addr_key(f,x.o[0]); return bool(k and k[0]=='f' and (k[1].endswith('IXMLCharsetPart')))
        if x.cname=='hashmap_get':
            # a table that is filled and read in the same function
            v=strip(f,x.o[0])
            return v[0]=='i' and f.insts[v[1]].op=='call' and any(y.cname=='hashmap_put' and strip(f,y.o[0])==v for y in f.calls())
        if x.cname=='xmlGetNsList':
            # a namespace that could not be declared on the element is there already
            for y in f.calls():
                if y.cname!='xmlNewNs' or strip(f,y.o[0])!=strip(f,x.o[1]): continue
                for z in f.all():
                    if z.op=='icmp' and z.p in('eq','ne') and any(o==('n',) or o[0]=='n' for o in z.o):
                        if any(refers(f,o,y) for o in z.o) and f.dominates(z.blk,x.blk): return True
        return False
    sib={}
    if 'print_value' in m.funcs: sib[('print_value',1)]=VALUE
    if 'json_print_value' in m.funcs: sib[('json_print_value',1)]=VALUE
    N=Null(m,fl,fields,scope,sib=sib,trusted=trusted,optional=optional)
    uses=0; nf=0
    for f in m.defined():
        if not scope(f): continue
        r=N.analyse(f); nf+=1; uses+=r['uses']
        if r['bad']: r=N.analyse(f,peel=True)
        if r.get('limit'): c.undecided('limit:'+f.name,'the analysis of %s did not converge'%f.name); continue
        seen=set()
        for x,v,w in r['bad']:
            if (x.i,v) in seen: continue
            # the node table is indexed below the node count, which has to be read under a test itself
            if x.op=='load' and w=='dereferenced' and source(m,N,f,v)=='the field nodesetval' and (addr_key(f,x.o[0]) or (0,0,0))[2:]==(8,): continue
            seen.add((x.i,v)); src=source(m,N,f,v)
            c.ob('null:%s:%s:%s:%s'%(f.name,src,w.split()[0],x.cname or x.op),False,x.loc(),'%s: %s can be null and is %s'%(f.name,src,w))
        if not r['bad'] and r['uses']: c.ob('null:%s'%f.name,True,f.file)
    c.need(nf>700,'functions analysed (found %d)'%nf); c.need(uses>150,'uses of nullable values (found %d)'%uses)
    c.cov['functions']=nf; c.cov['nullable_uses']=uses; c.cov['own_functions_returning_null']=len(N.retnull); c.cov['nullable_fields']=len(fields)
    values(m,c,N); charsets(m,c,N); trees(m,c,N)
    return c
def strip(f,v):
    while v[0]=='i' and f.insts[v[1]].op=='bitcast': v=f.insts[v[1]].o[0]
    return v
def refers(f,o,y,d=0):
    if o==('i',y.i): return True
    if o[0]!='i' or d>4: return False
    x=f.insts[o[1]]
    return x.op=='phi' and any(refers(f,p,y,d+1) for p,_ in x.o)
def source(m,N,f,v):
    if v[0]=='n': return 'the null constant'
    if v[0]=='a': return 'the parameter '+f.params[v[1]][1]
    x=f.insts[v[1]]
    if x.op=='call': return 'the result of %s'%(x.cname or 'an indirect call')
    if x.op=='load':
        k=addr_key(f,x.o[0])
        if k and k[0]=='f': return 'the field '+(m.field_at(k[1].replace('struct.',''),k[2]) or '?')
    return 'a value'
def values(m,c,N):
    """a key value node has nothing but text and entities as children: printers of values rely on it"""
    f=m.funcs.get('is_key_value_node')
    if not f: return
    N.analyse(f); N.loopsof={}; n=0
    for h,(body,latches) in f.loops().items():
        for x in f.blocks[h]:
            if x.op!='phi' or x.t!='ptr': continue
            for o,p in x.o:
                if p not in body: continue
                E=N.out.get((p,h))
                if E is None: continue
                E=set(E); N.fn=f.name; N.cur=E; n+=1
                t=N.types(E,('F',('i',x.i)))
                c.ob('value:%s'%f.name,t<=VALUE,x.loc(),'is_key_value_node goes on after children of other kinds than text and entities (libxml2 node types %s)'%sorted(t-VALUE))
    c.need(n,'the loop over the children in is_key_value_node')
def charsets(m,c,N):
    """the only categories that get into a character set are known ones"""
    n=0
    for f in m.defined():
        for x in f.calls():
            if x.cname!='new_ixml_charset_part': continue
            n+=1; v=x.o[3]
            if v[0]=='g': continue
            while v[0]=='i' and f.insts[v[1]].op=='getelementptr': v=f.insts[v[1]].o[0]
            ok=False
            for y in f.calls():
                if y.cname!='unicode_lookup_category_parts' or not f.dominates(y.blk,x.blk): continue
                w=y.o[0]
                while w[0]=='i' and f.insts[w[1]].op=='getelementptr': w=f.insts[w[1]].o[0]
                if w!=v: continue
                for z in f.all():
                    if z.op=='icmp' and any(refers(f,o,y) for o in z.o) and f.dominates(z.blk,x.blk):
                        # the null side must not reach the new part
                        b=f.blocks[z.blk][-1]
                        if b.op=='br' and len(b.s)==2 and any(s!=x.blk and not reaches(f,s,x.blk,{z.blk}) for s in b.s): ok=True
            c.ob('category:%s'%f.name,ok,x.loc(),'a unicode category is put into a charset before it is known to exist')
    c.need(n,'calls of new_ixml_charset_part')
def reaches(f,a,b,stop):
    seen={a}; w=[a]
    while w:
        q=w.pop()
        if q==b: return True
        if any(x.op=='call' and x.noret for x in f.blocks[q]): continue
        for s in f.succ(q):
            if s not in seen and s not in stop: seen.add(s); w.append(s)
    return False
def trees(m,c,N):
    """a document always has a tree: every store of a tree into a document stores a tree"""
    cell=None
    for s in('struct.XMQDoc','struct._XMQDoc'):
        for n,t,off,sz in m.structs.get(s,{'fields':[]})['fields']:
            if n.rstrip('_')=='docptr': cell=('f',s,off)
    if not cell: c.need(0,'the tree of a document'); return
    n=0; done=set(); todo=[]
    def check(f,x,v):
        nonlocal n
        v=N.canon(f,v)
        if v[0]=='a': 
            if (f.name,v[1]) not in done: done.add((f.name,v[1])); todo.append((f.name,v[1]))
            return
        n+=1
        if v[0]=='n': ok=released(m,N,f,x)
        else:
            ok=True; IN=N.analyse(f,pred=True)
            for b,F0 in IN:
                if b!=x.blk: continue
                F=set(F0); k=f.blocks[b].index(x); full=f.blocks[b]
                try:
                    f.blocks[b]=full[:k]; N.block(f,b,F,None)
                finally: f.blocks[b]=full
                N.fn=f.name
                if v[0]=='i' and not(v in F or not maybe(m,N,f,v) or N.nn(f,v,F) and v in F): ok=False
        c.ob('tree:%s'%f.name,ok,x.loc(),'%s leaves a document without a tree'%f.name)
    for f in m.defined():
        for x in f.all():
            if x.op=='store' and x.vt=='ptr' and addr_key(f,x.o[1])==cell: check(f,x,x.o[0])
    while todo:
        g,k=todo.pop()
        for f in m.defined():
            for x in f.calls():
                if x.cname==g: check(f,x,x.o[k])
    c.need(n>=8,'stores of trees (found %d)'%n)
def maybe(m,N,f,v):
    return N.nullable(f,v)
def released(m,N,f,x):
    """the document loses its tree only right before it is released"""
    k=x.pos
    obj=x.o[0] if x.op=='call' else None
    if obj is None: return freed_next(f,x,strip_ptr(f,x.o[1]))
    return freed_next(f,x,obj)
def freed_next(f,x,obj):
    """on every way on, the first call that gets the document releases it"""
    p=objkey(f,obj); L=f.blocks[x.blk]; work=[(x.blk,L.index(x)+1)]; seen=set(); found=False
    while work:
        b,k=work.pop(); go=True
        for y in f.blocks[b][k:]:
            if y.op=='call' and y.cname and any(objkey(f,o)==p for o in y.o):
                if y.cname not in('xmqFreeDoc','free'): return False
                found=True; go=False; break
        if go:
            if f.blocks[b][-1].op=='ret': return False
            for s in f.succ(b):
                if s not in seen: seen.add(s); work.append((s,0))
    return found
def objkey(f,v):
    v=strip(f,v)
    if v[0]=='i' and f.insts[v[1]].op=='load': return ('load',addr_key(f,f.insts[v[1]].o[0]))
    return v
