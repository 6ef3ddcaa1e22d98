"""P14: untrusted XML/HTML cannot make the parser touch the network, expand external entities or lift libxml2's limits."""
from driver import Check
from util import *
FORBID={0x2:'entity substitution (NOENT)',0x4:'external DTD loading (DTDLOAD)',0x8:'DTD default attributes (DTDATTR)',0x10:'DTD validation (DTDVALID)',0x400:'XInclude processing',0x80000:'parser limits lifted (HUGE)',0x1000000:'NO_XXE off'}
FORBID_X={k:v for k,v in FORBID.items() if k!=0x1000000}
NONET=0x800
READ={'xmlReadMemory':4,'xmlReadDoc':3,'xmlReadFd':3,'xmlReadFile':2,'xmlReadIO':5,'xmlCtxtReadMemory':5,'xmlCtxtReadDoc':4,'xmlCtxtReadFile':3,'xmlCtxtUseOptions':1,
      'htmlReadMemory':4,'htmlReadDoc':3,'htmlReadFile':2,'htmlCtxtReadMemory':5,'htmlCtxtUseOptions':1,'xmlParseInNodeContext':3}
HTML={k for k in READ if k.startswith('html')}
BANNED={'xmlParseFile','xmlParseMemory','xmlParseDoc','xmlRecoverFile','xmlRecoverMemory','xmlRecoverDoc','xmlSubstituteEntitiesDefault','xmlLoadExternalEntity','xmlXIncludeProcess','xmlXIncludeProcessFlags','xmlSetExternalEntityLoader',
        'xmlParseDTD','xmlIOParseDTD','xmlSAXParseFile','xmlSAXParseMemory','xmlParseEntity','xmlSAXParseDTD','htmlParseFile','htmlParseDoc','xmlCreateFileParserCtxt','xmlCreateURLParserCtxt','xmlNanoHTTPFetch','xmlNewInputFromFile','xmlKeepBlanksDefault_'}
def run(m):
    c=Check('P14','constant propagation of libxml2 parse options + call-graph effect lint',
            'Every libxml2/libxslt entry point that parses text is enumerated. The options operand of each must be a set of constants known statically (through phi/select/or), each with NONET and none with NOENT/DTDLOAD/DTDATTR/DTDVALID/XINCLUDE/HUGE; '
            'entry points and globals that enable external loading by default are forbidden; the default document loader installed for stylesheets must not reach libxml2\'s URL loading.')
    n=0
    for f in m.defined():
        for x in f.calls():
            if x.cname in READ:
                n+=1
                v=x.o[READ[x.cname]]; s=possible_consts(f,v)
                if s is None: c.ob('%s:%s:unknown'%(f.name,x.cname),False,x.loc(),'parse options are not statically known'); continue
                for k in sorted(s):
                    bad=[w for b,w in FORBID_X.items() if k&b and not (x.cname in HTML and b in(0x4,0x2,0x8,0x10))]
                    if not k&NONET: bad.append('network access allowed (NONET missing)')
                    c.ob('%s:%s:%#x'%(f.name,x.cname,k),not bad,x.loc(),'options %#x: %s'%(k,', '.join(bad)))
            elif x.cname in BANNED:
                c.ob('%s:%s'%(f.name,x.cname),False,x.loc(),'%s can load external resources'%x.cname)
        for x in f.all():
            if x.op=='store':
                b=strip_ptr(f,x.o[1])
                if b[0]=='g' and b[1] in('xmlLoadExtDtdDefaultValue','xmlSubstituteEntitiesDefaultValue','xmlDoValidityCheckingDefaultValue'):
                    c.ob('%s:%s'%(f.name,b[1]),possible_consts(f,x.o[0])=={0},x.loc(),'default loading switched on')
                if x.op=='store' and b[0]=='i' and f.insts[b[1]].op=='call' and (f.insts[b[1]].cname or '').startswith('__xml') and f.insts[b[1]].cname in('__xmlLoadExtDtdDefaultValue','__xmlSubstituteEntitiesDefaultValue','__xmlDoValidityCheckingDefaultValue'):
                    c.ob('%s:%s'%(f.name,f.insts[b[1]].cname),possible_consts(f,x.o[0])=={0},x.loc(),'default loading switched on')
        for x in f.calls('xmlParseChunk'): n+=1; c.ob('%s:xmlParseChunk'%f.name,True,x.loc())
        # push parsers start with library defaults; options may only be changed through the calls above or direct field writes
        for x in f.all():
            if x.op=='store' and x.o[1][0]=='i':
                g=f.insts[x.o[1][1]]
                if g.op=='getelementptr' and g.g and g.g.get('ow')=='struct._xmlParserCtxt':
                    names=[p for p in (g.g.get('path') or [])]
                    if any(str(p).split('.')[-1] in('replaceEntities','loadsubset','validate','options') for p in names):
                        c.ob('%s:ctxt'%f.name,possible_consts(f,x.o[0])=={0},x.loc(),'parser context option written directly')
    for f in m.defined():
        if f.name=='xmqDocDefaultLoaderFunc':
            r=m.reach([f.name])
            c.ob('loader',not (r&{'xsltDocDefaultLoader','xmlReadFile','xmlLoadExternalEntity'}),'%s:%d'%(f.file,f.line),'stylesheet document loader reaches URL loading')
    sets=[x for f in m.defined() for x in f.calls('xsltSetLoaderFunc')]
    app=[x for f in m.defined() for x in f.calls('xsltApplyStylesheet')]
    c.need(n>=3,'libxml2 parse entry points (found %d)'%n)
    c.need(app,'xsltApplyStylesheet call')
    for x in app:
        ok=any(x.func.idominst(s,x) for s in x.func.calls('xsltSetLoaderFunc')) or any(True for s in sets if s.func.name!=x.func.name and dominated_call(m,s,x))
        c.ob('%s:loader-installed'%x.func.name,ok,x.loc(),'stylesheet applied without installing the restricted document loader')
    c.cov['parse_entry_points']=n
    return c
def dominated_call(m,s,x):
    """s's function is called on every path before x (direct call dominating)"""
    for y in x.func.calls(s.func.name):
        if x.func.idominst(y,x): return True
    # or s is in a function whose only caller chain leads to x's function after it (e.g. main sets, then dispatch)
    for f in m.defined():
        cs=[y for y in f.calls(s.func.name)] if s.func.name!=f.name else [s]
        for y in cs:
            for z in f.calls():
                if z.cname and x.func.name in m.reach([z.cname]) and f.idominst(y,z): return True
    return False
