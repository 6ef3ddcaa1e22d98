"""P23: documents do not influence each other: no hidden process-wide state in the library."""
from driver import Check
from util import *
from flow import Flow,addr_key
# process-wide logging configuration, written by the logging setters of the API only
CONFIG={'xmq_verbose_enabled_','xmq_debug_enabled_','xmq_trace_enabled_','xmq_log_line_config_'}
EXTSTATE={'strtok':'hidden static cursor','setlocale':'process locale','srand':'hidden seed','rand':'hidden seed','random':'hidden seed','putenv':'environment','setenv':'environment','unsetenv':'environment','chdir':'working directory','umask':'process umask',
 'localtime':'static result buffer','gmtime':'static result buffer','ctime':'static result buffer','asctime':'static result buffer','tmpnam':'static buffer','signal':'signal handlers','sigaction':'signal handlers','alarm':'process timer','atexit':'exit handlers'}
def run(m):
    c=Check('P23','effect analysis: writes to global and static storage over the whole library, through the address flow of each global',
            'Every non-constant global and function-level static defined by the library is an obligation. No library function may store to it, pass its address to a writing callee, or (for all but the logging flags) let it be changed; '
            'library calls that rely on hidden process-wide state (strtok, rand, setenv, localtime...) are forbidden. Constant data tables that are merely not declared const are accepted because nothing writes them.')
    fl=Flow(m)
    libglobals=[]
    libfuncs=[f for f in m.defined() if is_lib(f)]
    for g in m.globals.values():
        if g.get('ext') or 'init' not in g: continue
        if g.get('const') or g['name'].startswith('.str') or g['name'].startswith('__const') or g['name'].startswith('__PRETTY'): continue
        fi=m.files[g['f']] if 'f' in g else ''
        if fi.endswith('xmq-cli.c') or 'testinternals' in fi: continue
        libglobals.append(g)
    c.need(len(libglobals)>20,'library globals (found %d)'%len(libglobals))
    names={g['name'] for g in libglobals}
    direct={}
    def note(g,x,how): direct.setdefault(g,[]).append((x,how))
    seeds={}
    for f in libfuncs:
        for x in f.all():
            ops=[v for v,_ in x.o] if x.op=='phi' else x.o
            for k,o in enumerate(ops):
                b=strip_ptr(f,o) if o[0] in('g','ce','i') else o
                if b[0]!='g' or b[1] not in names: continue
                g=b[1]
                if x.op=='store' and k==1: note(g,x,'store')
                elif x.op=='store' and k==0: seeds.setdefault(g,[]).append(('cell',addr_key(f,x.o[1])))
                elif x.op=='call':
                    if x.cname in m.funcs and not m.funcs[x.cname].decl:
                        if k<len(m.funcs[x.cname].params): seeds.setdefault(g,[]).append((x.cname,('a',k)))
                    elif k in writes_(x.cname): note(g,x,x.cname)
                elif x.op in('phi','select'): seeds.setdefault(g,[]).append((f.name,('i',x.i)))
                elif x.op=='atomicrmw' or x.op=='cmpxchg': note(g,x,x.op)
    # addresses handed to functions: follow to writes (field cells are not followed: tables of strings)
    for g,ss in seeds.items():
        sd=[s for s in ss if s[0]!='cell']
        if not sd: continue
        fl.taint(sd)
        for x,v,how in fl.write_sites():
            if is_lib(x.func): note(g,x,how)
    for g in libglobals:
        n=g['name']; w=direct.get(n,[])
        if n in CONFIG:
            for x,how in w: c.ob('config:%s:%s'%(n,x.func.name),x.func.name.startswith('xmqSet') ,x.loc(),'logging configuration %s changed outside the configuration setters'%n)
            continue
        c.ob('global:%s'%n,not w,w[0][0].loc() if w else '%s:%s'%(m.files[g['f']].split('/src/main/c/')[-1] if 'f' in g else '?',g.get('l')),
             'process-wide variable %s is written by %s'%(n,sorted({x.func.name for x,_ in w})))
    for f in libfuncs:
        for x in f.calls():
            if x.cname in EXTSTATE: c.ob('call:%s:%s'%(f.name,x.cname),False,x.loc(),'%s uses process-wide state (%s)'%(x.cname,EXTSTATE[x.cname]))
    c.cov.update(globals=len(libglobals),functions=len(libfuncs))
    return c
def writes_(n):
    from flow import writes
    return tuple(writes(n))+((0,) if n in('_setjmp','setjmp','sigsetjmp') else ())
