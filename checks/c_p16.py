"""P16: the exit status tells whether every command succeeded."""
import re
from driver import Check
from util import *
from flow import Flow,addr_key
from errwalk import ErrWalk
# library functions that report failure with null
NULLFAIL={'fopen','xmlXPathNewContext','xmlXPathEvalExpression','xsltApplyStylesheet','xsltParseStylesheetDoc','xmlSchemaParse','xmlReadMemory','xmlReadFile','htmlReadMemory'}
# library functions that report failure with a value other than zero; output calls that report how much was written
NZFAIL={'xmlSchemaValidateDoc','fclose','fflush'}
WRITTEN={'fwrite'}; EXAMINED={'write'}
WARN=re.compile(rb'warning',re.I); ERR=re.compile(rb'^(xmq: (?!%s$)|No such|You have already|For ixml you can|Invalid|Could not|Cannot)')
# best effort only: the interactive pager, asking the terminal for its colours, debug dumps
LOCAL_NOISE={'query_xterm_bgcolor','page','print_until_newline'}
class Walk(ErrWalk):
    def __init__(self,c,m,fl,scope):
        self.c=c; self.scope=scope; self.stderr={}; self.ptrfail=set()
        super().__init__(m,fl,{'cli':('struct.none',0)},LIMIT=150000)
        self.log=None
    def message(self,f,y):
        """an error message: text of it, or None"""
        t=None
        if y.cname in('fprintf','fputs','fwrite','vfprintf','fputc'):
            s=y.o[0] if y.cname in('fprintf','vfprintf') else y.o[-1]
            if not self.to_stderr(f,s): return None
            t=self.m.cstr(y.o[1] if y.cname in('fprintf','vfprintf') else y.o[0]) or b'?'
        elif y.cname in('printf','puts'):
            t=self.m.cstr(y.o[0])
            if t is None or not ERR.match(t): return None
        elif y.cname=='perror': t=b'perror'
        elif y.cname in self.errfuns: t=b'error'
        if t is None or WARN.search(t): return None
        return t.decode('latin1')
    errfuns=()
    def to_stderr(self,f,v):
        v=self.canon(f,v)
        return v[0]=='i' and f.insts[v[1]].op=='load' and f.insts[v[1]].o[0]==('g','stderr')
    def kind_for_call(self,f,y):
        if y.cname in NULLFAIL: return 'cli'
        if any(y.o[k] in(('n',),('c',0)) for k in self.needs.get(y.cname,()) if k<len(y.o)): return None
        return super().kind_for_call(f,y)
    def hook(self,f,y,E):
        t=self.message(f,y)
        if t is not None and f.name not in self.loggers: E[('err','cli')]='nz'; E[('why',)]='the message "%s"'%t.strip()[:50]
        if y.cname in('exit','_exit','quick_exit') and f.name not in self.quiet:
            v=self.val(f,y.o[0],E)
            self.exits.append((f,y,v,E.get(('err','cli'))=='nz',E.get(('why',),'a failed call')))
    # results kept in a field and tested there; the error state of a parse asked for afterwards
    STATE=re.compile('xmq(State|Doc)Errno$')
    def phifx(self,f,x,o,E,NE):
        NE[('src',x.i)]=None
        if o[0]=='i' and self.root(f,o,E) is None and any(('pend',q) in E for q in self.depends(f,o,E)): NE[('src',x.i)]=o
    def storefx(self,f,y,E):
        k=self.key(f,y.o[1])
        if not k: return
        E.pop(('flnk',)+k,None); r=self.root(f,y.o[0],E)
        if r is not None and ('pend',r) in E: E[('flnk',)+k]=r
    def val(self,f,v,E,d=0):
        c=self.canon(f,v)
        if c[0]=='i' and c not in E and E.get(('lnk',c[1])) is not None and ('i',E[('lnk',c[1])]) in E: return E[('i',E[('lnk',c[1])])]
        if c[0]=='i' and c not in E and ('src',c[1]) in E and d<8: return self.val(f,E[('src',c[1])],E,d+1)
        if c[0]=='i' and c not in E and f.insts[c[1]].op=='icmp':
            x=f.insts[c[1]]
            for k in(0,1):
                q=self.iocall(f,x.o[k])
                if q is not None and E.get(('i',q.i))=='short': return int(x.p!='eq')
        if c[0]=='fld': return None         # several objects of the same type are in play: fields are not tracked
        if c[0]=='i' and f.insts[c[1]].op=='load' and f.insts[c[1]].o[0][0]=='g' and f.insts[c[1]].o[0][1] in self.never: return 0
        if c[0]=='i' and f.insts[c[1]].op=='call' and f.insts[c[1]].cname and self.STATE.match(f.insts[c[1]].cname): return E.get(('errno',))
        return super().val(f,v,E,d)
    def branch(self,f,cond,truth,E):
        # the test of an error number only counts when it settles whether there was an error
        und={r for r in self.depends(f,cond,E) if ('pend',r) in E and f.insts[r].cname in NZFAIL and self.val(f,('i',r),E) is None}
        super().branch(f,cond,truth,E)
        for r in und: E[('pend',r)]='cli'
    def assume(self,f,v,truth,E,d=0):
        c=self.canon(f,v)
        if c[0]=='i' and ('src',c[1]) in E and d<8:
            if not self.assume(f,E[('src',c[1])],truth,E,d+1): return False
            E[c]=int(truth); return True
        ok=super().assume(f,v,truth,E,d)
        c=self.canon(f,v)
        if ok and c[0]=='i':
            x=f.insts[c[1]]
            if x.op=='call' and x.cname in NZFAIL and self.output(f,x) and truth: E[('err','cli')]='nz'; E[('why',)]='failure of '+x.cname
            if x.op=='icmp':
                for k in(0,1):
                    q=self.iocall(f,x.o[k])
                    if q is not None and self.output(f,q)=='short' and x.p in('eq','ne',('ult','slt')[0] if k==0 else 'ugt') and (x.p!='eq')==truth:
                        E[('err','cli')]='nz'; E[('why',)]='failure of '+q.cname
            if x.op=='call' and x.cname and self.STATE.match(x.cname):
                E[('errno',)]='nz' if truth else 0
                if truth: E[('err','cli')]='nz'
            # an argument that is no option of the current command may be the name of the next one
            if x.op=='call' and x.cname in self.lookups and truth: E.pop(('err','cli'),None); E.pop(('why',),None)
        if ok and c[0]=='fld' and not truth and ('flnk',c[1],c[2]) in E: E[('err','cli')]='nz'
        return ok
    def depends(self,f,v,E,d=0):
        out=super().depends(f,v,E,d); c=self.canon(f,v)
        if c[0]=='i' and ('src',c[1]) in E and d<8: out=out|self.depends(f,E[('src',c[1])],E,d+1)
        if c[0]=='fld' and ('flnk',c[1],c[2]) in E: out=out|{E[('flnk',c[1],c[2])]}
        if c[0]=='i' and f.insts[c[1]].op=='call' and f.insts[c[1]].cname and self.STATE.match(f.insts[c[1]].cname):
            out=out|{q[1] for q in E if q[0]=='pend' and (f.insts[q[1]].cname or '').startswith('xmq')}
        return out
    def output(self,f,y):
        """how the failure of an output (or validation) call shows: 'nz','short','any' or None"""
        n=y.cname
        if n=='xmlSchemaValidateDoc': return 'nz'
        if n in WRITTEN: return None if self.to_stderr(f,y.o[3]) else 'short'
        if n in EXAMINED: return 'any'
        if n=='fflush':       # the buffered end of what this function wrote
            return 'nz' if any(z.cname in WRITTEN for z in f.calls()) and y.o[0][0]!='n' else None
        if n=='fclose':
            b=[f.insts[q[1]] for q in bases(f,y.o[0]) if q[0]=='i']
            return 'nz' if any(z.op=='call' and z.cname=='fopen' and (self.m.cstr(z.o[1]) or b'')[:1] in(b'w',b'a') for z in b) else None
    def iocall(self,f,v):
        c=self.canon(f,v)
        return f.insts[c[1]] if c[0]=='i' and f.insts[c[1]].op=='call' and f.insts[c[1]].cname in WRITTEN|NZFAIL else None
    def callfx(self,f,y,E):
        if ('pend',y.i) in E: self.lost.add((f.name,y.i))
        if self.output(f,y): E[('pend',y.i)]='cli'
        if y.cname in self.lib: E.pop(('errno',),None)
        if self.kind_for_call(f,y) and y.cname in NULLFAIL: E[('pend',y.i)]='cli'
        super().callfx(f,y,E)
    def outcomes(self,f,*a):
        """ends of paths; a returned value computed from unexamined results stands for two ends"""
        r=super().outcomes(f,*a); out=[]
        for k,z,E in r or ():
            ps=[q for q in self.depends(f,z.o[0],E) if ('pend',q) in E] if k=='ret' and z.o else []
            if not ps: out.append((k,z,E)); continue
            for q in ps:
                for fail in(True,False):
                    E2=dict(E)
                    for p in ps: E2.pop(('pend',p),None)
                    kd=self.output(f,f.insts[q])
                    if kd=='any': out.append((k,z,E2)); break
                    if kd=='short':
                        if fail: E2[('i',q)]='short'
                    elif not self.assume(f,('i',q),(not fail) if kd is None else fail,E2): continue
                    ph=self.canon(f,z.o[0])
                    if kd is None and self.root(f,z.o[0],E)==q: E2[ph]=0 if fail else 'nz'
                    if fail:
                        E2[('err','cli')]='nz'; E2[('why',)]='failure of %s'%f.insts[q].cname
                    out.append((k,z,E2))
        return out if r is not None else None
def is_stdout(f,v): return v[0]=='i' and f.insts[v[1]].op=='load' and f.insts[v[1]].o[0]==('g','stdout')
def run(m):
    c=Check('P16','path-sensitive typestate analysis of failure propagation from every command to the exit status',
            'Failures are: error messages of the command line program, calls of status functions (functions that report a failure or pass one on) that return false or null, and library functions that report failure with null. On every path after a failure the function returns false (null), main returns a non-zero status, and exit is called with a non-zero status; the result of a status function is never dropped.')
    fl=Flow(m); cli=lambda f:f.file.endswith('xmq-cli.c') and not f.decl
    w=Walk(c,m,fl,cli); w.exits=[]; w.needs={}; w.lost=set()
    # pointer variables that are null and never written
    wr=set()
    for f in m.defined():
        for x in f.all():
            for k,o in enumerate(x.o or ()):
                if not(x.op=='load' and k==0):
                    if isinstance(o,tuple) and o and o[0]=='g': wr.add(o[1])
    w.never={n for n,g in m.globals.items() if g.get('init') in(('n',),['n'],('c',0)) and n not in wr}
    # the function that maps an argument to a command (0: not the name of a command)
    w.lookups={'cmd_from'}
    funs=[f for f in m.defined() if cli(f)]
    c.need(len(funs)>60 and 'main' in m.funcs,'functions of the command line program')
    api=public_api(m)
    # functions that only write a log line, handlers of signals and of libxml2 messages and child processes stay out
    w.loggers={f.name for f in funs if f.rt=='void' and any(x.op=='call' and x.cname=='llvm.va_start' for x in f.all())}
    w.quiet=set()
    w.loggers|=LOCAL_NOISE
    taken=set()
    for f in m.defined():
        for x in f.all():
            for o in (x.o or ()):
                if isinstance(o,tuple) and len(o)>1 and o[0]=='g' and o[1] in m.funcs and not(x.op=='call' and x.callee==o and o not in x.o): taken.add(o[1])
    # library calls that return false on failure: the public ones that can record an error
    lib={n for n in api if m.funcs[n].rt in('i1','i8') and re.match(r'xmq(Parse|Tokenize|Print|Load|Set|Transform)',n)}
    for n in lib: w.fallible[n]='cli'
    w.lib=lib
    # status functions of the program: smallest set closed under "returns false or null after a failure"
    def ends(f): return w.outcomes(f)
    ch=True; rounds=0; res={}
    while ch and rounds<6:
        ch=False; rounds+=1
        for f in funs:
            if f.name in w.fallible or f.name in w.loggers or f.rt not in('i1','i8','ptr'): continue
            r=ends(f)
            if r is None: continue
            bad=[E for k,z,E in r if k=='ret' and (E.get(('err','cli'))=='nz' and w.val(f,z.o[0],E)==0)]
            if bad:
                w.fallible[f.name]='cli'; ch=True
                w.needs[f.name]=[k for k in range(len(f.params)) if all(E.get(('a',k))=='nz' for E in bad)]
    n=0; paths=0
    w.exits=[]; w.lost=set()
    for f in funs:
        if f.name in w.loggers: continue
        r=ends(f)
        if r is None: c.undecided(f.name,f.name,'too many paths'); continue
        n+=1
        if f.name in taken and f.rt=='void': continue
        for k,z,E in r:
            if k!='ret': continue
            paths+=1; v=w.val(f,z.o[0],E) if z.o else None
            why=E.get(('why',),'a failed call'); bad=E.get(('err','cli'))=='nz'
            if f.name=='main': ok=not bad or v not in(0,None); what='main returns %s'%('a value that can be 0' if v is None else v)
            elif f.rt in('i1','i8','ptr'): ok=not bad or v==0; what='success is returned'
            elif f.rt=='void': ok=not bad; what='the failure is not reported to the caller'
            else: ok=True; what=''
            c.ob('%s:propagates'%f.name,ok,z.loc(),'%s after %s'%(what,why))
            for q in [q for q in E if q[0]=='pend' and E[q]=='cli']:
                y=f.insts[q[1]]
                if not bad: c.ob('%s:%s:dropped'%(f.name,y.cname),False,y.loc(),'the result of %s is dropped'%y.cname)
        for y in f.calls():
            if y.cname in WRITTEN and f.rt in('i1','i8') and w.output(f,y) and is_stdout(f,y.o[3]):
                c.ob('%s:flushed'%f.name,any(q.cname in('fflush','fclose') and f.idominst(y,q) or q.cname in('fflush','fclose') and q.blk!=y.blk for q in f.calls()),y.loc(),'the text written may still be buffered when success is returned')
    for fn,i in sorted(w.lost):
        y=m.funcs[fn].insts[i]; c.ob('%s:%s:overwritten'%(fn,y.cname),False,y.loc(),'the result of %s is overwritten by that of the next call'%y.cname)
    for f,y,v,bad,why in w.exits:
        c.ob('%s:exit'%f.name,not bad or v not in(0,None) ,y.loc(),'the program exits with success after %s'%why)
    st=sorted(x for x in w.fallible if x in m.funcs and cli(m.funcs[x]))
    c.cov.update(functions=n,path_ends=paths,status_functions=st,library_status_functions=sorted(lib),exits=len(w.exits))
    return c
