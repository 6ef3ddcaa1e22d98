"""P17: document text is never executed."""
from driver import Check
from util import *
from flow import Flow
from prov import Prov
EXEC={'system':[0],'popen':[0],'execl':None,'execlp':None,'execle':None,'execv':[0,1],'execvp':[0,1],'execve':[0,1],'execvpe':[0,1],'posix_spawn':[1,4],'posix_spawnp':[1,4],'dlopen':[0],'wordexp':[0],'xmlModuleOpen':[0]}
SHELL={'system','popen','wordexp'}
FILES={'open':0,'fopen':0,'freopen':0,'creat':0,'unlink':0,'remove':0,'rename':0,'rmdir':0,'mkdir':0,'mkstemp':0,'chmod':0,'truncate':0,'chdir':0}
def run(m):
    c=Check('P17','backward provenance of the bytes of every argument of process-starting calls',
            'For every call that starts a process or loads code, the bytes of the program, of its arguments and of command strings are traced backwards through pointers, struct fields, buffers built by calls, callers and returned values. None of them may come from the text of a document; document text may only be handed over in the environment. Commands interpreted by system, popen or wordexp are literals. The names of files the command line program opens, creates or removes do not come from document text either.')
    fl=Flow(m); p=Prov(m,fl); n=0; k=0; und=0
    for f in m.defined():
        for x in f.calls():
            if x.cname not in EXEC: continue
            n+=1
            idx=EXEC[x.cname]
            for j in (range(len(x.o)) if idx is None else idx):
                if j>=len(x.o): continue
                # the file shown by an external program is an operand of it, not a program; options of `open` come from constants
                k+=1; src=p.of(f,x.o[j])
                bad=sorted(s for s in src if s[0]=='doc')
                c.ob('%s:%s:%d'%(f.name,x.cname,j),not bad,x.loc(),'argument %d of %s can contain text of a document: %s at %s'%(j,x.cname,bad[0][1],bad[0][2]) if bad else '')
                if x.cname in SHELL and len(src-{q for q in src if q[0]=='lit'}):
                    bad=sorted(q for q in src if q[0]!='lit')
                    c.ob('%s:%s:%d:literal'%(f.name,x.cname,j),False,x.loc(),'the command given to the shell is not a literal: '+bad[0][1])
                for s in sorted(src):
                    if s[0]=='unknown': und+=1; c.undecided('%s:%s:%d'%(f.name,x.cname,j),s[2],'origin not followed: '+s[1])
    # files: opened, created and removed by the command line program under names the user or the program chose
    for f in m.defined():
        if not f.file.endswith('xmq-cli.c') : continue
        for x in f.calls():
            if x.cname in FILES:
                k+=1; src=p.of(f,x.o[FILES[x.cname]]); bad=sorted(s for s in src if s[0]=='doc')
                c.ob('%s:%s:name'%(f.name,x.cname),not bad,x.loc(),'the name of the file used by %s can contain text of a document: %s at %s'%(x.cname,bad[0][1],bad[0][2]) if bad else '')
    c.need(n>0,'calls that start a process')
    c.cov.update(process_calls=n,arguments=k,origins_not_followed=und)
    return c
