"""P18: no data-dependent format strings; arguments agree with the directives."""
from driver import Check
from util import *
LIBC={'printf':0,'fprintf':1,'dprintf':1,'sprintf':1,'snprintf':2,'vprintf':0,'vfprintf':1,'vdprintf':1,'vsprintf':1,'vsnprintf':2,'syslog':1,'vsyslog':1,'scanf':0,'sscanf':1,'fscanf':1,'__isoc99_sscanf':1,'__isoc99_scanf':0,'__isoc99_fscanf':1,'__printf_chk':1,'__fprintf_chk':2,'__snprintf_chk':4,'__sprintf_chk':3,'__vsnprintf_chk':4,'err':1,'errx':1,'warn':0,'warnx':0,'asprintf':1,'vasprintf':1}
def run(m):
    c=Check('P18','interprocedural constant-string provenance of format operands over LLVM IR',
            'Every call of a printf/scanf-family function, and of every function of the code that forwards its parameter as a format, is enumerated. '
            'The format operand must originate only from string literals (through phi/select/array-of-literal loads) or be the forwarding function\'s own format parameter; '
            'for literal formats the number and IR type of the variadic arguments must agree with the directives.')
    fmt={}            # function -> index of its format parameter (libc, or discovered forwarders)
    fmt.update(LIBC)
    def sources(f,v,seen):
        """set of ('s',bytes) | ('p',k) | ('?',why)"""
        if v in seen: return set()
        seen.add(v)
        s=m.cstr(v)
        if s is not None: return {('s',s)}
        if v[0]=='a': return {('p',v[1])}
        if v[0]=='n': return {('s',b'')}
        if v[0]=='i':
            x=f.insts[v[1]]
            if x.op=='phi':
                out=set()
                for o,_ in x.o: out|=sources(f,o,seen)
                return out
            if x.op=='select': return sources(f,x.o[1],seen)|sources(f,x.o[2],seen)
            if x.op=='load':
                if from_va(f,x.o[0]): return {('v',)}
                return {('?','loaded from memory at %s'%x.loc())}
            if x.op=='call': return {('?','result of %s at %s'%(x.cname,x.loc()))}
            return {('?',x.op)}
        return {('?',str(v)[:60])}
    def from_va(f,a):
        """the address walks the register save / overflow area of a va_list: the value is a variadic argument"""
        for b in bases(f,a):
            if b[0]!='i': return False
            y=f.insts[b[1]]
            if y.op!='load': return False
            z=strip_gep_owner(f,y.o[0])
            if z!='struct.__va_list_tag': return False
        return True
    def strip_gep_owner(f,v):
        if v[0]=='i' and f.insts[v[1]].op=='getelementptr': return (f.insts[v[1]].g or {}).get('ow')
        return None
    # discover forwarders to a fixed point
    ch=True
    while ch:
        ch=False
        for f in m.defined():
            for x in f.calls():
                k=fmt.get(x.cname)
                if k is None or k>=len(x.o): continue
                for s in sources(f,x.o[k],set()):
                    if s[0]=='p' and f.name not in fmt: fmt[f.name]=s[1]; ch=True
    fwd=[n for n in fmt if n in m.funcs and not m.funcs[n].decl]
    c.need(len(fwd)>=3,'functions forwarding a format')
    n=0; lines=set()
    for f in m.defined():
        for x in f.calls():
            k=fmt.get(x.cname)
            if k is None or k>=len(x.o): continue
            n+=1
            src=sources(f,x.o[k],set())
            if ('v',) in src: lines.add(f.name)
            bad=[s for s in src if s[0]=='?' or (s[0]=='p' and fmt.get(f.name)!=s[1])]
            # key: function, callee and ordinal of the call among calls with the same callee
            key='%s:%s:%s'%(f.name,x.cname,'nonliteral')
            c.ob(key if bad else '%s:%s:format'%(f.name,x.cname), not bad, x.loc(), 'format is not a string literal: %s'%(bad,))
            if bad or x.ats is None or 'scanf' in x.cname: continue
            g=m.funcs.get(x.cname)
            vstart=k+1
            # a va-forwarding function whose params after the format are not the variadic part is skipped
            if g is not None and g.vararg and len(g.params)!=vstart and not g.decl: continue
            for s in src:
                if s[0]!='s': continue
                want=format_args(s[1])
                if want is None: c.ob('%s:%s:malformed'%(f.name,x.cname),False,x.loc(),'malformed format %r'%s[1]); continue
                have=x.ats[vstart:]
                ok=len(have)>=len(want) and 'n' not in want and all((h==w) or (w in('str','ptr') and h=='ptr') for h,w in zip(have,want))
                c.ob('%s:%s:args:%s'%(f.name,x.cname,s[1][:30].decode('latin1')),ok,x.loc(),'format %r wants %s, call passes %s'%(s[1],want,have))
    # line protocol: functions that take their formats from variadic arguments (name=, fmt, args... or name{ key=, fmt, args..., })
    c.need(lines,'functions taking formats from variadic arguments')
    proto={}
    # the protocol head is the string parameter that precedes the va_list
    for nme in lines: proto[nme]=len(m.funcs[nme].params)-2
    ch=True
    while ch:
        ch=False
        for f in m.defined():
            for x in f.calls():
                k=proto.get(x.cname)
                if k is None or f.name in proto or k>=len(x.o): continue
                if x.o[k][0]=='a': proto[f.name]=x.o[k][1]; ch=True
    nl=0
    for f in m.defined():
        for x in f.calls():
            k=proto.get(x.cname)
            if k is None or k>=len(x.o) or not m.funcs[x.cname].vararg: continue
            nl+=1
            args=x.o[k:]; ats=x.ats[k:]
            why=line_ok(m,f,args,ats,sources)
            c.ob('%s:%s:line'%(f.name,x.cname),why is None,x.loc(),why or '')
    c.need(nl>50,'structured log calls (found %d)'%nl)
    c.cov['line_calls']=nl
    c.need(n>200,'printf family calls (found %d)'%n)
    c.cov.update(format_calls=n,forwarders=sorted(fwd))
    return c

def line_ok(m,f,args,ats,sources):
    def lit(v):
        s=sources(f,v,set())
        return [t[1] for t in s] if s and all(t[0]=='s' for t in s) else None
    heads=lit(args[0])
    if heads is None:
        return None if sources(f,args[0],set()) <= {('p',args[0][1])} and args[0][0]=='a' else 'log head is not a string literal'
    for h in heads:
        i=1
        def take(fmts):
            nonlocal i
            for b in fmts:
                want=format_args(b)
                if want is None: return 'malformed format %r'%b
                have=ats[i:i+len(want)]
                if len(have)<len(want) or not all(a==w or (w in('str','ptr') and a=='ptr') for a,w in zip(have,want)): return 'format %r wants %s, call passes %s'%(b,want,ats[i:])
            i+=len(format_args(fmts[0]))
            return None
        if not h: return 'empty log head'
        if h[-1:]==b'{':
            while True:
                if i>=len(args): return 'unterminated log line'
                if args[i][0]=='n': break
                k=lit(args[i])
                if k is None: return 'log key is not a string literal'
                if k[0][:1]==b'}': break
                i+=1
                if i>=len(args): return 'log key without value format'
                fm=lit(args[i])
                if fm is None: return 'value format of %r is not a string literal'%k[0]
                i+=1
                w=take(fm)
                if w: return w
        elif h[-1:]==b'=':
            if len(args)<2: return 'no format'
            fm=lit(args[1])
            if fm is None: return 'format is not a string literal'
            i=2
            w=take(fm)
            if w: return w
        else:
            w=take([h])
            if w: return w
    return None
