"""Shared helpers over lib/ir.py."""
import collections

def possible_consts(f, v, depth=0, seen=None):
    """set of integer constants an operand can take, or None when not all are known (phi/select/or/and/add/ext of constants)."""
    if v[0]=='c': return {v[1]}
    if v[0]!='i' or depth>40: return None
    seen=seen or set()
    if v in seen: return set()
    seen=seen|{v}
    x=f.insts[v[1]]
    def pc(o): return possible_consts(f,o,depth+1,seen)
    if x.op=='phi':
        out=set()
        for o,_ in x.o:
            r=pc(o)
            if r is None: return None
            out|=r
        return out
    if x.op=='select':
        a,b=pc(x.o[1]),pc(x.o[2])
        return None if a is None or b is None else a|b
    if x.op in ('or','and','add','sub','mul','xor','shl'):
        a,b=pc(x.o[0]),pc(x.o[1])
        if a is None or b is None or len(a)*len(b)>4096: return None
        fn={'or':lambda p,q:p|q,'and':lambda p,q:p&q,'add':lambda p,q:p+q,'sub':lambda p,q:p-q,'mul':lambda p,q:p*q,'xor':lambda p,q:p^q,'shl':lambda p,q:p<<q}[x.op]
        return {fn(p,q) for p in a for q in b}
    if x.op in ('zext','sext','trunc','freeze'): return pc(x.o[0])
    return None

def strip_ptr(f, v):
    """follow GEP/bitcast to the base operand"""
    while True:
        if v[0]=='i':
            x=f.insts[v[1]]
            if x.op in ('getelementptr','bitcast','addrspacecast'): v=x.o[0]; continue
        elif v[0]=='ce' and v[1] in ('getelementptr','bitcast'): v=v[2][0]; continue
        return v

def bases(f, v, seen=None):
    """all base operands a pointer may come from, through GEP/phi/select"""
    seen=set() if seen is None else seen
    v=strip_ptr(f,v)
    if v in seen: return set()
    seen.add(v)
    if v[0]=='i':
        x=f.insts[v[1]]
        if x.op=='phi':
            out=set()
            for o,_ in x.o: out|=bases(f,o,seen)
            return out
        if x.op=='select': return bases(f,x.o[1],seen)|bases(f,x.o[2],seen)
    return {v}

def is_lib(fn): return fn.file is not None and not fn.file.endswith('xmq-cli.c') and 'testinternals' not in fn.file
def is_yaep(fn): return fn.file is not None and fn.file.endswith('yaep.c')

def public_api(m):
    """names of functions declared in the public header that are defined in the module"""
    import re,os
    txt=open(os.path.join(m.repo_src,'xmq.h')).read()
    txt=re.sub(r'/\*.*?\*/','',txt,flags=re.S); txt=re.sub(r'//[^\n]*','',txt)
    names=set(re.findall(r'\b(xmq[A-Za-z0-9_]+)\s*\(',txt))
    return sorted(n for n in names if n in m.funcs and not m.funcs[n].decl)

# ---------------------------------------------------------------- format strings
import re
DIR=re.compile(rb'%([-+ #0\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L|q)?([diouxXeEfFgGaAcspnm%])')
def format_args(b):
    """expected argument classes of a printf format, None when malformed"""
    out=[]; i=0
    while i<len(b):
        if b[i:i+1]!=b'%': i+=1; continue
        mo=DIR.match(b,i)
        if not mo: return None
        fl,w,p,ln,c=mo.groups()
        if c==b'%': i=mo.end(); continue
        if w==b'*': out.append('i32')
        if p==b'*': out.append('i32')
        if c in b'diouxX': out.append({b'l':'i64',b'll':'i64',b'z':'i64',b'j':'i64',b't':'i64',b'q':'i64'}.get(ln,'i32'))
        elif c==b'c': out.append('i32')
        elif c in b'eEfFgGaA': out.append('double')
        elif c==b's': out.append('str')
        elif c==b'p': out.append('ptr')
        elif c==b'n': out.append('n')
        i=mo.end()
    return out
