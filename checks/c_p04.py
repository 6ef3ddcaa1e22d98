"""P4: a failed parse is always reported, with its own message and a valid location."""
import collections
from driver import Check
from util import *
from flow import Flow, addr_key
from errwalk import ErrWalk

# never raised by the library (reserved in the header)
NOTRAISED={'XMQ_ERROR_CANNOT_HANDLE_XML','XMQ_ERROR_CANNOT_HANDLE_HTML','XMQ_ERROR_CANNOT_HANDLE_JSON'}
def constwalk(f,param,k):
    """blocks and edges reachable when parameter `param` is the constant k"""
    def ev(v,d=0):
        if v[0]=='c': return v[1]
        if v==('a',param): return k
        if v[0]!='i' or d>12: return None
        x=f.insts[v[1]]
        if x.op in('zext','sext','trunc','freeze'): return ev(x.o[0],d+1)
        if x.op=='icmp':
            a,b=ev(x.o[0],d+1),ev(x.o[1],d+1)
            if a is None or b is None: return None
            return int({'eq':a==b,'ne':a!=b,'slt':a<b,'sgt':a>b,'sle':a<=b,'sge':a>=b,'ult':a<b,'ugt':a>b,'ule':a<=b,'uge':a>=b}[x.p])
        if x.op in('and','or','xor','add','sub'):
            a,b=ev(x.o[0],d+1),ev(x.o[1],d+1)
            if x.op=='and' and 0 in(a,b): return 0
            if a is None or b is None: return None
            return {'and':a&b,'or':a|b,'xor':a^b,'add':a+b,'sub':a-b}[x.op]
        if x.op=='select':
            c=ev(x.o[0],d+1)
            return None if c is None else ev(x.o[1 if c else 2],d+1)
        if x.op=='phi':
            s={ev(o,d+1) for o,p in x.o if (p,x.blk) in edges}
            return s.pop() if len(s)==1 else None
        return None
    blocks={0}; edges=set(); ch=True
    while ch:
        ch=False
        for b in list(blocks):
            t=f.term(b); ss=f.succ(b)
            if t.op=='br' and len(t.s)==2 and t.o:
                c=ev(t.o[0])
                if c is not None: ss=[t.s[0 if c&1 else 1]]
            elif t.op=='switch':
                c=ev(t.o[0])
                if c is not None:
                    d=dict((v,s) for v,s in t.s); ss=[d[c] if c in d else d.get(None)]
            for s in ss:
                if (b,s) not in edges: edges.add((b,s)); blocks.add(s); ch=True
    def src(v,d=0,seen=None):
        """values v can stand for on the reachable edges"""
        seen=set() if seen is None else seen
        if v in seen or d>40: return set()
        seen.add(v)
        if v[0]=='i':
            x=f.insts[v[1]]
            if x.op=='phi':
                out=set()
                for o,p in x.o:
                    if (p,x.blk) in edges: out|=src(o,d+1,seen)
                return out
            if x.op=='select':
                c=ev(x.o[0])
                if c is not None: return src(x.o[1 if c else 2],d+1,seen)
                return src(x.o[1],d+1,seen)|src(x.o[2],d+1,seen)
            if x.op in('zext','sext','trunc','bitcast'): return src(x.o[0],d+1,seen)
        return {v}
    return blocks,src

def run(m):
    c=Check('P04','path-sensitive typestate analysis of error recording over CFG paths with interprocedural obligations (LLVM IR)',
            'R1 no longjmp without a non-zero error code stored on every path; R2/R3 every path on which a parse function returns false has recorded an error in the object it was given, or got '
            'false from a callee that is itself checked; no path returns true after recording an error; no result of a fallible call is dropped; R4 the error message generator only uses a '
            'location pointer for an error code when that pointer is set on every path raising the code; R5 every error code has its own message; R6 line and column come from the same place as the pointer.')
    fl=Flow(m)
    err={}
    for kind,st,fd in(('state','struct.XMQParseState','error_nr'),('doc','struct.XMQDoc','errno_')):
        cands=[s for s in m.structs if s==st or s==st.replace('XMQDoc','_XMQDoc') or s==st.replace('XMQParseState','_XMQParseState')]
        r=None
        for s in cands:
            for x in m.structs[s]['fields']:
                if x[0]==fd: r=(s,x[2])
        err[kind]=c.need(r,'%s.%s'%(st,fd))
    W=ErrWalk(m,fl,err)
    S=err['state'][0]
    off={x[0]:x[2] for x in m.structs[S]['fields']}; name={v:k for k,v in off.items()}
    W.nnfields={(S,off['i'])}
    W.endfields=((S,off['i']),(S,off['buffer_stop']))
    gen=c.need(m.funcs.get('generate_state_error_message'),'generate_state_error_message')
    tos=c.need(m.funcs.get('xmqParseErrorToString'),'xmqParseErrorToString')
    enums={k:v for k,v in m.enumvals.items() if k.startswith('XMQ_ERROR_') or k.startswith('XMQ_WARNING_')}
    c.need(len(enums)>=30,'error enumerators')
    inv=collections.defaultdict(list)
    for k,v in enums.items(): inv[v].append(k)
    # ---- R5
    texts={}
    dflt=None
    def text(k):
        bl,src=constwalk(tos,0,k); out=set()
        for b in bl:
            t=tos.term(b)
            if t.op=='ret' and t.o: out|={m.cstr(v) if v[0]!='n' else None for v in src(t.o[0])}
        return out
    dflt=text(99999)
    for k,v in sorted(enums.items(),key=lambda t:t[1]):
        c.ob('R5:code-value:%s'%k,len(inv[v])==1,'%s'%tos.file,'%s share the number %d'%(inv[v],v))
        t=text(v); ok=len(t)==1 and None not in t and t!=dflt and len(list(t)[0] or b'')>0
        c.ob('R5:text:%s'%k,ok,'%s:%d'%(tos.file,tos.line),'the message for %s is %s (unknown codes give %s)'%(k,t,dflt))
        if ok:
            t=list(t)[0]
            c.ob('R5:own-text:%s'%k,t not in texts,'%s:%d'%(tos.file,tos.line),'%s and %s have the same message %r'%(k,texts.get(t),t))
            texts[t]=k
    # ---- R6 + location fields per code
    loc={}   # code value -> field offset of pointer
    out=[x for x in gen.calls() if x.cname in('snprintf','__snprintf_chk') and len(x.o)>=9]
    c.need(out,'the final formatting call of generate_state_error_message')
    fin=out[-1]
    # companions from the stores: ptr field -> (line field, col field)
    comp={}
    for f in m.defined():
        for x in f.all():
            if x.op!='store' or x.vt!='ptr': continue
            k=W.key(f,x.o[1])
            if not k or k[0]!=S or not name.get(k[1],'').startswith('last_'): continue
            if x.o[0][0]=='n': continue
            L=C=None
            for y in f.blocks[x.blk]:
                if y.op=='store' and y.vt!='ptr':
                    ky=W.key(f,y.o[1])
                    if ky and ky[0]==S and name.get(ky[1],'').startswith(name[k[1]]):
                        src=bases_val(f,y.o[0],W)
                        if off['line'] in src: L=ky[1]
                        if off['col'] in src: C=ky[1]
            key='R6:stored:%s:%s'%(f.name,name[k[1]])
            c.ob(key,L is not None and C is not None,x.loc(),'%s is remembered without its line and column'%name[k[1]])
            if L is not None and C is not None:
                if k[1] in comp: c.ob(key+':same',comp[k[1]]==(L,C),x.loc(),'line/column of %s are kept in different fields'%name[k[1]])
                comp.setdefault(k[1],(L,C))
    comp[off['i']]=(off['line'],off['col'])
    for k,v in sorted(enums.items(),key=lambda t:t[1]):
        bl,src=constwalk(gen,1,v)
        def flds(o):
            r=set()
            for q in src(o):
                if q[0]=='i' and gen.insts[q[1]].op=='load':
                    ky=W.key(gen,gen.insts[q[1]].o[0])
                    if ky and ky[0]==S: r.add(ky[1])
            return r
        # pointer: state fields the scanned pointer derives from
        P=set()
        for b in bl:
            for x in gen.blocks[b]:
                if x.op=='getelementptr' and x.g and not str(x.g.get('ow','')).startswith('struct') :
                    for q in closure(gen,x.o[0],src):
                        if q[0]=='i' and gen.insts[q[1]].op=='load':
                            ky=W.key(gen,gen.insts[q[1]].o[0])
                            if ky and ky[0]==S and ky[1] in comp: P.add(ky[1])
        ints=[o for o in fin.o[3:] if o[0]!='s' and flds(o)-{off.get('source_name')}]
        c.ob('R6:one-place:%s'%k,len(P)==1 ,'%s:%d'%(gen.file,gen.line),'the location of %s mixes %s'%(k,sorted(name[q] for q in P)))
        if len(P)!=1: continue
        p=list(P)[0]; loc[v]=p
        want=comp[p]; got=[flds(o) for o in ints][:2]
        c.ob('R6:line-col:%s'%k,len(got)==2 and got[0]=={want[0]} and got[1]=={want[1]},fin.loc(),
             'the message for %s shows %s, but the place is %s'%(k,[sorted(name[q] for q in g) for g in got],name[p]))
    special={v:p for v,p in loc.items() if p!=off['i']}
    if len(special)<3: print(comp,loc,[o for o in c.obs if not o[1]][:12],fin.o)
    c.need(len(special)>=3,'error codes with their own location')
    W.locfields={(S,p) for p in special.values()}
    # ---- R1, R4 per function
    nj=0; npaths=0
    for f in m.defined():
        if not is_lib(f): continue
        jumps=[x for x in f.calls() if x.cname in('longjmp','_longjmp')]
        gens=[x for x in f.calls() if x.cname==gen.name]
        if not jumps and not gens: continue
        usesyaep=is_yaep(f)
        if usesyaep: continue
        class H: pass
        rec=[]
        def hook(ff,y,E,rec=rec):
            if y.cname==gen.name and ff is f: rec.append((y,dict(E)))
        W.hook=hook
        o=W.outcomes(f); W.hook=lambda *a: None
        if o is None: c.undecided('R1:%s'%f.name,f.file,'too many paths'); continue
        npaths+=len(o)
        J=collections.defaultdict(list)
        for kind,y,E in o:
            if kind=='jump': J[y].append(E)
        for y,Es in J.items():
            nj+=1; bad=[E for E in Es if E.get(('err','state')) in(None,0,'?')]
            key='R1:%s#%s'%(f.name,name_codes(Es,inv))
            c.ob(key,not bad,y.loc(),'an error jump without an error code on some path: the failure would look like success')
            for E in Es:
                cd=E.get(('code','state'))
                if isinstance(cd,int) and cd in special:
                    fk=('fld',S,special[cd])
                    c.ob('R4:%s:%s'%(f.name,inv[cd][0]),E.get(fk)=='nz',y.loc(),'%s is raised but %s need not be set: the message generator would follow a null or stale pointer'%(inv[cd][0],name[special[cd]]))
        for y,E in rec:
            cd=W.val(f,y.o[1],E)
            if isinstance(cd,int) and cd in special:
                c.ob('R4:%s:%s'%(f.name,inv[cd][0]),E.get(('fld',S,special[cd]))=='nz',y.loc(),'%s is reported but %s need not be set'%(inv[cd][0],name[special[cd]]))
    c.need(nj>=15,'error jumps')
    # ---- R8: every code of the public header that the library raises today is still raised
    raised=set()
    for f in m.defined():
        for x in f.all():
            if x.op=='store' and W.key(f,x.o[1]) in W.kinds:
                r=possible_consts(f,x.o[0])
                if r: raised|=r
    for k,v in sorted(enums.items()):
        if k.startswith('XMQ_WARNING') or v==0 or k in NOTRAISED: continue
        c.ob('R8:raised:%s'%k,v in raised,'','no code reports %s any more: the situation it describes would go unnoticed'%k)
    # ---- R10: a closing token is only reported when the closing character was seen
    CB='struct.XMQParseCallbacks'
    CB=c.need([s for s in m.structs if s.lstrip('_') in(CB,) or s.endswith('.XMQParseCallbacks')],'XMQParseCallbacks')[0]
    want={'cpar_right':41,'apar_right':41,'brace_right':125}; n10=0
    for f in m.defined():
        if not is_lib(f): continue
        calls={}
        for x in f.calls():
            if x.callee and x.callee[0]=='i' and f.insts[x.callee[1]].op=='load':
                y=f.insts[f.insts[x.callee[1]].o[0][1]] if f.insts[x.callee[1]].o[0][0]=='i' else None
                if y is not None and y.op=='getelementptr' and y.g and str(y.g.get('ow','')).endswith('XMQParseCallbacks') and y.g['p'][-1].replace('handle_','') in want:
                    if len(x.o)>3 and all(q[0]=='g' for q in bases(f,x.o[3])): continue
                    calls[x.i]=want[y.g['p'][-1].replace('handle_','')]
        ends={'parse_json_object':125,'parse_json_array':93}.get(f.name)
        if not calls and not ends: continue
        got=collections.defaultdict(list)
        def hook(ff,y,E,f=f,got=got,calls=calls):
            if ff is f and y.i in calls: got[y.i].append(E.get(('chr',)))
        W.hook=hook; o=W.outcomes(f); W.hook=lambda *a: None
        if o is None: c.undecided('R10:%s'%f.name,f.file,'too many paths'); continue
        for i,vs in got.items():
            n10+=1; c.ob('R10:%s:%s'%(f.name,chr(calls[i])),all(v==calls[i] for v in vs),f.insts[i].loc(),'the closing %r is reported although the input was only compared with %s'%(chr(calls[i]),sorted(str(v) for v in set(vs))))
        if ends:
            vs=[E.get(('chr',)) for k,y,E in o if k=='ret']; n10+=1
            c.ob('R10:%s:%s'%(f.name,chr(ends)),vs and all(v==ends for v in vs),'%s:%d'%(f.file,f.line),'returns normally although the closing %r was not seen'%chr(ends))
    c.need(n10>=4,'closing tokens')
    # ---- R2,R3,R7
    pub=[n for n in public_api(m) if (n.startswith('xmqParse') or n.startswith('xmqTokenize')) and m.funcs[n].rt=='i1' and W.pk[n]]
    c.need(len(pub)>=6,'public parse functions')
    work=[(n,W.pk[n].get(0)) for n in pub if W.pk[n].get(0)]; W.fallible={n:k for n,k in work}
    # functions that catch errors
    for f in m.defined():
        if is_lib(f) and not is_yaep(f) and f.rt=='i1' and any(x.cname in('_setjmp','setjmp') for x in f.calls()) and f.name not in W.fallible:
            W.fallible[f.name]='state'; work.append((f.name,'state'))
    todo=list(work); obl={}; grew=True; rounds=0
    while grew and rounds<6:
        grew=False; rounds+=1; obl={}
        for n,kind in list(W.fallible.items()):
            f=m.funcs[n]; o=W.outcomes(f)
            if o is None: c.undecided('R3:%s'%n,f.file,'too many paths'); continue
            obj=[k for k,v in W.pk[n].items() if v==kind]
            for ek,y,E in o:
                if ek!='ret' or not y.o: continue
                v=W.val(f,y.o[0],E); rt=W.root(f,y.o[0],E); why=None
                failed=[x for x in f.calls() if E.get(('i',x.i))==0 and x.t=='i1' and any(t in m.funcs and not m.funcs[t].decl and W.pk[t] for t in fl.targets(f,x))]
                if v in(0,None):      # may be false
                    ok=E.get(('err',kind)) not in(None,0,'?') or any(E.get(('a',k))==0 for k in obj)
                    if not ok:
                        shift=None
                        cands=([f.insts[rt]] if rt is not None else [])+(failed if v is not None else [])
                        for x in cands:
                            for t in fl.targets(f,x):
                                if kind in W.pk[t].values() and m.funcs[t].rt=='i1': shift=(t,kind)
                        if shift:
                            if shift[0] not in W.fallible: W.fallible[shift[0]]=kind; grew=True
                            ok=True
                    if not ok: why='returns false without recording an error'
                    key=('R3:%s'%n,'no-silent-failure')
                    if key not in obl or obl[key][0]: obl[key]=(not why,y.loc(),why,E)
                if v not in(0,) and any(x.cname in('_setjmp','setjmp') for x in f.calls()):
                    key=('R9:%s'%n,'whole-input-consumed'); ok=E.get(('end',)) is True
                    if key not in obl or obl[key][0]: obl[key]=(ok,y.loc(),'returns true without having seen that the end of the input was reached',E)
                if v not in(0,):
                    why=None
                    if v is not None and E.get(('err',kind)) not in(None,0,'?') : why='returns true after recording an error'
                    bad=[x for x in failed if any(t in W.fallible for t in fl.targets(f,x)) and v is not None]
                    if bad and not E.get(('reset',kind)): why='returns true although %s failed'%bad[0].cname
                    if kind=='doc' and v is not None and E.get(('err','state')) not in(None,0,'?') : why='returns true although the parse state has an error'
                    key=('R2:%s'%n,'no-false-success')
                    if key not in obl or obl[key][0]: obl[key]=(not why,y.loc(),why,E)
                    pend=[q[1] for q in E if q[0]=='pend' and q[1]!=rt]
                    key=('R7:%s'%n,'results-checked')
                    why='the result of %s is dropped'%f.insts[pend[0]].cname if pend else None
                    if key not in obl or obl[key][0]: obl[key]=(not pend,y.loc(),why,E)
    for (a,b),(ok,where,why,E) in sorted(obl.items()): c.ob(a+':'+b,ok,where,why or '') if ok else c.ob(a+':'+b,ok,where,'%s (path facts: %s)'%(why,sorted(str((f_(m,a,q),v)) for q,v in E.items())[:14]))
    messages(m,c)
    stops(m,c,fl,W)
    c.cov.update(functions=sorted(W.fallible),error_jumps=nj,paths=npaths,codes=len(enums))
    return c

def stops(m,c,fl,W):
    """R12: nothing more is parsed once an error code has been stored in the parse state: every path from the store leaves
    the parser with longjmp, or returns false. A helper that always stores a code passes the obligation on to its callers."""
    ek=W.err['state']; J=('longjmp','_longjmp','siglongjmp')
    # functions that never return
    nr=set(); ch=True
    def ends(f,x): return x.op=='call' and (x.noret or x.cname in J or (bool(fl.targets(f,x)) and all(t in nr for t in fl.targets(f,x))))
    def reach_ret(f,b,start,d=None):
        """ret instructions (with the edge they are entered by) reachable from block b, instruction index start"""
        out=[]; seen=set(); st=[(b,None,start)]
        while st:
            b,pb,s=st.pop()
            if (b,pb) in seen and s==0: continue
            if s==0: seen.add((b,pb))
            stop=False
            for x in f.blocks[b][s:]:
                if ends(f,x): stop=True; break
                if x.op=='store' and W.key(f,x.o[1])==ek and x.o[0]==('c',0): stop=True; break
                if x.op=='ret': out.append((x,pb)); stop=True; break
            if stop: continue
            for z in f.succ(b): st.append((z,b,0))
        return out
    while ch:
        ch=False
        for f in m.defined():
            if f.name in nr: continue
            if not reach_ret(f,0,0) and not any(x.cname in('_setjmp','setjmp') for x in f.calls()) and any(ends(f,x) for x in f.calls()): nr.add(f.name); ch=True
    def failed(f,x,pb):
        if not x.o: return False
        v=x.o[0]
        while v[0]=='i':
            y=f.insts[v[1]]
            if y.op=='phi' and y.blk==x.blk and pb is not None:
                w=[o for o,p in y.o if p==pb]; v=w[0] if w else ('?',); continue
            if y.op in('zext','trunc','sext'): v=y.o[0]; continue
            break
        return v in(('c',0),('n',))
    setters=set(); n=0; res={}
    def sites(f):
        for x in f.all():
            if x.op=='store' and W.key(f,x.o[1])==ek:
                r=possible_consts(f,x.o[0])
                if x.o[0]==('c',0) or (r is not None and r=={0}): continue
                yield x
            elif x.op=='call' and fl.targets(f,x) and any(t in setters for t in fl.targets(f,x)): yield x
    ch=True
    while ch:
        ch=False; res={}
        for f in m.defined():
            if not is_lib(f) or is_yaep(f) or (f.rt=='i1' and f.name in W.fallible): continue     # (R2 walks those)
            if any(x.cname in('_setjmp','setjmp') for x in f.calls()): continue
            S=list(sites(f))
            for x in S: res[(f.name,x)]=[r for r in reach_ret(f,x.blk,x.pos+1) if not failed(f,*r)]
            if S and f.rt=='void' and f.name not in setters and any(res[(f.name,x)] for x in S) and all(x.cname not in J for x in f.calls()) and always(f,S,nr,fl):
                setters.add(f.name); ch=True
    for (fn,x),bad in res.items():
        if fn in setters: continue
        n+=1; r=possible_consts(m.funcs[fn],x.o[0]) if x.op=='store' else None
        c.ob('R12:%s:stops#%s'%(fn,'+'.join(map(str,sorted(r))) if r else x.cname or 'code'),not bad,x.loc(),
             'an error code is stored but the parser carries on (%s returns normally at %s): the failure is forgotten or overwritten by a later one'%(fn,bad[0][0].loc() if bad else ''))
    c.need(n>=25,'error codes stored by the parsers')
def always(f,S,nr,fl):
    """does every path to a return pass one of S"""
    hit={x.blk for x in S}; seen=set(); st=[0]
    while st:
        b=st.pop()
        if b in seen or b in hit: continue
        seen.add(b)
        if f.term(b).op=='ret': return False
        st.extend(f.succ(b))
    return True

# readers that print what is wrong themselves
SAY={'xmlReadMemory','xmlCtxtReadMemory','xmlReadDoc','htmlReadMemory','htmlCtxtReadMemory','htmlReadDoc','htmlParseChunk','yaep_parse','yaepParse','fprintf','printf','puts','perror','fputs','fwrite','putchar','vfprintf'}
def messages(m,c):
    """R11: whenever a document gets an error code it also gets the text of the error, or the reason has been printed"""
    def fieldstore(f,x,name):
        if x.op!='store' or x.o[1][0]!='i': return False
        g=f.insts[x.o[1][1]].g or {}
        return g.get('ow')=='struct.XMQDoc' and bool(g.get('p')) and g['p'][-1]==name
    n=0
    for f in m.defined():
        S=[x for x in f.all() if fieldstore(f,x,'errno_') and x.o[0]!=('c',0)]
        if not S: continue
        def says(x): return (x.op=='call' and x.cname in SAY) or (fieldstore(f,x,'error_') and x.o[0]!=('n',))
        said={b for b in range(len(f.blocks)) if any(says(x) for x in f.blocks[b])}
        # blocks reached from the entry without a message
        quiet=set(); st=[0]
        while st:
            b=st.pop()
            if b in quiet: continue
            quiet.add(b)
            if b in said: continue
            st.extend(f.succ(b))
        for s in S:
            n+=1
            before=s.blk not in quiet or any(says(x) for x in f.blocks[s.blk][:s.pos])
            bad=None
            if not before and not any(says(x) for x in f.blocks[s.blk][s.pos+1:]):
                seen=set(); st=list(f.succ(s.blk)) if f.term(s.blk).op!='ret' else []
                if f.term(s.blk).op=='ret': bad=f.term(s.blk)
                while st and bad is None:
                    b=st.pop()
                    if b in seen or b in said: continue
                    seen.add(b); t=f.term(b)
                    if t.op=='ret': bad=t
                    st.extend(f.succ(b))
            c.ob('R11:%s:message:%s'%(f.name,s.o[0][1] if s.o[0][0]=='c' else 'state'),bad is None,s.loc(),'the document gets an error code but neither the text of the error is kept nor is anything printed')
    c.need(n>0,'error codes of documents')

def f_(m,a,q):
    f=m.funcs.get(a.split(':')[1])
    if q[0]=='i' and f:
        x=f.insts[q[1]]; return '%s %s'%(x.op,x.cname or x.loc())
    return q
def name_codes(Es,inv):
    s=sorted({inv[E[('code','state')]][0] if isinstance(E.get(('code','state')),int) and E[('code','state')] in inv else '?' for E in Es})
    return '+'.join(s)
def bases_val(f,v,W,d=0):
    """field offsets of parse state fields a number derives from"""
    if v[0]!='i' or d>6: return set()
    x=f.insts[v[1]]
    if x.op=='load':
        k=W.key(f,x.o[0]); return {k[1]} if k else set()
    out=set()
    if x.op in('add','sub','zext','sext','trunc'):
        for o in x.o: out|=bases_val(f,o,W,d+1)
    return out
def closure(f,v,src):
    """values a pointer derives from, through pointer arithmetic"""
    out=set(); st=[v]; seen=set()
    while st:
        v=st.pop()
        for q in src(v):
            if q in seen: continue
            seen.add(q); out.add(q)
            if q[0]=='i' and f.insts[q[1]].op=='getelementptr': st.append(f.insts[q[1]].o[0])
    return out
