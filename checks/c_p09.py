"""P9: a value written without quotes, or with the quotes chosen for it, is read back as exactly that value."""
import itertools
import numpy as np
from driver import Check
from util import *
from flow import addr_key
from charset import *
from c_p08 import Heap, s8
SPEC="=&/*'\"(){} \t\n\r a;#x,"
def domain(full=True):
    D=[chr(a) for a in range(1,127)]+([chr(a)+chr(b) for a in range(1,127) for b in range(1,127)] if full else [])
    D+=[x+y+z for x in SPEC for y in SPEC for z in SPEC]
    for u in(0xa0,0x1680,0x2000,0x2003,0x200a,0x200b,0x2028,0x2029,0x202f,0x205f,0x3000,0xe9,0x20ac,0x1f600,0x85,0xfeff):
        c=chr(u); D+=[c,'a'+c,c+'a','a'+c+'b',c+c,'='+c,'/'+c]
    D=[x.encode('utf-8') for x in D]
    return sorted(set(D))
def pack(D,tail):
    n=len(D); W=max(len(d) for d in D)+max(len(t) for t in tail)+4
    B=np.zeros((n,W),dtype=np.int64); LN=np.array([len(d) for d in D],dtype=np.int64)
    for i,d in enumerate(D):
        s=d+tail[i]
        B[i,:len(s)]=list(s)
    return B,LN
def offsets(m,s): return {f[0]:f[2] for f in m.structs['struct.'+s]['fields']}
def at(v,i): return int(v[i]) if isinstance(v,np.ndarray) else int(v)
# ------------------------------------------------------------------ printer: which texts are written bare
def printed_bare(c,m,level,D):
    f=m.funcs['print_value_internal_text']; n=len(D); B,LN=pack(D,[b'']*n)
    po=offsets(m,'XMQPrintState'); oo=offsets(m,'XMQOutputSettings')
    def ldps(o,t):
        if o==po['output_settings']: return Ptr(('os',),0)
        if o in(po['current_indent'],po['line_indent'],po['last_char']): return 1
    def ldos(o,t):
        if t=='ptr': return Ptr(('theme',o),0)
        if o in(oo['compact'],oo['escape_newlines'],oo['escape_non_7bit'],oo['escape_tabs']): return 0
    def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
    def log(mem,it): mem[('log',0)]=(mem.get(('log',0),((),))[0]+(it,),'x')
    STOP={'print_quoted_spaces','print_all_whitespace','print_safe_leaf_quote','print_char_entity','print_quoted_text','print_entity_node'}
    def cm(e,x,args,mask,mem):
        if x.cname in('print_utf8','print_utf8_internal'):
            a=args[3:] if x.cname=='print_utf8' else args[1:]
            if any(isinstance(v,Ptr) and v.base==('buf',) for v in a): mem[(('ps',),po['last_char'])]=(LAST,'i32')
            for k in range(0,len(a)-1,2): log(mem,(a[k],a[k+1]))
            return TOP
        if x.op=='call' and not x.cname: log(mem,(args[1],args[2])) if len(args)==3 else None; return TOP
        if x.cname in STOP:
            if not mem.get(('log',0)): tot[mask]=True; return []      # written some other way
            log(mem,x.cname); return TOP if x.cname!='print_char_entity' else []
        if x.cname and x.cname.startswith(('check_space_','print_white','print_nl','print_color')): return TOP
        return h.model(e,x,args,mask,mem)
    LAST=np.array([(d[-1]^128)-128 for d in D],dtype=np.int64); lastc=np.full(n,-999,dtype=np.int64)
    tot=np.zeros(n,dtype=bool)
    e=Engine(m,n,input_mem={('ps',):ldps,('os',):ldos,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=8000000); h=Heap(e,LN,B)
    bare=np.zeros(n,dtype=bool); und=0
    for mk,v,mem in e.run(f.name,[Ptr(('ps',),0),Ptr(('buf',),0),Ptr(('buf',),LN),level]):
        tot|=mk; lg=mem.get(('log',0),((),))[0]
        if any(isinstance(i,tuple) and isinstance(i[0],Ptr) and i[0].base[0]=='theme' for i in lg): lg=tuple(i for i in lg if not(isinstance(i,tuple) and isinstance(i[0],Ptr) and i[0].base[0]=='theme'))
        if len(lg)==1 and isinstance(lg[0],tuple) and isinstance(lg[0][0],Ptr) and lg[0][0].base==('buf',):
            bare|=mk; l=e.load(Ptr(('ps',),po['last_char']),'i32',mem,mk)
            if l is not TOP and not isinstance(l,Ptr): lastc[mk]=(l+np.zeros(n,dtype=np.int64))[mk]
        elif any(isinstance(i,tuple) and i[0] is TOP for i in lg): und+=1
    if und: c.undecided('printer',where(f),'%d paths write something that is not determined'%und)
    c.ob('printer:total',bool(tot.all()),where(f),'no result for %r'%[D[i] for i in np.nonzero(~tot)[0][:3]])
    return bare,lastc
def where(f): return '%s:%d'%(f.file,f.line)
# ------------------------------------------------------------------ reader: what a bare text is read as
def read(c,m,level,D,tail):
    """per element: (callback name, start, stop, cursor afterwards) of the paths of parse_xmq_value"""
    f=m.funcs['parse_xmq_value']; n=len(D); B,LN=pack(D,tail); TL=np.array([len(d)+len(t) for d,t in zip(D,tail)],dtype=np.int64)
    so=offsets(m,'XMQParseState'); co={v:k for k,v in offsets(m,'XMQParseCallbacks').items()}
    def ldst(o,t):
        if o in(so['i'],so['buffer_start']): return Ptr(('buf',),0)
        if o==so['buffer_stop']: return Ptr(('buf',),TL)
        if o==so['parse']: return Ptr(('cb',),0)
        if o in(so['line'],so['col']): return 1
        if o==so['error_nr']: return 0
    def ldcb(o,t): return Ptr(('fn',o),0)
    def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
    def log(mem,it): mem[('log',0)]=(mem.get(('log',0),((),))[0]+(it,),'x')
    def cm(e,x,args,mask,mem):
        if x.op=='call' and not x.cname:
            v=x.callee; name='?'
            if v[0]=='i' and x.func.insts[v[1]].op=='load':
                k=addr_key(x.func,x.func.insts[v[1]].o[0])
                if k and k[0]=='f' and 'XMQParseCallbacks' in k[1]: name=co.get(k[2],'?')
            log(mem,(name,args[3] if len(args)>4 else TOP,args[4] if len(args)>4 else TOP)); return TOP
        if x.cname in('longjmp','_longjmp'): return []
        return h.model(e,x,args,mask,mem)
    e=Engine(m,n,input_mem={('st',):ldst,('cb',):ldcb,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=12000000); h=Heap(e,LN,B)
    out=[None]*n
    for mk,v,mem in e.run(f.name,[Ptr(('st',),0),level]):
        lg=mem.get(('log',0),((),))[0]
        cur=mem.get((('st',),so['i']),(TOP,))[0]
        for i in np.nonzero(mk)[0]: out[i]=(lg,cur)
    return out
def run(m):
    c=Check('P09','set-valued dataflow of the printer\'s decision to leave a value bare against the reader of bare values',
            'The value printer is analysed for every ASCII character, every pair of them, every triple of characters special in xmq and for unicode whitespace, giving the set of texts written without quotes. For exactly these texts, followed by each separator that can follow a value, the value reader must deliver one text token whose range is the whole text and stop right behind it. The quote count chosen for a text must exceed every run of quotes in it and never be two. The slash count chosen for a comment must exceed the slashes after every asterisk in it, and a compact comment must be written with it. In compact mode the functions that separate tokens must write a space wherever the value reader would take a value and its neighbour for one token, and between two names, quotes and comments. Every other text over letters, spaces, newlines, tabs, carriage returns and quotes (bounded length) must be cut into quotes and character references that give the whole text in order; a value of several tokens must be put in parentheses; no quote may contain what its reader removes. Every quote is printed with its indentation and given to the function that removes the indentation, which must give back the text.')
    c.need('print_value_internal_text' in m.funcs and 'parse_xmq_value' in m.funcs,'value printer and reader')
    LV={k:v for k,v in m.enumvals.items() if k in('LEVEL_ELEMENT_VALUE','LEVEL_ATTR_VALUE')}
    c.need(len(LV)==2,'levels')
    for ln,level in sorted(LV.items()):
        D=[d for d in domain() if d]
        bare,lastc=printed_bare(c,m,level,D)
        c.ob('%s:some'%ln,bool(bare.any()),where(m.funcs['print_value_internal_text']),'nothing is ever written bare')
        S=[D[i] for i in np.nonzero(bare)[0]]
        c.cov['texts written bare (%s)'%ln]=len(S); c.cov['texts analysed']=len(D)
        for tail in(b'\n',b' ',b')',b'}',b''):
            res=read(c,m,level,S,[tail]*len(S)); bad=[]; und=0
            for i,(s,r) in enumerate(zip(S,res)):
                if r is None: bad.append((s,'is rejected')); continue
                lg,cur=r
                if len(lg)!=1: bad.append((s,'is read as %d tokens'%len(lg))); continue
                nm,a,b=lg[0]
                if a is TOP or b is TOP or not isinstance(a,Ptr) or not isinstance(b,Ptr): und+=1; continue
                if not nm.endswith('_value_text'): bad.append((s,'is read as %s'%nm)); continue
                if at(a.off,i)!=0 or at(b.off,i)!=len(s): bad.append((s,'is read as %r'%(s+tail)[at(a.off,i):at(b.off,i)])); continue
                if isinstance(cur,Ptr) and at(cur.off,i)!=len(s): bad.append((s,'leaves the cursor at %d'%at(cur.off,i)))
            if und: c.undecided('%s:%r'%(ln,tail),where(m.funcs['parse_xmq_value']),'%d texts'%und)
            c.ob('%s:bare:%s'%(ln,{b'\n':'nl',b' ':'space',b')':'par',b'}':'brace',b'':'end'}[tail]),not bad,where(m.funcs['print_value_internal_text']),'the text %r is written without quotes but %s'%(bad[0] if bad else ('','')))
        between(c,m,ln,level,D,bare,lastc)
    pieces(c,m,LV); framing(c,m); multiline(c,m); quotes(c,m); slashes(c,m); comments(c,m)
    return c
# ------------------------------------------------------------------ compact printing: neighbours do not merge
NEXT={'LEVEL_ELEMENT_VALUE':(('check_space_before_key',(b'b=1',b'?p=1')),('check_space_before_entity_node',(b'&a;',b'&#160;')),('check_space_before_quote',(b"'q'",)),('check_space_before_comment',(b'/*c*/',b'//*c*//'))),
      'LEVEL_ATTR_VALUE':(('check_space_before_attribute',(b'k=1',)),)}
def between(c,m,ln,level,D,bare,lastc):
    k=[i for i in np.nonzero(bare)[0] if len(D[i])<=2 and not D[i][-1:].isalnum() or D[i] in(b'a',b'1',b'ab')]
    if any(lastc[i]==-999 for i in k): c.undecided('between:'+ln,'','last written character not determined'); k=[i for i in k if lastc[i]!=-999]
    S=[D[i] for i in k]; L=lastc[k]
    for fn,toks in NEXT[ln]:
        f=m.funcs.get(fn)
        if not f or f.decl: continue
        need=np.zeros(len(S),dtype=bool); ex={}
        for t in toks:
            for i,(s,r) in enumerate(zip(S,read(c,m,level,S,[t]*len(S)))):
                ok=r is not None and len(r[0])==1 and isinstance(r[0][0][1],Ptr) and isinstance(r[0][0][2],Ptr) and at(r[0][0][1].off,i)==0 and at(r[0][0][2].off,i)==len(s)
                if not ok: need[i]=True; ex.setdefault(i,t)
        silent=nospace(m,f,L,level)
        bad=[] if silent is None else [i for i in range(len(S)) if need[i] and silent[i]]
        if silent is None: c.undecided('between:%s:%s'%(ln,fn),where(f),'not determined'); continue
        c.cov['pairs of neighbours']=c.cov.get('pairs of neighbours',0)+len(S)*len(toks)
        c.ob('between:%s:%s'%(ln,fn),not bad,where(f),'in compact output the value %r is followed by %r without a space, which is read as one token'%((S[bad[0]],ex[bad[0]]) if bad else ('','')))
    if ln!='LEVEL_ELEMENT_VALUE': return
    # after something else than a value: the last character tells the kind of token
    name=[ord(ch) for ch in 'abzAZ019_'] 
    for fn,last,what in(('check_space_before_key',name,'a name and a name'),('check_space_before_attribute',name,'a name and a name'),('check_space_before_quote',[39],'a quote and a quote'),('check_space_before_comment',[47],'a comment and a comment')):
        f=m.funcs.get(fn)
        if not f or f.decl: continue
        silent=nospace(m,f,np.array(last,dtype=np.int64),level)
        if silent is None: c.undecided('between:%s'%fn,where(f),'not determined'); continue
        c.ob('between:%s:%s'%(what.split()[1],fn),not silent.any(),where(f),'in compact output %s are written without a space between them'%what)
def nospace(m,f,L,level):
    """last characters after which a function that separates tokens writes nothing in compact mode"""
    n=len(L); po=offsets(m,'XMQPrintState'); oo=offsets(m,'XMQOutputSettings')
    def ldps(o,t):
        if o==po['output_settings']: return Ptr(('os',),0)
        if o==po['last_char']: return simp(L)
        if o in(po['current_indent'],po['line_indent']): return 1
    def ldos(o,t):
        if o==oo['compact']: return 1
    def cm(e,x,args,mask,mem):
        if x.cname and x.cname.startswith(('print_white','print_nl')): mem[('space',0)]=(1,'x'); return TOP
        return NotImplemented
    e=Engine(m,n,input_mem={('ps',):ldps,('os',):ldos},call_model=cm,max_paths=20000,max_steps=400000)
    out=np.zeros(n,dtype=bool)
    try: res=e.run(f.name,[Ptr(('ps',),0)]+[level]*(len(f.params)-1))
    except Limit: return None
    for mk,v,mem in res:
        if ('space',0) not in mem: out|=mk
    return out
def quotes(c,m):
    if 'count_necessary_quotes' not in m.funcs: c.undecided('quotes','','count_necessary_quotes is gone'); return
    f=m.funcs['count_necessary_quotes']
    D=[''.join(t).encode() for k in range(1,7) for t in itertools.product("'a ",repeat=k)]
    D+=[b'a'+b"'"*k+b'b' for k in range(7,12)]+[b"'"*k+b'b' for k in range(7,12)]+[b'a'+b"'"*5+b'b'+b"'"*9+b'c']+[b'a\n'+b"'"*k+b'\nb' for k in range(1,6)]
    n=len(D); B,LN=pack(D,[b'']*n); w=where(f)
    def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
    def cm(e,x,args,mask,mem): return h.model(e,x,args,mask,mem)
    for compact in(0,1):
        e=Engine(m,n,input_mem={('buf',):ldb,('nl',):lambda o,t:0,('cp',):lambda o,t:0},call_model=cm,max_paths=300000,max_steps=12000000); h=Heap(e,LN,B)
        args=[];pn=0
        for t,nm in f.params:
            args.append({'start':Ptr(('buf',),0),'stop':Ptr(('buf',),LN),'compact':compact,'add_nls':Ptr(('nl',),0),'add_compound':Ptr(('cp',),0)}.get(nm,TOP))
        tot=np.zeros(n,dtype=bool); bad=[]; und=0
        for mk,v,mem in e.run(f.name,args):
            tot|=mk
            if v is TOP or isinstance(v,Ptr): und+=1; continue
            nl=mem.get((('nl',),0),(0,))[0]; cp=mem.get((('cp',),0),(0,))[0]
            for i in np.nonzero(mk)[0]:
                s=D[i]; q=at(v,i); mx=max((len(list(g)) for k,g in itertools.groupby(s) if k==39),default=0)
                N=None if nl is TOP else at(nl,i)&1; C=None if cp is TOP else at(cp,i)&1
                if q==0:
                    if mx or b' ' in s or b'\n' in s: bad.append((s,'no quotes'))
                    continue
                if q<=mx: bad.append((s,'%d quotes'%q))
                if q==2: bad.append((s,'two quotes'))
                if (s[:1]==b"'" or s[-1:]==b"'") and N==0 and C==0: bad.append((s,'no newline and no compound'))
        if und: c.undecided('quotes:%d'%compact,w,'%d paths'%und)
        c.ob('quotes:%s'%('compact' if compact else 'normal'),not bad and bool(tot.all()),w,'the text %r is given %s'%(bad[0] if bad else ('?','no result')))
    c.cov['quoted texts']=n
def slashes(c,m):
    if 'count_necessary_slashes' not in m.funcs: c.undecided('slashes','','count_necessary_slashes is gone'); return
    import re
    f=m.funcs['count_necessary_slashes']; w=where(f)
    D=[''.join(t).encode() for k in range(1,8) for t in itertools.product("*/a",repeat=k)]+[b'x*'+b'/'*k+b'y' for k in range(6,12)]
    n=len(D); B,LN=pack(D,[b'']*n)
    def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
    e=Engine(m,n,input_mem={('buf',):ldb},call_model=lambda *a: h.model(*a),max_paths=300000,max_steps=12000000); h=Heap(e,LN,B)
    tot=np.zeros(n,dtype=bool); bad=[]; und=0
    for mk,v,mem in e.run(f.name,[Ptr(('buf',),0),Ptr(('buf',),LN)]):
        tot|=mk
        if v is TOP or isinstance(v,Ptr): und+=1; continue
        for i in np.nonzero(mk)[0]:
            need=1+max((len(x)-1 for x in re.findall(rb'\*/+',D[i])),default=0)
            if at(v,i)<need: bad.append((D[i],at(v,i)))
    if und: c.undecided('slashes',w,'%d paths'%und)
    c.ob('slashes',not bad and bool(tot.all()),w,'the comment %r is surrounded with %s slashes'%(bad[0] if bad else ('?','no result')))
    c.cov['comment texts']=n
def comments(c,m):
    """what is written for a comment on one line in compact mode: one block comment, closed by more slashes than follow any asterisk in it"""
    import re
    f=m.funcs.get('print_comment_node')
    if not f or f.decl: c.undecided('comments','','print_comment_node is gone'); return
    D=[''.join(t).encode() for k in range(1,6) for t in itertools.product("*/a",repeat=k)]; w=where(f)
    n=len(D); B,LN=pack(D,[b'']*n); po=offsets(m,'XMQPrintState'); oo=offsets(m,'XMQOutputSettings')
    def ldps(o,t):
        if o==po['output_settings']: return Ptr(('os',),0)
        if o in(po['current_indent'],po['line_indent'],po['last_char']): return 1
    def ldos(o,t):
        if o==oo['compact']: return 1
        if t=='ptr': return Ptr(('theme',o),0)
    def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
    def log(mem,it): mem[('log',0)]=(mem.get(('log',0),((),))[0]+(it,),'x')
    def cm(e,x,args,mask,mem):
        if x.cname=='xml_element_content': return Ptr(('buf',),0)
        if x.cname=='print_utf8':
            a=args[3:]
            for k in range(0,len(a)-1,2): log(mem,(a[k],a[k+1]))
            return TOP
        if x.cname=='print_slashes': log(mem,('/',args[1],args[2],args[3])); return TOP
        if x.cname and x.cname.startswith(('check_space_','print_white','print_nl')): return TOP
        return h.model(e,x,args,mask,mem)
    def piece(a,b,i):
        if not isinstance(a,Ptr): return None if a is TOP else b''
        if a.base[0]=='g':
            t=m.cstr(('g',a.base[1])); return None if t is None else t[at(a.off,i):]
        if a.base==('buf',):
            if isinstance(b,Ptr) and b.base==a.base: return D[i][at(a.off,i):at(b.off,i)]
            if b==0: return D[i][at(a.off,i):]
        return None
    e=Engine(m,n,input_mem={('ps',):ldps,('os',):ldos,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=12000000); h=Heap(e,LN,B)
    bad=[]; und=0
    try: res=e.run(f.name,[Ptr(('ps',),0),Ptr(('node',),0)])
    except Limit as x: c.undecided('comments',w,'too many paths'); return
    for mk,v,mem in res:
        lg=mem.get(('log',0),((),))[0]
        for i in np.nonzero(mk)[0]:
            out=b''
            for it in lg:
                if it[0]=='/':
                    ps=[piece(it[1],0,i),b'/'*at(it[3],i) if it[3] is not TOP else None,piece(it[2],0,i)]
                else: ps=[piece(it[0],it[1],i)]
                if any(q is None for q in ps): out=None; break
                out+=b''.join(ps)
            if out is None: und+=1; continue
            r=re.match(rb'(/+)\*',out); k=len(r.group(1)) if r else 0
            end=b'*'+b'/'*k
            if not k or not out.endswith(end) or out[k+1:-len(end)]!=D[i] or any(len(y)-1>=k for y in re.findall(rb'\*/+',D[i])): bad.append((D[i],out))
    if und: c.undecided('comments',w,'%d texts not determined'%und)
    c.ob('comments:compact',not bad,w,'the comment %r is written as %r'%(bad[0] if bad else ('','')))

# ------------------------------------------------------------------ values that are not written bare: how they are cut into quotes and character references
WS=b' \t\n\r'
def lossy(p,compact):
    """rules of the notation: what a quote around p loses when it is read (r1-r6 in doc/xmq.tex)"""
    own=p[:1]==b"'" or p[-1:]==b"'" or b"'''" in p and not compact      # such a quote stands on lines of its own
    if own and compact: return 'needs lines of its own in compact output'
    if b'\n' in p and compact: return 'has a newline in compact output'
    if b'\r' in p: return 'has a carriage return that is read as a newline'
    if own and (p[:1] in b' \t\n' or p[-1:] in b' \t\n'): return 'loses the white space at its ends'
    if b'\n' in p:
        lead=p[:len(p)-len(p.lstrip(b' \t\n'))]; end=p[len(p.rstrip(b' \t\n')):]
        if lead==p: return None if p.strip(b'\n')==b'' and len(p)>1 else 'is nothing but white space with a newline'
        if b'\n' in lead and lead.strip(b'\n'): return 'loses white space before its first character'
        if b'\n' in end and end.strip(b'\n'): return 'loses white space after its last character'
        for l in p.split(b'\n')[:-1]:
            if l[-1:] in b' \t' and l: return 'loses white space at the end of a line'
    return None
def pieces(c,m,LV):
    f=m.funcs['print_value_internal_text']; w=where(f); q=m.funcs.get('quote_needs_compounded')
    if not present(c,m,'pieces','print_safe_leaf_quote','print_quoted_spaces','print_char_entity','print_utf8'): return
    po=offsets(m,'XMQPrintState'); oo=offsets(m,'XMQOutputSettings')
    fam=[''.join(t).encode() for k in range(1,5) for t in itertools.product("a '\n\t",repeat=k)]+[''.join(t).encode() for k in range(1,4) for t in itertools.product("a '\n\r",repeat=k)]+[b"a'''b",b" a'''b",b"a'''b ",b"a\n'''\nb",b"a''b''''c"]
    fam=sorted(set(fam))
    for lname,level in sorted(LV.items()):
      for compact in(0,1):
        bad={}; und=0; tot=0; split=0
        for ln in sorted({len(d) for d in fam}):
            D=[d for d in fam if len(d)==ln]; n=len(D); B,LN=pack(D,[b'']*n)
            def ldps(o,t):
                if o==po['output_settings']: return Ptr(('os',),0)
                if o in(po['current_indent'],po['line_indent'],po['last_char']): return 1
            def ldos(o,t):
                if t=='ptr': return Ptr(('theme',o),0)
                if o==oo['compact']: return compact
                if o==oo['escape_newlines']: return compact      # compact output escapes newlines, set by the printer of documents
                if o in(oo['escape_non_7bit'],oo['escape_tabs']): return 0
            def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
            def log(mem,it): mem[('log',0)]=(mem.get(('log',0),((),))[0]+(it,),'x')
            def cm(e,x,args,mask,mem):
                if x.cname=='print_safe_leaf_quote': log(mem,('q',args[-2],args[-1])); return TOP
                if x.cname=='print_quoted_spaces': log(mem,('s',args[-1],None)); return TOP
                if x.cname=='print_char_entity': log(mem,('e',args[-2],None)); return 1
                if x.cname in('print_utf8','print_utf8_internal'):
                    a=args[3:] if x.cname=='print_utf8' else args[1:]
                    for k in range(0,len(a)-1,2): log(mem,('t',a[k],a[k+1]))
                    return TOP
                if x.cname and x.cname.startswith(('check_space_','print_white','print_nl','print_color')): return TOP
                if x.op=='call' and not x.cname: return TOP      # colours
                return h.model(e,x,args,mask,mem)
            def kinds(lg,i):
                out=[]
                for k,a,b in lg:
                    if k=='s':
                        if a is TOP or isinstance(a,Ptr): return None
                        out.append((k,b' '*at(a,i))); continue
                    if not isinstance(a,Ptr): return None
                    if a.base==('buf',):
                        s=at(a.off,i)
                        if k=='e': out.append((k,D[i][s:s+1])); continue
                        e_=at(b.off,i) if isinstance(b,Ptr) else ln if b==0 else None
                        if e_ is None: return None
                        out.append((k,D[i][s:e_])); continue
                    if a.base[0]=='theme': continue
                    if a.base[0]=='g':
                        s=m.cstr(('g',a.base[1]))
                        if s==b"''": out.append(('s',b'')); continue
                        if s==b'&apos;': out.append(('e',b"'")); continue
                    return None
                return out
            e=Engine(m,n,input_mem={('ps',):ldps,('os',):ldos,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=8000000,max_depth=16); h=Heap(e,LN,B)
            need=np.ones(n,dtype=bool)
            if q and not q.decl:
                need=np.zeros(n,dtype=bool); unk=np.zeros(n,dtype=bool)
                try:
                    for mk,v,mem in e.run(q.name,[Ptr(('ps',),0),Ptr(('buf',),0),Ptr(('buf',),ln)]):
                        if v is TOP: unk|=mk
                        else: need[mk]=((v+np.zeros(n,dtype=np.int64))&1)[mk]!=0
                except Limit: unk[:]=True
                if unk.any(): c.undecided('compound:%s:%d:%d'%(lname,compact,ln),where(q),'%d texts'%unk.sum()); need|=unk
            try: res=e.run(f.name,[Ptr(('ps',),0),Ptr(('buf',),0),Ptr(('buf',),ln),level])
            except Limit: c.undecided('pieces:%s:%d:%d'%(lname,compact,ln),w,'too many paths'); continue
            seen=np.zeros(n,dtype=bool)
            for mk,v,mem in res:
                lg=mem.get(('log',0),((),))[0]; seen|=mk
                for i in np.nonzero(mk)[0]:
                    ps=kinds(lg,i); tot+=1
                    if ps is None: und+=1; continue
                    split+=len(ps)>1
                    if b''.join(x for k,x in ps)!=D[i]: bad.setdefault('whole',(D[i],'is written as the pieces %r'%[x for k,x in ps]))
                    for k,x in ps:
                        if k=='q':
                            l=lossy(x,compact) if x else 'is empty'
                            if l: bad.setdefault('quote',(D[i],'is written with the quote %r, which %s'%(x,l)))
                    if len(ps)>1 and not need[i]: bad.setdefault('compound',(D[i],'is written as the %d tokens %r without parentheses around them'%(len(ps),[x for k,x in ps])))
            if not seen.all(): und+=int((~seen).sum())
        if und: c.undecided('pieces:%s:%d'%(lname,compact),w,'%d texts not determined'%und)
        for k in('whole','quote','compound'):
            d=bad.get(k)
            c.ob('pieces:%s:%s:%s'%(k,lname,'compact' if compact else 'normal'),not d,where(q) if k=='compound' and q else w,'the text %r %s'%(d or ('','')))
        c.cov['texts cut into pieces']=c.cov.get('texts cut into pieces',0)+tot; c.cov['texts written as several tokens']=c.cov.get('texts written as several tokens',0)+split

def framing(c,m):
    """one quote: opening quotes, maybe a line break, the text, maybe a line break, as many closing quotes"""
    f=m.funcs.get('print_safe_leaf_quote')
    if not f or f.decl: c.undecided('framing','','print_safe_leaf_quote is gone'); return
    if not present(c,m,'framing','print_quotes','print_nl_and_indent','print_quote_lines_and_color_uwhitespace'): return
    w=where(f); po=offsets(m,'XMQPrintState'); oo=offsets(m,'XMQOutputSettings')
    for compact in(0,1):
        D=[''.join(t).encode() for k in range(1,6) for t in itertools.product("a '",repeat=k)]
        if compact: D=[d for d in D if d[:1]!=b"'" and d[-1:]!=b"'"]
        D+=[b'a'+b"'"*k+b'b' for k in range(4,9)]+([] if compact else [b'a\nb',b"a\n'''\nb"])
        n=len(D); B,LN=pack(D,[b'']*n)
        def ldps(o,t):
            if o==po['output_settings']: return Ptr(('os',),0)
            if o==po['current_indent']: return 4
            if o in(po['line_indent'],po['last_char']): return 1
        def ldos(o,t):
            if t=='ptr': return Ptr(('theme',o),0)
            if o==oo['compact']: return compact
        def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
        def log(mem,it): mem[('log',0)]=(mem.get(('log',0),((),))[0]+(it,),'x')
        def cm(e,x,args,mask,mem):
            if x.cname=='print_quotes': log(mem,('Q',args[1])); return TOP
            if x.cname in('print_nl_and_indent','print_nl'): log(mem,('N',)); return TOP
            if x.cname=='print_quote_lines_and_color_uwhitespace': log(mem,('T',args[-2],args[-1])); return TOP
            if x.cname and x.cname.startswith(('check_space_','print_white')): return TOP
            if x.op=='call' and not x.cname: return TOP
            return h.model(e,x,args,mask,mem)
        e=Engine(m,n,input_mem={('ps',):ldps,('os',):ldos,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=8000000,max_depth=16); h=Heap(e,LN,B)
        try: res=e.run(f.name,[Ptr(('ps',),0)]+[0]*(len(f.params)-3)+[Ptr(('buf',),0),Ptr(('buf',),LN)])
        except Limit: c.undecided('framing:%d'%compact,w,'too many paths'); continue
        bad=[]; und=0; seen=np.zeros(n,dtype=bool)
        for mk,v,mem in res:
            lg=mem.get(('log',0),((),))[0]; seen|=mk
            sh=''.join(x[0] for x in lg)
            for i in np.nonzero(mk)[0]:
                d=D[i]; mx=max((len(list(g)) for k,g in itertools.groupby(d) if k==39),default=0)
                if sh not in('QTQ','QNTNQ'): bad.append((d,'is written as %s'%sh)); continue
                q=[x for x in lg if x[0]=='Q']; tt=[x for x in lg if x[0]=='T'][0]
                if any(x[1] is TOP for x in q) or not isinstance(tt[1],Ptr) or not isinstance(tt[2],Ptr): und+=1; continue
                a,b=at(q[0][1],i),at(q[1][1],i)
                if a!=b: bad.append((d,'is opened with %d quotes and closed with %d'%(a,b)))
                elif a<=mx or a==2 or a<1: bad.append((d,'is surrounded with %d quotes'%a))
                if (at(tt[1].off,i),at(tt[2].off,i))!=(0,len(d)): bad.append((d,'is not written completely'))
                if compact and 'N' in sh: bad.append((d,'is written on several lines in compact output'))
                if not compact and (d[:1]==b"'" or d[-1:]==b"'") and 'N' not in sh: bad.append((d,'is written next to its quotes, which makes them more'))
        und+=int((~seen).sum())
        if und: c.undecided('framing:%d'%compact,w,'%d texts not determined'%und)
        c.ob('framing:%s'%('compact' if compact else 'normal'),not bad,w,'the text %r %s'%(bad[0] if bad else ('','')))
        c.cov['framed texts']=c.cov.get('framed texts',0)+n

def present(c,m,what,*names):
    """the functions whose calls are the steps of the output; another division of the work is not judged"""
    called={x.cname for g in m.funcs.values() for x in g.insts.values() if x.op=='call'}
    gone=[n for n in names if n not in m.funcs or m.funcs[n].decl or n not in called]
    if gone: c.undecided(what,'',', '.join(gone)+' is gone')
    return not gone
def multiline(c,m):
    """a quoted text, printed at some column, and read back by the function that removes the indentation"""
    names=('print_safe_leaf_quote','print_quotes','print_nl_and_indent','print_nl','print_white_spaces','print_utf8_char')
    f=m.funcs.get('print_safe_leaf_quote'); g=m.funcs.get('xmq_un_quote')
    if not present(c,m,'multiline',*names) or not g or g.decl: return
    w=where(f); po=offsets(m,'XMQPrintState'); oo=offsets(m,'XMQOutputSettings')
    fam=[''.join(t).encode() for k in range(1,6) for t in itertools.product("a '\n",repeat=k)]
    fam+=[b'\n\na\n b\n\n\n c\n\n',b'  a\n b\n   c',b'a\n\n\n  b',b"a\n'''\n  b",b'a\tb\n\tc\nd',b'a\n\tb',b"  a\n  b",b"\n\n\na",b"a\n\n\n\n",b"'\n  a\n b",b"a'b''c\n'''d"]
    fam=[d for d in sorted(set(fam)) if lossy(d,0) is None]
    for ind in(0,4):
        printed={}; und=0
        for ln in sorted({len(d) for d in fam}):
            D=[d for d in fam if len(d)==ln]; n=len(D); B,LN=pack(D,[b'']*n)
            def ldps(o,t):
                if o==po['output_settings']: return Ptr(('os',),0)
                if o in(po['current_indent'],po['line_indent']): return ind
                if o in(po['restart_line'],po['last_char']): return 0
            def ldos(o,t):
                if t=='ptr': return Ptr(('theme',o),0)
                if o==oo['compact']: return 0
            def ldb(o,t): return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
            def log(mem,it): mem[('log',0)]=(mem.get(('log',0),((),))[0]+(it,),'x')
            def cm(e,x,args,mask,mem):
                ci=Ptr(('ps',),po['current_indent'])
                def add(k,z=False):
                    v=0 if z else e.load(ci,'i64',mem,mask)
                    e.store(ci,TOP if v is TOP or k is TOP else simp(v+k),'i64',mem)
                if x.cname=='print_quotes': log(mem,("'",args[1])); add(args[1]); return TOP
                if x.cname=='print_white_spaces': log(mem,(' ',args[1])); add(args[1]); return TOP
                if x.cname=='print_nl': log(mem,('\n',1)); add(0,True); return TOP
                if x.cname=='print_nl_and_indent':
                    l=e.load(Ptr(('ps',),po['line_indent']),'i64',mem,mask); log(mem,('\n',1)); log(mem,(' ',l)); add(l,True); return TOP
                if x.cname=='print_utf8_char': log(mem,('c',args[1])); add(1); return 1
                if x.cname and x.cname.startswith(('check_space_','print_color','getTheme')): return TOP
                if x.op=='call' and not x.cname:
                    if len(args)==3 and isinstance(args[1],Ptr) and args[1].base==('buf',): log(mem,('?',0))
                    return TOP
                return h.model(e,x,args,mask,mem)
            e=Engine(m,n,input_mem={('ps',):ldps,('os',):ldos,('buf',):ldb},call_model=cm,max_paths=300000,max_steps=12000000,max_depth=16); h=Heap(e,LN,B)
            try: res=e.run(f.name,[Ptr(('ps',),0)]+[0]*(len(f.params)-3)+[Ptr(('buf',),0),Ptr(('buf',),ln)])
            except Limit: c.undecided('multiline:%d'%ind,w,'too many paths'); return
            for mk,v,mem in res:
                lg=mem.get(('log',0),((),))[0]
                for i in np.nonzero(mk)[0]:
                    out=b''
                    for k,a in lg:
                        if k=='?' or a is TOP or (k=='c')!=isinstance(a,Ptr): out=None; break
                        out+=D[i][at(a.off,i):at(a.off,i)+1] if k=='c' else k.encode()*at(a,i)
                    if out is None or D[i] in printed and printed[D[i]]!=out: und+=1; continue
                    printed[D[i]]=out
        bad=[]; L=sorted(printed.items())
        for ln in sorted({len(o) for d,o in L}):
            S=[x for x in L if len(x[1])==ln]; D=[x[1] for x in S]; n=len(D); B,LN=pack(D,[b'\n']*n)
            out_=[]; unknown=[]
            def ldr(o,t):
                if t=='i8' and not 0<=o<=ln and not unknown: out_.append(o)
                return s8(B[:,o]) if t=='i8' and 0<=o<B.shape[1] else None
            def cm2(e,x,args,mask,mem):
                r=cm3(e,x,args,mask,mem)
                if r is NotImplemented and (not x.cname or m.funcs[x.cname].decl if x.cname in m.funcs else True) and not(x.cname or '').startswith(('llvm.dbg','llvm.lifetime')): unknown.append(x.cname)
                return r
            def cm3(e,x,args,mask,mem):
                if x.cname in('strndup','xmlStrndup') and isinstance(args[0],Ptr) and isinstance(args[1],(int,np.ndarray)):
                    out=[]
                    for u in np.unique(args[1]+np.zeros(n,dtype=np.int64)):
                        mm=mask&((args[1]+np.zeros(n,dtype=np.int64))==u)
                        if not mm.any(): continue
                        h.k+=1; q=Ptr(('heap',h.k),0); me=mem.copy(); h.copy(e,q,args[0],int(u),me,mm); e.store(Ptr(q.base,int(u)),0,'i8',me); out.append((mm,q,me))
                    return out
                if x.cname and x.cname.startswith('llvm.memset') and isinstance(args[0],Ptr) and isinstance(args[0].off,int) and isinstance(args[2],int) and args[2]<=64:
                    for k in range(args[2]): e.store(Ptr(args[0].base,args[0].off+k),args[1],'i8',mem)
                    return TOP
                return h.model(e,x,args,mask,mem)
            e=Engine(m,n,input_mem={('buf',):ldr},call_model=cm2,max_paths=300000,max_steps=20000000,max_depth=16); h=Heap(e,LN,B)
            args=[]
            for k,(t_,nm) in enumerate(g.params): args.append([ind,32,Ptr(('buf',),0),Ptr(('buf',),ln),1][k] if k<5 else 0)
            res=[]
            try: res=e.run(g.name,args)
            except Limit: pass
            if out_: bad.append((S[0][0],S[0][1],'something beyond the end of the quote (byte %d)'%out_[0])); continue
            seen=np.zeros(n,dtype=bool)
            for mk,v,mem in res:
                seen|=mk
                if not isinstance(v,Ptr) or not isinstance(v.off,int): und+=int(mk.sum()); continue
                col=[]
                for k in range(ln+ind+8):
                    b=e.load(Ptr(v.base,v.off+k),'i8',mem,mk); col.append(b)
                    if b is TOP or isinstance(b,int) and b==0: break
                for i in np.nonzero(mk)[0]:
                    o=b''
                    for b in col:
                        if b is TOP or isinstance(b,Ptr): o=None; break
                        if at(b,i)==0: break
                        o+=bytes([at(b,i)&255])
                    if o is None: und+=1; continue
                    if o!=S[i][0]: bad.append((S[i][0],S[i][1],o))
            und+=int((~seen).sum())
        if und: c.undecided('multiline:%d'%ind,w,'%d texts not determined'%und)
        c.ob('multiline:%d'%ind,not bad,where(g),'the text %r is printed at column %d as %r and read back as %r'%((bad[0][0],ind)+bad[0][1:] if bad else ('',ind,'','')))
        c.cov['quoted texts printed and read']=c.cov.get('quoted texts printed and read',0)+len(printed)
