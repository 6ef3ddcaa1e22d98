"""P32: a JSON string, keyword or C quoted text is read as exactly the text it denotes."""
import numpy as np
from driver import Check
from util import *
from charset import *
from c_p08 import Heap, s8, outbytes, enc
class Collector(Heap):
    """what is appended to a memory buffer on this path"""
    def put(self,mem,v):
        k=mem.get((('out',),'n'),0); mem[(('out',),k)]=(v,'i8'); mem[(('out',),'n')]=k+1
    def model(self,e,x,args,mask,mem):
        n=x.cname or ''
        if n=='new_membuffer': mem[(('out',),'n')]=0; return Ptr(('mb',),0)
        if n=='membuffer_append_char': self.put(mem,args[1]); return TOP
        if n=='membuffer_append_null': self.put(mem,0); return TOP
        if n in('membuffer_append','membuffer_append_region') and isinstance(args[1],Ptr):
            a=args[1]
            if n=='membuffer_append':
                s=e.m.cstr(('g',a.base[1])) if a.base[0]=='g' else None
                if s is None or not isinstance(a.off,int): raise Limit('unknown text appended')
                for ch in s[a.off:]: self.put(mem,s8(ch))
                return TOP
            b=args[2]
            if isinstance(b,Ptr) and b.base==a.base:
                d=simp(b.off-a.off); out=[]
                if isinstance(d,np.ndarray):
                    for u in np.unique(d[mask]):
                        if u<0 or u>64: raise Limit('length of appended text')
                        me=mem.copy(); mm=mask&(d==u)
                        for k in range(int(u)): self.put(me,e.load(Ptr(a.base,a.off+k),'i8',me,mm))
                        out.append((mm,TOP,me))
                    return out
                for k in range(d): self.put(mem,e.load(Ptr(a.base,a.off+k),'i8',mem,mask))
                return TOP
            raise Limit('unknown text appended')
        if n=='membuffer_used': return mem.get((('out',),'n'),0)
        if n in('free_membuffer_but_return_trimmed_content','membuffer_content'): return Ptr(('out',),0)
        if n.startswith('free_membuffer'): return TOP
        return Heap.model(self,e,x,args,mask,mem)
def texts(L):
    w=max(map(len,L)); B=np.zeros((len(L),w+2),dtype=np.int64)
    a=np.frombuffer(b''.join(t.ljust(w,b'\0') for t in L),dtype=np.uint8).reshape(len(L),w); B[:,:w]=a
    return B,np.array([len(t) for t in L],dtype=np.int64)
def state_fields(m,names):
    """byte offsets of fields of the parse state"""
    off={}
    for g in m.defined():
        for x in g.all():
            if x.op=='getelementptr' and x.g and x.g.get('ow')=='struct.XMQParseState' and x.g.get('p') and 'off' in x.g: off.setdefault(str(x.g['p'][-1]),x.g['off'])
    return {n:off.get(n) for n in names}
def run(m):
    c=Check('P32','set-valued dataflow of the readers of JSON strings, JSON keywords and C escapes over families of texts (LLVM IR)',
            'The reader of JSON strings is interpreted with sets of texts: every character, every character after a backslash, every four digit number in lower and upper case, every surrogate pair, every wrong digit, texts that end too early. On each path of the code the appended bytes, as functions of the text, must be the bytes the JSON standard prescribes and the reading position must be directly after the string; texts that are no JSON string must not be accepted. Texts quoted as C are interpreted forward through the quoting routine and back through the unquoting routine and must come back unchanged.')
    f=m.funcs.get('eat_json_quote')
    c.need(f is not None and not f.decl,'eat_json_quote')
    O=state_fields(m,('i','buffer_stop','line','col'))
    c.need(O['i'] is not None and O['buffer_stop'] is not None,'position fields of the parse state')
    where='%s:%d'%(f.file,f.line)
    cnt=0
    def family(label,L,want):
        """want[k]: bytes, or None when the text must be refused"""
        nonlocal cnt
        B,LN=texts(L); n=len(L); cnt+=n
        def ld(off,t): return s8(B[:,off]) if t=='i8' and 0<=off<B.shape[1] else None
        e=Engine(m,n,input_mem={('buf',):ld},max_paths=200000,max_steps=8000000); h=Collector(e,LN,B); e.cm=h.model
        mem={}
        e.store(Ptr(('state',),O['i']),Ptr(('buf',),0),'ptr',mem); e.store(Ptr(('state',),O['buffer_stop']),Ptr(('buf',),simp(LN)),'ptr',mem)
        tot=np.zeros(n,dtype=bool); bad=[]; und=0
        try: paths=e.run(f.name,[Ptr(('state',),0),Ptr(('cs',),0),Ptr(('ct',),0)],mem=mem)
        except Limit as x: c.undecided('json:'+label,where,'too many paths: %s'%x); return
        for mk,v,me in paths:
            tot|=mk; a=e.load(Ptr(('cs',),0),'ptr',me,mk); z=e.load(Ptr(('ct',),0),'ptr',me,mk); pos=e.load(Ptr(('state',),O['i']),'ptr',me,mk)
            if not(isinstance(a,Ptr) and isinstance(z,Ptr) and a.base==z.base==('out',) and isinstance(a.off,int) and isinstance(z.off,int) and isinstance(pos,Ptr) and pos.base==('buf',)): und+=int(mk.sum()); continue
            ob=[me.get((('out',),k),(TOP,))[0] for k in range(a.off,z.off)]
            if any(x is TOP or isinstance(x,Ptr) for x in ob): und+=int(mk.sum()); continue
            cols=[(x+np.zeros(n,dtype=np.int64))&255 for x in ob]
            M=np.stack(cols,1).astype(np.uint8) if cols else np.zeros((n,0),dtype=np.uint8)
            p=pos.off+np.zeros(n,dtype=np.int64)
            for i in np.nonzero(mk)[0]:
                got=M[i].tobytes(); w=want[i]
                if w is None: bad.append('%r is accepted as %r'%(L[i],got))
                elif got!=w[0]: bad.append('%r is read as %r instead of %r'%(L[i],got,w[0]))
                elif p[i]!=w[1]: bad.append('reading continues %d characters into %r instead of %d'%(p[i],L[i],w[1]))
                if len(bad)>2: break
        for i in np.nonzero(~tot)[0]:
            if want[i] is not None: bad.append('%r is refused'%L[i]); break
        c.ob('json:'+label,not bad,where,'; '.join(bad[:3]))
        if und: c.undecided('json:'+label,where,'text of %d inputs not determined'%und)
    def J(label,bodies):
        """bodies of strings, followed by something else; the oracle is a JSON decoder"""
        L=[];W=[]
        for b in bodies:
            t=b'"'+b+b'"'; L.append(t+b',"'); W.append(oracle(L[-1]))
        family(label,L,W)
    J('char',[bytes([k]) for k in range(32,256) if k not in(34,92)])
    J('escape',[b'\\'+bytes([k]) for k in range(1,256) if k not in(34,ord('u'))]+[b'\\"'])
    J('pairs',[a+b for a in ESC for b in ESC])
    J('unicode',[b'\\u%04x'%k for k in range(1,0x10000)]); J('UNICODE',[b'\\u%04X'%k for k in range(1,0x10000)])
    J('digit',[b'\\u'+b'00e5'[:p]+bytes([k])+b'00e5'[p+1:] for p in range(4) for k in range(1,256) if k!=34])
    his=range(0xd800,0xdc00); los=range(0xdc00,0xe000)
    edge=lambda r:[r[0],r[1],r[0x155],r[0x2aa],r[-2],r[-1]]
    for k in range(0,1024,64): J('pair%03x'%k,[b'\\u%04x\\u%04X'%(h,l) for h in his[k:k+64] for l in los])
    J('lone',[b'\\u%04x'%h+t for h in edge(his)+edge(los) for t in(b'',b'x',b'\\n',b'\\u0041',b'\\ud800',b'\\u',b'\\u12',b'xxxxxx',b'\\xdc00',b'udc000')])
    tr=[]
    for t in(b'"abc\\n"',b'"\\u00e5x"',b'"\\ud83d\\ude00"',b'"\\\\"',b'"\\""',b'""'): tr+=[t[:k] for k in range(1,len(t))]
    family('truncated',tr,[None]*len(tr))
    # ---- true, false, null: recognized exactly, and read to their end
    for rec,eat,words in(('is_json_boolean','eat_json_boolean',(b'true',b'false')),('is_json_null','eat_json_null',(b'null',))):
        r=m.funcs.get(rec); g=m.funcs.get(eat)
        if not r or r.decl: continue
        L=[];W=[]
        for w in(b'true',b'false',b'null'):
            for t in(b'',b',',b']',b'}',b' ',b'\n',b'\t'):
                L.append(w+t); W.append(w in words)
            for k in range(1,len(w)): L.append(w[:k]); W.append(False)
            for k in range(len(w)):
                for ch in range(1,128):
                    if ch!=w[k]: L.append(w[:k]+bytes([ch])+w[k+1:]+b','); W.append(False)
        def interp(fn,L):
            B,LN=texts(L); n=len(L)
            def ld(off,t): return s8(B[:,off]) if t=='i8' and 0<=off<B.shape[1] else None
            e=Engine(m,n,input_mem={('buf',):ld},max_paths=200000,max_steps=4000000); h=Heap(e,LN,B); mem={}
            def model(e,x,args,mask,mem):
                if x.cname in('strncmp','memcmp') and isinstance(args[1],Ptr) and args[1].base==('buf',) and isinstance(args[0],Ptr) and args[0].base[0]=='g': args=[args[1],args[0],args[2]]
                if x.cname=='memcmp' and isinstance(args[0],Ptr) and args[0].base==('buf',): x=type('X',(),{'cname':'strncmp'})()
                return h.model(e,x,args,mask,mem)
            e.cm=model
            e.store(Ptr(('state',),O['i']),Ptr(('buf',),0),'ptr',mem); e.store(Ptr(('state',),O['buffer_stop']),Ptr(('buf',),simp(LN)),'ptr',mem)
            try: return e,e.run(fn,[Ptr(('state',),0)],mem=mem)
            except Limit as x: c.undecided('json:'+fn,where,'too many paths: %s'%x); return e,[]
        cnt+=len(L); n=len(L)
        e,res=interp(rec,L); bad=[]; und=0
        for mk,v,me in res:
            if v is TOP or isinstance(v,Ptr): und+=int(mk.sum()); continue
            v=v+np.zeros(n,dtype=np.int64)
            for i in np.nonzero(mk)[0]:
                if bool(v[i]&1)!=W[i]: bad.append('%r is %staken for a keyword'%(L[i],'' if v[i]&1 else 'not '))
        c.ob('json:'+rec,not bad,'%s:%d'%(r.file,r.line),'; '.join(bad[:3]))
        if und: c.undecided('json:'+rec,'%s:%d'%(r.file,r.line),'%d results not determined'%und)
        if not g or g.decl or len(g.params)!=1: continue
        L=[w+t for w in words for t in(b'',b',',b']',b'}',b' ',b'\n')]; n=len(L); bad=[]; und=0
        e,res=interp(eat,L)
        for mk,v,me in res:
            pos=e.load(Ptr(('state',),O['i']),'ptr',me,mk)
            if not isinstance(pos,Ptr) or pos.base!=('buf',): und+=1; continue
            pz=pos.off+np.zeros(n,dtype=np.int64)
            for i in np.nonzero(mk)[0]:
                w=next(w for w in words if L[i].startswith(w))
                if pz[i]!=len(w): bad.append('reading continues %d characters into %r'%(pz[i],L[i]))
        c.ob('json:'+eat,not bad,'%s:%d'%(g.file,g.line),'; '.join(bad[:3]))
        if und: c.undecided('json:'+eat,'%s:%d'%(g.file,g.line),'position not determined')
    # ---- C escapes: out and back
    q=m.funcs.get('xmq_quote_as_c'); u=m.funcs.get('xmq_unquote_as_c')
    c.need(q and not q.decl and u and not u.decl,'xmq_quote_as_c, xmq_unquote_as_c')
    wq='%s:%d'%(u.file,u.line)
    cp=np.array(sorted(set(range(128,0x800,7))|{0x80,0xa0,0xff,0x7ff,0x800,0x20ac,0xd7ff,0xe000,0xfffd,0xffff,0x10000,0x1f600,0x10ffff}))
    fam={'byte':[bytes([k]) for k in range(1,256)],'pair':[bytes([a,b]) for a in range(1,128) for b in range(1,128)],'unicode':[chr(k).encode() for k in cp]+[b'a'+chr(k).encode()+b'"' for k in cp],'hex':[b'\x01'+bytes([k]) for k in b'0123456789abcdefABCDEFxg\\"']+[b'\\'+t for t in(b'n',b'x41',b'\\n',b'"',b'a')]}
    def through(fn,L,arg):
        B,LN=texts(L); n=len(L)
        def ld(off,t): return s8(B[:,off]) if t=='i8' and 0<=off<B.shape[1] else None
        e=Engine(m,n,input_mem={('buf',):ld},max_paths=400000,max_steps=12000000); h=Heap(e,LN,B); e.cm=h.model
        res=[None]*n
        try: paths=e.run(fn,[Ptr(('buf',),0),Ptr(('buf',),simp(LN)),arg])
        except Limit: paths=[]
        for mk,v,me in paths:
            ob=outbytes(e,v,me,mk)
            for i in np.nonzero(mk)[0]: res[i]=None if ob is None else bytes(int(x[i] if isinstance(x,np.ndarray) else x)&255 for x in ob)
        return res
    for label,L in fam.items():
        for arg in(1,0):
            Q=through(q.name,L,arg); cnt+=len(L)
            k=[i for i,x in enumerate(Q) if x is not None]
            if len(k)<len(L): c.undecided('c:%s:%d'%(label,arg),wq,'%d quoted texts not determined'%(len(L)-len(k)))
            if not k: continue
            R=through(u.name,[Q[i] for i in k],arg)
            bad=['%r is quoted as %r and read back as %r'%(L[i],Q[i],r) for i,r in zip(k,R) if r is not None and r!=L[i]]
            und=sum(r is None for r in R)
            if und: c.undecided('c:%s:%d'%(label,arg),wq,'%d unquoted texts not determined'%und)
            c.ob('c:%s:%s'%(label,'quotes' if arg else 'bare'),not bad,wq,'; '.join(bad[:2]))
    c.cov['texts']=cnt
    return c
ESC=[b'\\"',b'\\\\',b'\\b',b'\\f',b'\\n',b'\\r',b'\\t',b'\\u0041',b'\\u20AC',b'\\ud83d\\ude00',b'x',b'u',b'n',b'\xc3\xa5']
SIMPLE={34:34,92:92,47:47,98:8,102:12,110:10,114:13,116:9}
def oracle(t):
    """(text, length) of the JSON string t (RFC 8259, raw control characters tolerated), None if it is none"""
    out=b''; i=1
    def hex4(k):
        d=t[k:k+4]
        return int(d,16) if len(d)==4 and all(ch in b'0123456789abcdefABCDEF' for ch in d) else None
    while i<len(t):
        ch=t[i]
        if ch==34: return out,i+1
        if ch!=92: out+=t[i:i+1]; i+=1; continue
        if i+1>=len(t): return None
        ch=t[i+1]
        if ch in SIMPLE: out+=bytes([SIMPLE[ch]]); i+=2; continue
        if ch!=117: return None
        v=hex4(i+2)
        if v is None: return None
        i+=6
        if 0xd800<=v<0xdc00:
            w=hex4(i+2) if t[i:i+2]==b'\\u' else None
            if w is None or not 0xdc00<=w<0xe000: return None
            v=0x10000+((v-0xd800)<<10)+w-0xdc00; i+=6
        elif 0xdc00<=v<0xe000: return None
        out+=chr(v).encode()
    return None
