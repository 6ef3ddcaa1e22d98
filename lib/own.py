"""Ownership of heap objects and files: leaks (return while still the only owner) and use after release.

For each acquiring call the CFG is explored forward with the set of SSA values / local slots that alias the object;
calls use summaries (frees / captures / borrows a parameter; returns a fresh object), computed to a fixed point over
the call graph.  noreturn calls and longjmp end a path."""
import collections
from util import *
from flow import Flow, addr_key
FREE={'free':0,'fclose':0,'xmlFreeDoc':0,'xmlFreeNode':0,'xmlFreeNodeList':0,'xmlXPathFreeContext':0,'xmlXPathFreeObject':0,'xmlBufferFree':0,'xmlFreeParserCtxt':0,'xmlOutputBufferClose':0,'xmlFree':0,
      'xmlSchemaFreeParserCtxt':0,'xmlSchemaFree':0,'xmlSchemaFreeValidCtxt':0,'xsltFreeStylesheet':0,'realloc':0,'closedir':0,'pclose':0,'xmlFreeDtd':0,'xmlFreeProp':0,'xmlFreeNs':0,'xmlFreeNsList':0}
ALLOC={'malloc':'memory','calloc':'memory','strdup':'memory','strndup':'memory','realloc':'memory','fopen':'file','fdopen':'file','xmlReadMemory':'document','htmlReadMemory':'document','xmlNewDoc':'document','xmlXPathNewContext':'XPath context',
       'xmlXPathEvalExpression':'XPath object','xmlXPathEval':'XPath object','xmlBufferCreate':'XML buffer','xmlCreatePushParserCtxt':'parser context','xmlNodeListGetString':'memory','xmlNodeGetContent':'memory','xmlGetProp':'memory',
       'xmlSchemaNewDocParserCtxt':'schema parser context','xmlSchemaParse':'schema','xmlSchemaNewValidCtxt':'validation context','xsltApplyStylesheet':'document','xmlGetNsList':'memory','asprintf':'memory','opendir':'directory','xmlCopyDoc':'document','xmlGetNodePath':'memory','xmlCopyDtd':'dtd',
       'xmlNewDocNode':'node','xmlNewNode':'node','xmlNewDocText':'node','xmlNewDocTextLen':'node','xmlNewDocComment':'node','xmlNewComment':'node','xmlNewPI':'node','xmlNewDocPI':'node','xmlNewReference':'node','xmlNewCharRef':'node','xmlNewText':'node','xmlDocCopyNode':'node','xmlCopyNode':'node'}
FREES_OF={'memory':{'free','xmlFree','realloc'}}
# external functions that keep (take over) an argument
CAPT={'xmlAddChild':[1],'xmlAddSibling':[1],'xmlAddNextSibling':[1],'xmlAddPrevSibling':[1],'xmlReplaceNode':[1],'xmlDocSetRootElement':[1],'xsltParseStylesheetDoc':[0],'xmlAddChildList':[1],'atexit':[0],'putenv':[0],'xmlSetListDoc':[0],'setenv':[],
      'xmlAllocOutputBuffer':[],'xmlXPathNewContext':[],'pthread_create':[3],'setvbuf':[1]}
RETALIAS={'strcpy':0,'strcat':0,'strncpy':0,'memcpy':0,'memset':0,'memmove':0,'xmlAddChild':1,'strchr':0,'strrchr':0,'strstr':0}
class Own:
    def __init__(self,m,flow=None,scope=lambda f:True):
        self.m=m; self.fl=flow or Flow(m); self.scope=scope
        self.mayfree=collections.defaultdict(set); self.mustfree=collections.defaultdict(set); self.capt=collections.defaultdict(set)
        self.retown={}   # fn -> kind
        self.outown=collections.defaultdict(dict)  # fn -> {param: kind}
        self.retalias=collections.defaultdict(set); self.keepers=None; self._dk={}; self.outal=collections.defaultdict(lambda:collections.defaultdict(set))
        self.summaries()
    def effects(self,f,x,k):
        """effect of passing the object as argument k of call x: set of 'free','mustfree','capture','alias'"""
        n=x.cname; out=set()
        ts=self.fl.targets(f,x)
        if ts:
            allmust=True
            for t in ts:
                if k>=len(self.m.funcs[t].params):
                    if self.m.funcs[t].vararg: allmust=False; continue
                if k in self.mayfree[t]: out.add('free')
                if k in self.capt[t]: out.add('capture')
                if k in self.retalias[t]: out.add('alias')
                if k not in self.mustfree[t]: allmust=False
            if allmust: out.add('mustfree')
            return out
        if n is None:
            # indirect call without known target: xmlFree or a caller supplied callback
            v=x.callee
            if v and v[0]=='i':
                y=f.insts[v[1]]
                if y.op=='load' and y.o[0]==('g','xmlFree'): return {'free','mustfree'}
            return set()
        if FREE.get(n)==k: return {'free','mustfree'}
        if k in CAPT.get(n,()): return {'capture'}
        if RETALIAS.get(n)==k: return {'alias'}
        return set()
    def kind_of_call(self,f,x):
        if x.cname in ALLOC: return ALLOC[x.cname]
        ts=self.fl.targets(f,x)
        if ts:
            ks=[self.retown.get(t) for t in ts]
            if all(ks): return ks[0]
        return None
    def summaries(self):
        m=self.m; fs=[f for f in m.defined()]
        # may free / capture / return-alias of parameters: flow-insensitive closure over local aliases
        ch=True
        while ch:
            ch=False
            for f in fs:
                for k in range(len(f.params)):
                    if f.params[k][0]!='ptr': continue
                    fr,ca,ra=self.param_effects(f,k)
                    if fr and k not in self.mayfree[f.name]: self.mayfree[f.name].add(k); ch=True
                    if ca and k not in self.capt[f.name]: self.capt[f.name].add(k); ch=True
                    if ra and k not in self.retalias[f.name]: self.retalias[f.name].add(k); ch=True
        # a store into a field that nobody ever releases, returns or passes on from is not a transfer of ownership
        self.keepers=frozenset()
        while True:
            K=self._keepers()
            if K==self.keepers: break
            self.keepers=K; self.capt.clear(); self._dk={}; ch=True
            while ch:
                ch=False; self._dk={}
                for f in fs:
                    for k in range(len(f.params)):
                        if f.params[k][0]=='ptr' and k not in self.capt[f.name] and self.param_effects(f,k)[1]: self.capt[f.name].add(k); ch=True
        # must free (on every returning path on which the parameter is not null)
        ch=True
        while ch:
            ch=False
            for f in fs:
                for k in self.mayfree[f.name]:
                    if k in self.mustfree[f.name]: continue
                    r=self.explore(f,None,('a',k))
                    if not r['leaks'] and r['freed']: self.mustfree[f.name].add(k); ch=True
        # returns a fresh object
        ch=True
        while ch:
            ch=False
            for f in fs:
                if f.name in self.retown or f.rt!='ptr': continue
                kind=None; bad=False; any_=False
                for x in f.all():
                    if x.op=='ret' and x.o:
                        for b in self.ret_sources(f,x.o[0]):
                            if b[0]=='n': continue
                            if b[0]=='i' and f.insts[b[1]].op=='call':
                                kd=self.kind_of_call(f,f.insts[b[1]])
                                if kd:
                                    any_=True; kind=kd
                                    # object also stored elsewhere (captured) -> not exclusively the caller's
                                    if self.also_captured(f,f.insts[b[1]]): bad=True
                                    continue
                            bad=True
                if any_ and not bad: self.retown[f.name]=kind; ch=True
            for f in fs:
                for x in f.all():
                    if x.op!='store' or x.vt!='ptr': continue
                    a=strip0(f,x.o[1])
                    if a[0]!='a' or a[1] in self.outown[f.name]: continue
                    if x.o[1]!=a: continue           # only *param = obj, not param->field = obj
                    for b in self.ret_sources(f,x.o[0]):
                        if b[0]=='i' and f.insts[b[1]].op=='call':
                            kd=self.kind_of_call(f,f.insts[b[1]])
                            if kd: self.outown[f.name][a[1]]=kd; ch=True
    def also_captured(self,f,x):
        seen=set(); st=[('i',x.i)]
        while st:
            v=st.pop()
            if v in seen: continue
            seen.add(v)
            for y in f.uses().get(v,()):
                if y.op in('phi','bitcast') or (y.op=='select' and v in y.o[1:]): st.append(('i',y.i))
                elif y.op=='store' and y.o[0]==v:
                    k=strip0(f,y.o[1])
                    if not(k[0]=='i' and f.insts[k[1]].op=='alloca'): return True
                elif y.op=='call':
                    for k,o in enumerate(y.o):
                        if o==v and 'capture' in self.effects(f,y,k): return True
        return False
    def also_stored(self,f,x,st0):
        """the fresh object of call x is also kept somewhere else than by the store st0"""
        seen=set(); w=[('i',x.i)]
        while w:
            v=w.pop()
            if v in seen: continue
            seen.add(v)
            for y in f.uses().get(v,()):
                if y.op in('phi','bitcast') or (y.op=='select' and v in y.o[1:]): w.append(('i',y.i))
                elif y.op=='store' and y.o[0]==v:
                    k=strip0(f,y.o[1])
                    if not(k[0]=='i' and f.insts[k[1]].op=='alloca') and y is not st0 and y.o[1]!=st0.o[1]: return True
                elif y.op=='call':
                    for k,q in enumerate(y.o):
                        if q==v and 'capture' in self.effects(f,y,k): return True
        # kept through the field: loaded again and captured (pushed on a list)
        k0=addr_key(f,st0.o[1])
        for y in f.all():
            if y.op=='load' and addr_key(f,y.o[0])==k0:
                for z in f.uses().get(('i',y.i),()):
                    if z.op=='call':
                        for k,q in enumerate(z.o):
                            if q==('i',y.i) and 'capture' in self.effects(f,z,k): return True
                    elif z.op=='store' and z.o[0]==('i',y.i) and addr_key(f,z.o[1])!=k0: return True
        return False
    def ret_sources(self,f,v,seen=None):
        seen=set() if seen is None else seen
        if v in seen: return set()
        seen.add(v)
        if v[0]=='i':
            x=f.insts[v[1]]
            if x.op=='phi': return set().union(*[self.ret_sources(f,o,seen) for o,_ in x.o])
            if x.op=='select': return self.ret_sources(f,x.o[1],seen)|self.ret_sources(f,x.o[2],seen)
            if x.op=='bitcast': return self.ret_sources(f,x.o[0],seen)
            if x.op=='getelementptr' and x.g and x.g.get('off')==0: return self.ret_sources(f,x.o[0],seen)
            if x.op=='call' and x.cname in RETALIAS and x.cname!='xmlAddChild': return self.ret_sources(f,x.o[RETALIAS[x.cname]],seen)
            if x.op=='load':
                a=strip0(f,x.o[0])
                if a[0]=='i' and f.insts[a[1]].op=='alloca':
                    out=set(); st=[y for y in f.uses().get(a,()) if y.op=='store' and y.o[1]==a]
                    other=[y for y in f.uses().get(a,()) if y.op not in('store','load')]
                    if st and not other:
                        for y in st: out|=self.ret_sources(f,y.o[0],seen)
                        return out
        return {v}
    def _keepers(self):
        out=set()
        for f in self.m.defined():
            for x in f.all():
                if x.op=='load' and x.t=='ptr':
                    k=addr_key(f,x.o[0])
                    if not k or k[0]!='f' or k in out: continue
                    seen=set(); st=[('i',x.i)]
                    while st:
                        v=st.pop()
                        if v in seen: continue
                        seen.add(v)
                        for y in f.uses().get(v,()):
                            if y.op in('phi','bitcast') or (y.op=='select' and v in y.o[1:]): st.append(('i',y.i))
                            elif y.op=='store' and y.o[0]==v:
                                a=strip0(f,y.o[1])
                                if a[0]=='i' and f.insts[a[1]].op=='alloca' and f.insts[a[1]].at=='ptr':
                                    for z in f.uses().get(a,()):
                                        if z.op=='load': st.append(('i',z.i))
                                else:
                                    k2=addr_key(f,y.o[1])
                                    if k2!=k and k2 and k2[0]=='p': continue       # handed out for inspection
                                    if k2!=k and (not k2 or k2[0]!='f' or k2 in self.keepers): out.add(k)
                            elif y.op=='ret': out.add(k)
                            elif y.op=='call':
                                for j,q in enumerate(y.o):
                                    if q==v and self.effects(f,y,j)&{'free','capture'}: out.add(k)
        return out
    def param_effects(self,f,k): return self.value_effects(f,('a',k),k)
    def value_effects(self,f,v0,pk=None):
        fr=ca=ra=False; seen=set(); st=[v0]
        while st:
            v=st.pop()
            if v in seen: continue
            seen.add(v)
            for x in f.uses().get(v,()):
                if x.op in('phi','bitcast') or (x.op=='select' and v in x.o[1:]): st.append(('i',x.i))
                elif x.op=='getelementptr' and x.o[0]==v and x.g and x.g.get('off')==0 and not str(x.g.get('ow','')).startswith('struct'): st.append(('i',x.i))
                elif x.op=='store' and x.o[0]==v:
                    a=strip0(f,x.o[1])
                    if a[0]=='i' and f.insts[a[1]].op=='alloca' and f.insts[a[1]].at=='ptr':
                        for y in f.uses().get(a,()):
                            if y.op=='load': st.append(('i',y.i))
                            elif y.op=='call' and any(q==a and self.slot_kept(f,y,j) for j,q in enumerate(y.o)): ca=True
                    elif a[0]=='i' and f.insts[a[1]].op=='alloca': pass      # a local structure dies with the function
                    elif pk is not None and x.o[1][0]=='a': self.outal[f.name][pk].add(x.o[1][1])      # also handed out through *param
                    else:
                        c=addr_key(f,x.o[1])
                        if self.keepers is None or not c or c[0]!='f' or c in self.keepers: ca=True
                elif x.op=='ret': ra=True
                elif x.op=='call':
                    for j,o in enumerate(x.o):
                        if o==v:
                            e=self.effects(f,x,j)
                            if 'free' in e: fr=True
                            if 'capture' in e: ca=True
                            if 'alias' in e: st.append(('i',x.i))
                            for w in self.outto(f,x,j):
                                if w[0]=='i' and f.insts[w[1]].op=='alloca':
                                    for y in f.uses().get(w,()):
                                        if y.op=='load' and y.o[0]==w: st.append(('i',y.i))
                                elif w[0]=='a' and pk is not None: self.outal[f.name][pk].add(w[1])
                                elif w[0]!='n': ca=True
        return fr,ca,ra
    def outto(self,f,x,j):
        """arguments of call x through which the callee hands out its argument j"""
        out=[]
        for t in self.fl.targets(f,x):
            for n in self.outal[t].get(j,()) if t in self.outal else ():
                if n<len(x.o): out.append(x.o[n])
        return out
    def slot_kept(self,f,y,j):
        """handing out the address of a variable (argument j of y): may the callee release or keep the pointer in it"""
        if (y.cname or '').startswith('llvm.'): return y.cname.startswith(('llvm.memcpy','llvm.memmove')) and j==1
        ts=self.fl.targets(f,y)
        if not ts: return True
        return any(self.deref_kept(t,j) for t in ts)
    def deref_kept(self,t,k):
        c=self._dk.get((t,k))
        if c is not None: return c
        self._dk[(t,k)]=False
        g=self.m.funcs[t]; r=False
        if k>=len(g.params): r=True
        else:
            for z in g.uses().get(('a',k),()):
                if z.op=='load':
                    if z.t=='ptr':
                        fr,ca,ra=self.value_effects(g,('i',z.i))
                        if fr or ca or ra: r=True; break
                elif z.op=='store':
                    if z.o[0]==('a',k): r=True; break
                elif z.op=='call':
                    if any(q==('a',k) and self.slot_kept(g,z,j) for j,q in enumerate(z.o)): r=True; break
                elif z.op in('icmp','br'): pass
                else: r=True; break
        self._dk[(t,k)]=r
        return r
    def slot_written(self,f,y,j,d=0):
        for t in self.fl.targets(f,y):
            g=self.m.funcs[t]
            for z in g.uses().get(('a',j),()):
                if z.op=='store' and z.o[1]==('a',j): return True
                if z.op=='call' and d<6 and any(q==('a',j) and self.slot_written(g,z,i,d+1) for i,q in enumerate(z.o)): return True
        return False
    # ------------------------------------------------------------------ exploration
    def explore(self,f,x,v,slot=None,want_uaf=False,limit=20000):
        """follow the object acquired by x (value v, or local slot) -> dict(leaks=[ret inst], uaf=[(free inst, use inst)], freed=bool)"""
        res=dict(leaks=[],uaf=[],freed=False,captured=False)
        start_al=frozenset([v] if slot is None else [('s',slot)])
        env0=frozenset([(x.i,1)]) if slot is not None and x is not None and x.t=='i1' else frozenset()   # a failing callee hands nothing out
        if x is None: st=[(0,0,start_al,None,None,env0)]
        else: st=[(x.blk,x.pos+1,start_al,None,None,env0)]
        seen=set(); n=0
        flagphis=self.flagphis(f)
        while st:
            b,pos,al,freed,prev,env=st.pop()
            key=(b,pos,al,freed.i if freed else None,prev if pos==0 and any(y.op=='phi' for y in f.blocks[b][:1]) else None,env)
            if key in seen: continue
            seen.add(key); n+=1
            if n>limit: res['limit']=True; return res
            L=f.blocks[b]; cur=set(al); stop=False
            k=pos
            if pos==0 and prev is not None:
                ad=set(); rm=set(); E=dict(env); NE=dict(env)
                while k<len(L) and L[k].op=='phi':
                    y=L[k]
                    for o,pb in y.o:
                        if pb==prev:
                            if o in cur: ad.add(('i',y.i))
                            else: rm.add(('i',y.i))
                            if y.i in flagphis:
                                kv=self.known(f,o,E)
                                if kv is None: NE.pop(y.i,None)
                                else: NE[y.i]=kv
                    k+=1
                cur=(cur-rm)|ad; env=frozenset(NE.items())
            while k<len(L):
                y=L[k]; k+=1
                op=y.op
                if y.i is not None and ('i',y.i) in cur and op!='phi': 
                    if not(x is not None and y is x): cur.discard(('i',y.i))
                if x is not None and y is x and slot is None:
                    # the acquiring call runs again (loop): previous object must be gone
                    if not freed and not res['captured'] and cur: res['leaks'].append(y)
                    stop=True; break
                if op=='load':
                    a=y.o[0]
                    if freed is not None and self.aliased(f,a,cur): res['uaf'].append((freed,y))
                    if a[0]=='i' and ('s',a[1]) in cur: cur.add(('i',y.i))
                elif op=='store':
                    if freed is not None and self.aliased(f,y.o[1],cur): res['uaf'].append((freed,y))
                    a=strip0(f,y.o[1])
                    isslot=a[0]=='i' and f.insts[a[1]].op=='alloca' and f.insts[a[1]].at=='ptr' and y.o[1]==a
                    if y.o[0] in cur:
                        if isslot: cur.add(('s',a[1]))
                        elif y.o[1][0]=='a' and freed is None and x is not None and f.rt in('i1','i8','i32'):
                            cur.add(('op',y.o[1][1]))       # handed out through *param: the caller owns it unless failure is returned
                        elif a[0]=='i' and f.insts[a[1]].op=='alloca':
                            res['captured']=True
                            if freed is None: stop=True; break      # stored in a local aggregate: not tracked further
                        elif x is not None and not self.kept_by(f,y.o[1]): pass       # nobody ever releases what this field points to
                        else:
                            res['captured']=True
                            if freed is None: stop=True; break
                    elif isslot and ('s',a[1]) in cur: cur.discard(('s',a[1]))
                    elif y.o[1][0]=='a' and ('op',y.o[1][1]) in cur: cur.discard(('op',y.o[1][1]))
                elif op in('bitcast','addrspacecast') and y.o[0] in cur: cur.add(('i',y.i))
                elif op=='getelementptr' and y.o[0] in cur and y.g and y.g.get('off')==0 and not str(y.g.get('ow','')).startswith('struct'): cur.add(('i',y.i))
                elif op=='select' and (y.o[1] in cur or y.o[2] in cur): cur.add(('i',y.i))
                elif op=='call':
                    hit=False
                    for j,o in enumerate(y.o):
                        if o[0]=='i' and ('s',o[1]) in cur and freed is None:
                            # address of the holding slot handed out
                            ts=self.fl.targets(f,y)
                            if ts or y.cname not in('llvm.lifetime.start.p0','llvm.lifetime.end.p0'):
                                if not(y.cname or '').startswith('llvm.'):
                                    if self.slot_kept(f,y,j): res['captured']=True; stop=True
                                    elif self.slot_written(f,y,j): cur.discard(('s',o[1]))
                        if o in cur:
                            e=self.effects(f,y,j)
                            if freed is not None:
                                if not(y.cname or '').startswith('llvm.'): res['uaf'].append((freed,y)); stop=True
                                break
                            if 'capture' in e: res['captured']=True; stop=True; break
                            if 'free' in e:
                                res['freed']=True
                                if 'mustfree' in e and want_uaf and y.cname!='realloc': freed=y
                                else: stop=True
                                hit=True; break
                            if 'alias' in e: cur.add(('i',y.i))
                            if x is not None:
                                for w in self.outto(f,y,j):
                                    if w[0]=='i' and f.insts[w[1]].op=='alloca' and f.insts[w[1]].at=='ptr': cur.add(('s',w[1]))
                                    elif w[0]=='a' and freed is None and f.rt in('i1','i8','i32'): cur.add(('op',w[1]))
                                    elif w[0]!='n' and freed is None: res['captured']=True; stop=True; break
                                if stop: break
                    if stop: break
                    if x is not None and freed is None and self.escapes(f,y):
                        # longjmp to the error handler: local owners are gone
                        res['leaks'].append(y)
                    if y.noret or y.cname in('longjmp','exit','abort','_exit'): stop=True; break
                elif op=='ret':
                    if y.o and y.o[0] in cur:
                        if freed is not None: res['uaf'].append((freed,y))
                        stop=True; break
                    if freed is None:
                        op_=[a for a in cur if a[0]=='op']
                        if not op_ or (y.o and self.known(f,y.o[0],dict(env))==0): res['leaks'].append(y)
                        else: res['captured']=True
                    stop=True; break
                elif op=='unreachable': stop=True; break
                elif op in('br','switch'): break
            if stop: continue
            if not cur and freed is not None: continue
            t=L[-1]
            if t.op=='br' and len(t.s)==2 and t.o:
                nz=self.nulltest(f,t.o[0],cur)
                kc=self.known(f,t.o[0],dict(env))
                for idx,s in enumerate(t.s):
                    if kc is not None and kc!='nn' and (idx==0)!=bool(kc): continue
                    if nz is not None and freed is None:
                        # nz: True when condition true means "object is null"
                        isnull=(idx==0)==nz
                        if isnull: continue
                    st.append((s,0,frozenset(cur),freed,b,env))
            else:
                for s in f.succ(b): st.append((s,0,frozenset(cur),freed,b,env))
        return res
    def kept_by(self,f,a):
        k=addr_key(f,a)
        if not k or k[0]!='f' or 'Cli' in k[1] or 'xml' in k[1][:12].lower() or 'xslt' in k[1][:13]: return True
        return k in self.keepers
    def escapes(self,f,y):
        if y.cname in('longjmp','_longjmp'): return True
        return False
    def flagphis(self,f):
        r=getattr(f,'_flagphis',None)
        if r is None:
            r=f._flagphis={y.i for y in f.all() if y.op=='phi' and any(o[0] in('c','n') or (o[0]=='i' and f.insts[o[1]].op in('phi','call','zext','trunc')) for o,_ in y.o)}
        return r
    def known(self,f,v,env,d=0):
        """int constant, 0 for null, 'nn' for a non-null pointer, None unknown"""
        if v[0]=='c': return v[1]
        if v[0]=='n': return 0
        if v[0]!='i' or d>6: return None
        if v[1] in env: return env[v[1]]
        x=f.insts[v[1]]
        if x.op in('zext','trunc','sext','freeze'):
            k=self.known(f,x.o[0],env,d+1)
            return (k&1) if k not in(None,'nn') and x.op=='trunc' else (None if k=='nn' else k)
        if x.op=='call' and x.cname in('malloc','calloc','strdup','strndup','realloc'): return 'nn'
        if x.op=='icmp' and x.p in('eq','ne'):
            a,b=self.known(f,x.o[0],env,d+1),self.known(f,x.o[1],env,d+1)
            if a is None or b is None: return None
            if 'nn' in(a,b):
                if 0 in(a,b): return int(x.p=='ne')
                return None
            return int((a==b)==(x.p=='eq'))
        if x.op=='xor' and x.o[1][0]=='c' and x.o[1][1] in(1,-1):
            k=self.known(f,x.o[0],env,d+1); return None if k in(None,'nn') else (~k)&1
        return None
    def aliased(self,f,a,cur):
        """address a is inside the object"""
        for _ in range(50):
            if a in cur: return True
            if a[0]=='i' and f.insts[a[1]].op in('getelementptr','bitcast'): a=f.insts[a[1]].o[0]
            else: return False
        return False
    def nulltest(self,f,c,cur):
        if c[0]!='i': return None
        x=f.insts[c[1]]
        if x.op=='icmp' and x.p in('eq','ne'):
            a,b=x.o
            if b[0]=='n' and a in cur: return x.p=='eq'
            if a[0]=='n' and b in cur: return x.p=='eq'
        if x.op=='xor' and x.o[1][0]=='c' and x.o[1][1] in(1,-1):
            r=self.nulltest(f,x.o[0],cur); return None if r is None else not r
        return None
def strip0(f,v):
    while v[0]=='i' and f.insts[v[1]].op in('bitcast','getelementptr'):
        x=f.insts[v[1]]
        v=x.o[0]
    return v
def sites(m,own,f):
    """acquisitions in f: (inst, value, slot, kind)"""
    for x in f.calls():
        k=own.kind_of_call(f,x)
        if k: yield x,('i',x.i),None,k
        for t in own.fl.targets(f,x):
            for j,kd in own.outown[t].items():
                if j<len(x.o) and x.o[j][0]=='i' and f.insts[x.o[j][1]].op=='alloca': yield x,None,x.o[j][1],kd

# ---------------------------------------------------------------- fields that own what they point to
from flow import addr_key as _ak
def fname(m,k):
    return '%s.%s'%(k[1].replace('struct.',''),m.field_at(k[1][7:],k[2])) if k[0]=='f' else k[1]
def owned_cells(m,o):
    """{cell: [(store, kind, source)]} for struct fields that receive objects nobody else keeps"""
    st=collections.defaultdict(list)
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.all():
            if x.op=='store' and x.vt=='ptr':
                k=_ak(f,x.o[1])
                if not k or k[0]!='f': continue
                for b in o.ret_sources(f,x.o[0]):
                    if b[0]=='i' and f.insts[b[1]].op=='call':
                        y=f.insts[b[1]]; kd=o.kind_of_call(f,y)
                        if kd and kd not in('node','dtd') and not o.also_stored(f,y,x): st[k].append((x,kd,y.cname))
    return st
def freed_cells(m,o):
    fr=collections.defaultdict(list)
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.calls():
            for j,a in enumerate(x.o):
                if 'free' in o.effects(f,x,j):
                    for b in o.ret_sources(f,a):
                        if b[0]=='i' and f.insts[b[1]].op=='load':
                            k=_ak(f,f.insts[b[1]].o[0])
                            if k: fr[k].append(x)
    return fr
def destructors(m,o):
    """{struct: {functions that release an object of that type}}: the parameter released is accessed as that struct"""
    out=collections.defaultdict(set)
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.calls('free'):
            v=strip0(f,x.o[0]) if x.o else None
            if not v or v!=x.o[0]: continue
            for b in ({v}|o.ret_sources(f,v)):
                for y in f.uses().get(b,()):
                    if y.op=='getelementptr' and y.o[0]==b and y.g and str(y.g.get('ow','')).startswith('struct.'): out[y.g['ow']].add(f.name)
    return out
def escapes_free(s,frees):
    """a return reached from store s without passing one of the releases"""
    f=s.func; ids={x.i for x in frees}; st=[(s.blk,s.pos+1)]; seen=set()
    while st:
        b,pos=st.pop()
        if (b,pos) in seen: continue
        seen.add((b,pos))
        for y in f.blocks[b][pos:]:
            if y.i in ids: break
            if y.op=='ret': return y
        else:
            for q in f.succ(b): st.append((q,0))
    return None
def owned_fields(m,o,d):
    st=owned_cells(m,o); fr=freed_cells(m,o)
    for k,l in sorted(st.items(),key=str):
        ds=d.get(k[1],set())
        if not ds: continue
        reach=set()
        for t in ds: reach|=m.reach([t])|{t}
        where=[x for x in fr.get(k,()) if x.func.name in reach]
        if not where and all(escapes_free(s_,[x for x in fr.get(k,()) if x.func is s_.func]) is None for s_,_,_ in l): where=fr[k]
        yield k,l,ds,where
def cell_writers(m,o):
    """{cell: functions that may (transitively) store to it}"""
    direct=collections.defaultdict(set); callers=collections.defaultdict(set)
    for f in m.defined():
        for x in f.all():
            if x.op=='store':
                k=_ak(f,x.o[1])
                if k and k[0] in('f','g'): direct[k].add(f.name)
            elif x.op=='call':
                for t in o.fl.targets(f,x): callers[t].add(f.name)
                if x.cname in('memset','llvm.memset.p0.i64') :
                    pass
    out={}
    for k,s in direct.items():
        s=set(s); w=list(s)
        while w:
            for c in callers[w.pop()]:
                if c not in s: s.add(c); w.append(c)
        out[k]=s
    return out
def dangling(m,o):
    """yield (call, cell, [(kind, inst)]) for releases of an object that a field still points to"""
    cw=cell_writers(m,o); pub=set(public_api(m))
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.calls():
            for j,a in enumerate(x.o):
                if a[0]!='i': continue
                e=o.effects(f,x,j)
                if 'mustfree' not in e or x.cname=='realloc': continue
                v=strip0(f,a)
                if v!=a: 
                    continue
                y=f.insts[v[1]]
                if y.op!='load': continue
                k=_ak(f,y.o[0])
                if not k or k[0] not in('f','g'): continue
                base=strip0(f,y.o[0]) if k[0]=='f' else None
                if any(z.op=='store' and _ak(f,z.o[1])==k and f.idominst(y,z) and f.idominst(z,x) for z in f.all()): continue   # already points elsewhere
                if base is not None and any(any(q==base and 'mustfree' in o.effects(f,z,i) for i,q in enumerate(z.o)) and f.idominst(z,x) for z in f.calls()): continue
                yield x,k,settle(m,o,f,follow_cell(m,o,f,x,k,base,cw.get(k,set()),v),k,base,cw.get(k,set()),pub,0)
def settle(m,o,f,bad,k,base,writers,pub,d):
    """a field left dangling at return only matters when somebody can still look at it"""
    out=[b for b in bad if b[0]=='used']
    left=[b for b in bad if b[0]=='left']
    if not left: return out
    if base is not None and base[0]=='i' and f.insts[base[1]].op=='alloca': return out     # the object dies here
    cs=[c for c in o.fl.callers[f.name]]
    if is_lib(f) and (f.name in pub or k[0]=='g' and not cs): return out+left[:1]
    if d>5: return out
    for c in cs:
        g=c.func; nb=None
        if base is not None and base[0]=='a' and base[1]<len(c.o): nb=strip0(g,c.o[base[1]])
        elif base is not None: 
            continue
        out+=settle(m,o,g,follow_cell(m,o,g,c,k,nb,writers,('x',0)),k,nb,writers,pub,d+1)
    return out
def follow_cell(m,o,f,x,k,base,writers,val):
    bad=[]; st=[(x.blk,x.pos+1)]; seen=set()
    while st:
        b,pos=st.pop()
        if (b,pos) in seen: continue
        seen.add((b,pos)); L=f.blocks[b]; stop=False
        for y in L[pos:]:
            if y.op=='store':
                if _ak(f,y.o[1])==k: stop=True; break
                if y.o[0]==val: pass
            elif y.op=='load' and _ak(f,y.o[0])==k and (base is None or strip0(f,y.o[0])==base) and y.i!=val[1]:
                us=[u for u in f.uses().get(('i',y.i),()) if not(u.op=='icmp' and any(q[0]=='n' for q in u.o))]
                if us: bad.append(('used',y)); stop=True; break
            elif y.op=='load' and y.i==val[1]: stop=True; break        # next iteration: re-read
            elif y.op=='call':
                ts=o.fl.targets(f,y)
                if any(t in writers for t in ts): stop=True; break
                if base is not None and any(q==base and 'mustfree' in o.effects(f,y,j) for j,q in enumerate(y.o)): stop=True; break
                if y.cname and y.cname.startswith('llvm.memset') and base is not None and strip0(f,y.o[0])==base: stop=True; break
                if y.noret or y.cname in('longjmp','exit','abort','_exit'): stop=True; break
            elif y.op=='ret':
                bad.append(('left',y)); stop=True; break
        if not stop:
            for s in f.succ(b): st.append((s,0))
    return bad
def used_after(m,o):
    """yield (call, uses) for every certain release of a value: later uses of that very value before it is computed again"""
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.calls():
            if x.cname=='realloc': continue
            vs={}
            for j,a in enumerate(x.o):
                if a[0] not in('i','a'): continue
                e=o.effects(f,x,j)
                # a function that may release its argument without telling: the caller cannot know, so it must not look at it again
                if 'mustfree' in e or ('free' in e and x.t=='void' and o.fl.targets(f,x)): vs[a]=j
            for v,j in vs.items():
                yield x,v,follow_value(m,o,f,x,v)
def follow_value(m,o,f,x,v):
    bad=[]; st=[(x.blk,x.pos+1,frozenset([v]))]; seen=set()
    def derived(a,cur):
        for _ in range(40):
            if a in cur: return True
            if a[0]=='i' and f.insts[a[1]].op in('getelementptr','bitcast'): a=f.insts[a[1]].o[0]
            else: return False
        return False
    while st:
        b,pos,cur=st.pop()
        if (b,pos,cur) in seen or len(seen)>4000: continue
        seen.add((b,pos,cur)); L=f.blocks[b]; stop=False
        for y in L[pos:]:
            if y.op=='phi': continue
            if ('i',y.i) in cur:
                cur=cur-{('i',y.i)}
                if not cur: stop=True; break
                continue
            if y.op=='load' and derived(y.o[0],cur) or y.op=='store' and derived(y.o[1],cur): bad.append(('dereferenced',y)); stop=True; break
            if y.op=='call':
                if not (y.cname or '').startswith('llvm.') and any(derived(a,cur) for a in y.o): bad.append(('passed on',y)); stop=True; break
                if (y.cname or '').startswith('llvm.mem') and any(derived(a,cur) for a in y.o): bad.append(('dereferenced',y)); stop=True; break
                if y.noret or y.cname in('longjmp','exit','abort','_exit'): stop=True; break
            if y.op=='ret' and y.o and y.o[0] in cur: bad.append(('returned',y)); stop=True; break
        if stop: continue
        for s in f.succ(b):
            n=set(cur); sb=f.blocks[s]
            for p in sb:
                if p.op!='phi': break
                k=('i',p.i)
                inc=[a for a,q in p.o if q==b]
                if inc and inc[0] in cur: n.add(k)
                else: n.discard(k)
            if n: st.append((s,0,frozenset(n)))
    return bad
# ---------------------------------------------------------------- fields overwritten while still owning something
def basekey(f,v,d=0):
    """structural name of the object an address belongs to: re-reading the same field gives the same name"""
    if v[0]!='i' or d>8: return v
    x=f.insts[v[1]]
    if x.op in('bitcast',): return basekey(f,x.o[0],d+1)
    if x.op=='getelementptr':
        b=basekey(f,x.o[0],d+1); off=(x.g or {}).get('off')
        return b if off==0 else ('+',off if off is not None else x.i,b)
    if x.op=='load':
        a=strip0(f,x.o[0])
        if a[0]=='i' and f.insts[a[1]].op=='alloca' and a==x.o[0]:
            ss=[y for y in f.uses().get(a,()) if y.op=='store' and y.o[1]==a]
            if len(ss)==1: return basekey(f,ss[0].o[0],d+1)
            return v
        return ('*',basekey(f,x.o[0],d+1))
    return v
def consumed(m,o,f,v):
    """the value is released, returned, kept elsewhere or handed over somewhere in f"""
    k0=None
    if v[0]=='i' and f.insts[v[1]].op=='load': k0=basekey(f,f.insts[v[1]].o[0])
    seen=set(); st=[v]
    while st:
        v=st.pop()
        if v in seen: continue
        seen.add(v)
        for y in f.uses().get(v,()):
            if y.op in('phi','bitcast') or (y.op=='select' and v in y.o[1:]): st.append(('i',y.i))
            elif y.op=='ret': return True
            elif y.op=='store' and y.o[0]==v:
                a=strip0(f,y.o[1])
                if a[0]=='i' and f.insts[a[1]].op=='alloca' and f.insts[a[1]].at=='ptr' and a==y.o[1]:
                    for z in f.uses().get(a,()):
                        if z.op=='load': st.append(('i',z.i))
                        elif z.op=='call': return True
                elif basekey(f,y.o[1])!=k0: return True
            elif y.op=='call':
                for j,q in enumerate(y.o):
                    if q==v:
                        e=o.effects(f,y,j)
                        if e&{'free','capture'}: return True
                        if 'alias' in e: st.append(('i',y.i))
    return False
def overwrites(m,o):
    """yield (store, cell, path-to-entry) for stores that replace the content of an owning field whose old content is still live"""
    cells={k for k in owned_cells(m,o)}&set(freed_cells(m,o))
    fr=freed_cells(m,o)
    frees=collections.defaultdict(set)
    for k,l in fr.items():
        if k in cells:
            s={x.func.name for x in l}
            frees[k]=s
    o._cells=cells; o._frees=frees
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.all():
            if x.op!='store' or x.vt!='ptr': continue
            k=addr_key(f,x.o[1])
            if k not in cells: continue
            yield x,k,back(m,o,f,x.blk,x.pos-1,k,basekey(f,x.o[1]),0,x)
def back(m,o,f,b,pos,k,bk,d,st0=None,clears=None):
    """why the old content may be lost (None: it is not)"""
    st=[(b,pos)]; seen=set(); base=bk
    root=bk
    while root[0] in('+','*'): root=root[-1]
    if clears is None: clears=st0 is not None and st0.o[0][0] in('n','a')
    loc=False; given=st0 is not None and st0.o[0][0]=='a'       # a setter: the caller knows what was there before
    while st:
        b,pos=st.pop()
        L=f.blocks[b]; hit=False
        for y in reversed(L[:pos+1]):
            if y is st0 and loc: hit=True; break
            if y.op=='load' and y.t=='ptr' and addr_key(f,y.o[0])==k and basekey(f,y.o[0])==bk and consumed(m,o,f,('i',y.i)): hit=True; break
            if y.op=='store' and addr_key(f,y.o[1])==k and basekey(f,y.o[1])==bk and y is not st0: hit=True; break
            if y.op=='call':
                if y.cname in getters(m,k) and y.o and ('+',k[2],basekey(f,y.o[0]))==(bk if k[2] else ('+',0,bk)) and consumed(m,o,f,('i',y.i)): hit=True; break
                if root==('i',y.i):
                    if clears and not o.kind_of_call(f,y) and y.cname not in ALLOC: return '%s is cleared in an object that exists already'%y.loc()
                    hit=True; break       # the object comes into being here (or is looked up: not tracked)
                if (y.cname or '').startswith('llvm.memset') and y.o: 
                    r=basekey(f,y.o[0])
                    while r[0] in('+','*'): r=r[-1]
                    if r==root: hit=True; break
                ts=o.fl.targets(f,y)
                if any(t in o._frees[k] for t in ts):
                    for q in y.o:
                        r=basekey(f,q)
                        while r[0] in('+','*'): r=r[-1]
                        if r==root: hit=True
                    if hit: break
            if y.op=='phi' and root==('i',y.i) and clears: return 'cleared in an object that exists already'
            if y.op in('alloca','phi') and root==('i',y.i): hit=True; break
        loc=True
        if hit: continue
        if b==0:
            if root[0]!='a': 
                return 'entry of %s'%f.name
            cs=o.fl.callers.get(f.name,())
            if not cs or d>4 or (f.name in public_api(m) and not given): return 'entry of %s'%f.name
            for cc in cs:
                g=cc.func
                if root[1]>=len(cc.o): continue
                if given and cc.o[st0.o[0][1]][0]=='n': continue       # detached: the caller has given the object away
                def sub(v): return basekey(g,cc.o[root[1]]) if v==root else tuple(sub(z) if isinstance(z,tuple) else z for z in v)
                r=back(m,o,g,cc.blk,cc.pos-1,k,sub(bk),d+1,None,clears)
                if r: return r if cc.cname else 'callback '+r
            continue
        for p in f.preds[b]:
            t=f.term(p)
            if t.op=='br' and len(t.s)==2 and t.o and t.s[0]!=t.s[1]:
                n=nullcell(f,t.o[0],k,bk)
                if n is not None and (t.s[0]==b)==n: continue
                if together(m,o,f,p,b,k,bk): continue
            if p in seen: continue
            seen.add(p); st.append((p,len(f.blocks[p])-1))
    return None
def nullcell(f,c,k,bk,d=0):
    """True: the condition holds exactly when the field is null; False: exactly when it is not"""
    if c[0]!='i' or d>5: return None
    x=f.insts[c[1]]
    if x.op=='icmp' and x.p in('eq','ne'):
        for a,b in((x.o[0],x.o[1]),(x.o[1],x.o[0])):
            if b[0]=='n' and a[0]=='i' and f.insts[a[1]].op=='load' and addr_key(f,f.insts[a[1]].o[0])==k and basekey(f,f.insts[a[1]].o[0])==bk: return x.p=='eq'
    if x.op=='xor' and x.o[1][0]=='c' and x.o[1][1] in(1,-1):
        r=nullcell(f,x.o[0],k,bk,d+1); return None if r is None else not r
    return None
def unlinked(m,o):
    """yield (call, returns where the unlinked node is neither freed nor put anywhere)"""
    for f in m.defined():
        if is_yaep(f) or f.name=='main': continue
        for x in f.calls():
            if x.cname in('xmlUnlinkNode','xmlReplaceNode') and x.o and x.o[0][0] in('i','a'):
                r=o.explore(f,x,x.o[0])
                yield x,r

UNLINK={'xmlUnlinkNode':0,'xmlReplaceNode':0,'xmlDOMWrapRemoveNode':2}
def freed_in_tree(m,o):
    """yield (call, why) for nodes given to xmlFreeNode: why not None when a tree may still refer to them"""
    live=set(); st=[n for n in list(public_api(m))+['main'] if n in m.funcs]
    while st:
        n=st.pop()
        if n in live: continue
        live.add(n); g=m.funcs[n]
        for y in g.calls(): st.extend(t for t in o.fl.targets(g,y) if t not in live)
        for y in g.all():           # functions handed out as callbacks
            for q in y.o:
                if isinstance(q,tuple) and q[0]=='g' and q[1] in m.funcs and not m.funcs[q[1]].decl: st.append(q[1])
    for f in m.defined():
        if is_yaep(f) or f.name not in live: continue
        for x in f.calls('xmlFreeNode'):
            yield x,inside(m,o,f,x,x.o[0],0)
def inside(m,o,f,x,v,d):
    if v[0]=='n': return None
    src=o.ret_sources(f,v)
    for b in src:
        if b[0]=='n': continue
        if b[0]=='i' and f.insts[b[1]].op=='call' and o.kind_of_call(f,f.insts[b[1]]) in('node','dtd'): continue
        # an element of a local array: what was put into the array
        if b[0]=='i' and f.insts[b[1]].op=='load':
            a=strip0(f,f.insts[b[1]].o[0]); k=addr_key(f,f.insts[b[1]].o[0])
            if not(k and k[0]=='f'):
                ss=[y for y in f.all() if y.op=='store' and y.vt=='ptr' and y.o[1]!=a and strip0(f,y.o[1])==a]
                if ss:
                    for y in ss:
                        # taken out before it is put in the array, or right after it
                        r=None if taken_after(f,y,y.o[0]) else inside(m,o,f,y,y.o[0],d+1)
                        if r: return r
                    continue
        if walk_taken(m,o,f,x,{v,b}): continue
        if b[0]=='a':
            cs=[c for c in o.fl.callers.get(f.name,()) if b[1]<len(c.o)]
            if cs and d<4:
                for c in cs:
                    r=inside(m,o,c.func,c,c.o[b[1]],d+1)
                    if r: return r
                continue
            if f.name in public_api(m) or not cs: 
                continue        # the caller of the API decides
        return 'in %s'%f.name
    return None
def takes(m,f,y,vs,o):
    if y.op!='call': return False
    if y.cname in UNLINK: return UNLINK[y.cname]<len(y.o) and y.o[UNLINK[y.cname]] in vs
    for t in o.fl.targets(f,y):
        for j,q in enumerate(y.o):
            if q in vs and j in unlinks(m,o).get(t,()): return True
    return False
def unlinks(m,o):
    """{function: parameters it takes out of their tree on every way to a return}"""
    r=getattr(o,'_unl',None)
    if r is None:
        r=o._unl={}; ch=True
        while ch:
            ch=False
            for f in m.defined():
                if not any(y.cname in UNLINK or any(t in r for t in o.fl.targets(f,y)) for y in f.calls()): continue
                for k,pt in enumerate(f.params):
                    if pt[0]!='ptr' or k in r.get(f.name,()): continue
                    rets=[z for z in f.all() if z.op=='ret']
                    if rets and all(walk_taken(m,o,f,z,{('a',k)}) for z in rets): r.setdefault(f.name,set()).add(k); ch=True
    return r
def walk_taken(m,o,f,x,vs):
    """on every path back from x to where the value comes from (or the entry) it was taken out of its tree"""
    st=[(x.blk,x.pos-1)]; seen=set()
    while st:
        b,pos=st.pop(); hit=False
        for y in reversed(f.blocks[b][:pos+1]):
            if takes(m,f,y,vs,o): hit=True; break
            if ('i',y.i) in vs and y.i is not None: 
                if y.op=='phi' or (y.op=='load' and strip0(f,y.o[0])[0]=='i' and f.insts[strip0(f,y.o[0])[1]].op=='alloca'): continue
                return False
        if hit: continue
        if b==0: return False
        for p in f.preds[b]:
            if p in seen: continue
            seen.add(p); st.append((p,len(f.blocks[p])-1))
    return True
def taken_after(f,x,v):
    for y in f.blocks[x.blk][x.pos:]:
        if y.op=='call' and y.cname in UNLINK and y.o[UNLINK[y.cname]]==v: return True
    return False

def together(m,o,f,p,b,k,bk):
    """the branch at p tests another field of the same object for null, the field k is released on the other side: they live together"""
    t=f.term(p); c=t.o[0]
    if c[0]!='i': return False
    x=f.insts[c[1]]
    if x.op!='icmp' or x.p not in('eq','ne'): return False
    a=x.o[0] if x.o[1][0]=='n' else x.o[1] if x.o[0][0]=='n' else None
    if not a or a[0]!='i' or f.insts[a[1]].op!='load': return False
    y=f.insts[a[1]]; k2=addr_key(f,y.o[0])
    if not k2 or k2[0]!='f' or k2[1]!=k[1] or k2==k: return False
    def root(v):
        while v[0]=='+': v=v[-1]
        return v
    if root(basekey(f,y.o[0]))!=root(bk): return False
    nulledge=t.s[0] if x.p=='eq' else t.s[1]; other=t.s[1] if x.p=='eq' else t.s[0]
    if nulledge!=b or other==b: return False
    for z in f.all():
        if z.op=='load' and addr_key(f,z.o[0])==k and basekey(f,z.o[0])==bk and f.dominates(other,z.blk):
            for u in f.uses().get(('i',z.i),()):
                if u.op=='call' and any(q==('i',z.i) and 'free' in o.effects(f,u,j) for j,q in enumerate(u.o)): return True
    return False

def getters(m,k):
    """functions that do nothing but return field k of their argument"""
    c=getattr(m,'_getters',None)
    if c is None: c=m._getters={}
    if k not in c:
        out=set()
        for f in m.defined():
            r=[x for x in f.all() if x.op=='ret' and x.o]
            if len(r)==1 and r[0].o[0][0]=='i':
                y=f.insts[r[0].o[0][1]]
                if y.op=='load' and addr_key(f,y.o[0])==k and strip0(f,y.o[0])==('a',0): out.add(f.name)
        c[k]=out
    return c[k]
