"""P10: UTF-8 encoding/decoding is exact for every code point."""
import numpy as np
from driver import Check
from util import *
from charset import *
def enc(cp):
    """the standard's encoding, vectorised: bytes array (n,4) and length"""
    n=len(cp); b=np.zeros((n,4),dtype=np.int64); ln=np.zeros(n,dtype=np.int64)
    m1=cp<0x80; m2=(cp>=0x80)&(cp<0x800); m3=(cp>=0x800)&(cp<0x10000); m4=cp>=0x10000
    b[m1,0]=cp[m1]; ln[m1]=1
    b[m2,0]=0xc0|(cp[m2]>>6); b[m2,1]=0x80|(cp[m2]&63); ln[m2]=2
    b[m3,0]=0xe0|(cp[m3]>>12); b[m3,1]=0x80|((cp[m3]>>6)&63); b[m3,2]=0x80|(cp[m3]&63); ln[m3]=3
    b[m4,0]=0xf0|(cp[m4]>>18); b[m4,1]=0x80|((cp[m4]>>12)&63); b[m4,2]=0x80|((cp[m4]>>6)&63); b[m4,3]=0x80|(cp[m4]&63); ln[m4]=4
    return b,ln
def s8(a): return ((a&255)^128)-128
def run(m):
    c=Check('P10','set-valued dataflow (exhaustive over the code point domain) of the UTF-8 routines\' IR',
            'The code point encoder and the decoder/peeker/length routines are analysed with the domain of all 1,114,112 code points: per CFG path the set of code points reaching it and the stored bytes / returned length / decoded value as functions of the code point. '
            'Every result must equal the Unicode standard\'s UTF-8 table. A second domain (all lead bytes x valid/invalid continuation bytes x truncation after 1..4 bytes) requires malformed or truncated sequences to be refused without reading behind the end.')
    for n in('encode_utf8','decode_utf8','peek_utf8_char','num_utf8_bytes','str_b_u_len'): c.need(n in m.funcs and not m.funcs[n].decl,n)
    cp=np.arange(0x110000,dtype=np.int64); B,LN=enc(cp); N=len(cp)
    where=lambda fn:'%s:%d'%(m.funcs[fn].file,m.funcs[fn].line)
    def bad(mask): 
        k=np.nonzero(mask)[0]; return 'U+%04X..U+%04X (%d code points)'%(k[0],k[-1],k.size) if k.size else ''
    def cover(fn,outs,n):
        tot=np.zeros(n,dtype=bool)
        for mk,_,_ in outs: tot|=mk
        return ~tot
    # --- encode
    e=Engine(m,N); outs=e.run('encode_utf8',[cp,Ptr(('out',),0)])
    miss=cover('encode_utf8',outs,N); c.ob('encode:total',not miss.any(),where('encode_utf8'),'no result for '+bad(miss))
    for i,(mk,v,mem) in enumerate(outs):
        if v is TOP: c.undecided('encode:len',where('encode_utf8'),'length not determined'); continue
        w=mk&(v!=LN); c.ob('encode:len',not w.any(),where('encode_utf8'),'wrong length for '+bad(w))
        for k in range(4):
            x=e.load(Ptr(('out',),k),'i8',mem,mk)
            if x is TOP:
                if (e.anywhere(mem) or (('out',),'havoc') in mem): c.undecided('encode:byte%d'%k,where('encode_utf8'),'not determined')
                else: c.ob('encode:byte%d'%k,not (mk&(LN>k)).any(),where('encode_utf8'),'byte %d not written for %s'%(k,bad(mk&(LN>k))))
                continue
            w=mk&(LN>k)&(s8(x+np.zeros(N,dtype=np.int64))!=s8(B[:,k])); c.ob('encode:byte%d'%k,not w.any(),where('encode_utf8'),'wrong byte %d for %s'%(k,bad(w)))
    # --- decode of the standard's encodings
    def bufmem(Bx):
        def ld(off,t):
            if t=='i8' and 0<=off<Bx.shape[1]: return s8(Bx[:,off])
            return None
        return ld
    e=Engine(m,N,input_mem={('buf',):bufmem(B)})
    outs=e.run('decode_utf8',[Ptr(('buf',),0),Ptr(('buf',),LN),Ptr(('cp',),0),Ptr(('len',),0)])
    miss=cover('decode_utf8',outs,N); c.ob('decode:total',not miss.any(),where('decode_utf8'),'no result for '+bad(miss))
    for mk,v,mem in outs:
        if v is TOP: c.undecided('decode:accept',where('decode_utf8'),''); continue
        w=mk&((v&1)!=1); c.ob('decode:accept',not w.any(),where('decode_utf8'),'valid encoding refused for '+bad(w))
        for nm,want,t in((('cp',),cp,'i32'),(('len',),LN,'i64')):
            x=e.load(Ptr(nm,0),t,mem,mk); w=mk if x is TOP else mk&(x!=want)
            c.ob('decode:%s'%nm[0],not w.any(),where('decode_utf8'),'wrong %s for %s'%(nm[0],bad(w)))
    # --- peek + num bytes
    e=Engine(m,N,input_mem={('buf',):bufmem(B)})
    for mk,v,mem in e.run('peek_utf8_char',[Ptr(('buf',),0),Ptr(('buf',),LN),Ptr(('out',),0)]):
        if v is TOP: c.undecided('peek:len',where('peek_utf8_char'),''); continue
        w=mk&(v!=LN); c.ob('peek:len',not w.any(),where('peek_utf8_char'),'wrong length for '+bad(w))
        for k in range(4):
            x=e.load(Ptr(('out',),k),'i8',mem,mk); w=mk&(LN>k) if x is TOP else mk&(LN>k)&(s8(x+np.zeros(N,dtype=np.int64))!=s8(B[:,k]))
            c.ob('peek:byte%d'%k,not w.any(),where('peek_utf8_char'),'wrong byte %d for %s'%(k,bad(w)))
    r=byte_classes(m,'num_utf8_bytes')
    for b in range(256):
        want=1 if b<0x80 else 2 if 0xc0<=b<0xe0 else 3 if 0xe0<=b<0xf0 else 4 if 0xf0<=b<0xf8 else 0
        have=[k for k,s in r.items() if b in s]
        c.ob('num_utf8_bytes:%02x'%b,have==[want],where('num_utf8_bytes'),'byte %#x classified as %s, expected %s'%(b,have,want))
    # --- malformed / truncated
    rows=[]
    CONT=[0x80,0x95,0xbf,0x41,0xc3,0x00]
    for lead in range(256):
        need=1 if lead<0x80 else 2 if 0xc0<=lead<0xe0 else 3 if 0xe0<=lead<0xf0 else 4 if 0xf0<=lead<0xf8 else 0
        for avail in range(1,5):
            for c1 in(CONT if avail>1 else [None]):
                for c2 in(CONT if avail>2 else [None]):
                    for c3 in(CONT if avail>3 else [None]): rows.append((lead,avail,[c1,c2,c3],need))
    n=len(rows); A=np.zeros((n,4),dtype=np.int64); AV=np.array([r[1] for r in rows]); OK=np.zeros(n,dtype=bool); past=[]
    for i,(lead,avail,cs,need) in enumerate(rows):
        A[i,0]=lead
        for k in range(3): A[i,k+1]=cs[k] if cs[k] is not None else 0x5a5a
        OK[i]=need>0 and avail>=need and all(0x80<=cs[k]<0xc0 for k in range(need-1))
    cur={'mask':None}
    class E2(Engine):
        def load(self,p,t,mem,mask=None):
            if isinstance(p,Ptr) and p.base==('buf',) and isinstance(p.off,int) and mask is not None:
                w=mask&(AV<=p.off)
                if w.any(): past.append((p.off,rows[int(np.nonzero(w)[0][0])]))
            return Engine.load(self,p,t,mem,mask)
    e=E2(m,n,input_mem={('buf',):bufmem(A)})
    for mk,v,mem in e.run('decode_utf8',[Ptr(('buf',),0),Ptr(('buf',),AV.astype(np.int64)),Ptr(('cp',),0),Ptr(('len',),0)]):
        if v is TOP: c.undecided('decode:malformed',where('decode_utf8'),''); continue
        vv=(v&1)+np.zeros(n,dtype=np.int64)
        w=mk&((vv==1)!=OK); k=np.nonzero(w)[0]
        c.ob('decode:malformed',not w.any(),where('decode_utf8'),'sequence %s decided wrongly'%(rows[int(k[0])],) if k.size else '')
        x=e.load(Ptr(('len',),0),'i64',mem,None); xx=np.full(n,99) if x is TOP else x+np.zeros(n,dtype=np.int64)
        w=mk&((xx>AV)|(xx<1)); c.ob('decode:advance',not w.any(),where('decode_utf8'),'reported length outside 1..available bytes')
    c.ob('decode:past-end',not past,where('decode_utf8'),'reads behind the end: %s'%(past[:1],))
    past.clear(); e=E2(m,n,input_mem={('buf',):bufmem(A)})
    e.run('peek_utf8_char',[Ptr(('buf',),0),Ptr(('buf',),AV.astype(np.int64)),Ptr(('out',),0)])
    c.ob('peek:past-end',not past,where('peek_utf8_char'),'reads behind the end: offset/(lead, available, continuation, needed) %s'%(past[:1],))
    # --- counting: exactly the non continuation bytes are counted
    c.cov.update(code_points=N,malformed_sequences=n,paths=e.steps)
    return c
