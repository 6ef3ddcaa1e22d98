"""P11: Unicode character classes used by ixml grammars."""
import numpy as np, unicodedata, hashlib
from driver import Check
from util import *
from charset import *
BASE='Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn'.split()
COMP={'LC':['Lu','Ll','Lt'],'L':['Lu','Ll','Lt','Lm','Lo'],'M':['Mn','Mc','Me'],'N':['Nd','Nl','No'],'P':['Pc','Pd','Ps','Pe','Pi','Pf','Po'],'S':['Sm','Sc','Sk','So'],'Z':['Zs','Zl','Zp'],'C':['Cc','Cf','Cs','Co','Cn']}
def run(m):
    c=Check('P11','constant-table extraction from the IR compared with the Unicode character database; set-valued dataflow over the lookup code',
            'For each general category: the declared length equals the array size, the table is sorted (the lookup is a binary search), every BMP character of the category is present and no character of another category is; '
            'the composite classes consist of exactly their member categories; the name lookup maps each category name to its own table and length; the membership search returns exactly the members of its table (all code points, several tables).')
    cats={}
    for cat in BASE:
        g=c.need(m.globals.get('unicode_'+cat),'table unicode_'+cat); n=c.need(m.globals.get('unicode_len_'+cat),'length unicode_len_'+cat)
        i=g['init']; v=[x[1] for x in i[1]] if i[0]=='agg' else [0]*(g['sz']//4)
        where='%s:%s'%(m.files[g['f']].split('/src/main/c/')[-1],g.get('l'))
        c.ob('%s:length'%cat,n['init'][1]==len(v),where,'declared length %s, %d entries'%(n['init'],len(v)))
        c.ob('%s:sorted'%cat,all(a<=b for a,b in zip(v,v[1:])),where,'entries are not sorted')
        cats[cat]=v
        if v==[-1]:   # category deliberately left empty by the library
            c.cov.setdefault('empty_categories',[]).append(cat); continue
        bmp={k for k in range(0x10000) if unicodedata.category(chr(k))==cat}
        if cat=='Lo': bmp={k for k in bmp if not(0x3400<=k<=0x4dbf or 0x4e00<=k<=0x9fff or 0xac00<=k<=0xd7a3)}
        miss=sorted(bmp-set(v)); wrong=sorted(k for k in set(v) if not(0<=k<=0x10ffff) or (unicodedata.category(chr(k)) not in(cat,'Cn')))
        c.ob('%s:missing:%s'%(cat,sig(miss)),not miss,where,'%d characters of the category missing, e.g. %s'%(len(miss),['U+%04X'%k for k in miss[:5]]))
        c.ob('%s:wrong:%s'%(cat,sig(wrong)),not wrong,where,'%d entries belong to another category, e.g. %s'%(len(wrong),['U+%04X'%k for k in wrong[:5]]))
        if cat=='Lo':
            for a,b in((0x3400,0x4dbf),(0x4e00,0x9fff),(0xac00,0xd7a3)):
                have=sum(1 for k in set(v) if a<=k<=b)
                c.ob('Lo:range:%x:%s'%(a,'full' if have==b-a+1 else have),have==b-a+1,where,'only %d of the %d letters U+%04X..U+%04X are members'%(have,b-a+1,a,b))
        astral=[k for k in v if k>0xffff]; want=[k for k in range(0x10000,0x110000) if unicodedata.category(chr(k))==cat] if cat not in('Co','Cn') else []
        c.ob('%s:astral:%d'%(cat,len(set(want)-set(astral))),not(set(want)-set(astral)),where,'%d characters above U+FFFF of the category missing'%len(set(want)-set(astral)))
        dup=len(v)-len(set(v)); c.ob('%s:duplicates:%d'%(cat,dup),dup==0,where,'%d duplicate entries'%dup)
    for cat,parts in list(COMP.items())+[(b,[b]) for b in BASE]:
        g=c.need(m.globals.get('unicode_category_'+cat),'class unicode_category_'+cat)
        l=[m.cstr(x) for x in g['init'][1]]; t=g['init'][1][-1]
        got=[x.decode() for x in l[:-1] if x is not None]
        where='%s:%s'%(m.files[g['f']].split('/src/main/c/')[-1],g.get('l'))
        c.ob('class:%s'%cat,sorted(got)==sorted(parts) and t[0]=='n',where,'class %s is made of %s, expected %s'%(cat,got,parts))
    # name lookup: strcmp chain -> table/length pair
    f=c.need(m.funcs.get('unicode_get_category_part'),'unicode_get_category_part')
    for cat in BASE:
        for mk,v,mem in lookup(m,'unicode_get_category_part',cat,[Ptr(('out',),0),Ptr(('len',),0)]):
            a=mem.get((('out',),0)); b=mem.get((('len',),0)); gl=m.globals['unicode_len_'+cat]['init'][1]
            ok=v is not TOP and v&1==1 and a and isinstance(a[0],Ptr) and a[0].base==('g','unicode_'+cat) and b and b[0]==gl
            c.ob('lookup:%s'%cat,ok,'%s:%d'%(f.file,f.line),'category %s maps to table %s, length %s'%(cat,a,b))
    f=c.need(m.funcs.get('unicode_lookup_category_parts'),'unicode_lookup_category_parts')
    for cat in BASE+list(COMP):
        for mk,v,mem in lookup(m,'unicode_lookup_category_parts',cat,[]):
            c.ob('class-lookup:%s'%cat,isinstance(v,Ptr) and v.base==('g','unicode_category_'+cat),'%s:%d'%(f.file,f.line),'class %s maps to %s'%(cat,v))
    # membership search
    f=c.need(m.funcs.get('category_has_code'),'category_has_code')
    cp=np.arange(0x10000,dtype=np.int64)
    for cat in('Lt','Zs','Pc','Sc','Me','Pd','Zl'):
        e=frozen(Engine(m,len(cp),max_steps=3000000)); got=np.zeros(len(cp),dtype=bool); unk=False
        for mk,v,mem in e.run('category_has_code',[cp,Ptr(('g','unicode_'+cat),0),len(cats[cat])]):
            if v is TOP: unk=True
            elif isinstance(v,np.ndarray): got|=mk&((v&1)==1)
            elif v&1: got|=mk
        want=np.isin(cp,cats[cat]); w=np.nonzero(got!=want)[0]
        c.ob('search:%s'%cat,not unk and not w.size,'%s:%d'%(f.file,f.line),'membership of U+%04X in %s decided wrongly'%(int(w[0]) if w.size else 0,cat))
    c.cov.update(tables=len(BASE),classes=len(COMP),ucd=unicodedata.unidata_version)
    return c
def sig(l): return hashlib.sha1(repr(l).encode()).hexdigest()[:8] if l else 'none'
class Frozen_:
    def __contains__(self,n): return n.startswith('unicode_')
def frozen(e): e.frozen=Frozen_(); return e
def lookup(m,fn,name,rest):
    def cm(e,x,args,mask,mem):
        if x.cname=='strcmp':
            a,b=args
            for p,q in((a,b),(b,a)):
                if isinstance(p,Ptr) and p.base==('name',) and isinstance(q,Ptr) and q.base[0]=='g':
                    s=m.cstr(('g',q.base[1])); return 0 if s==name.encode() else 1
        return NotImplemented
    e=frozen(Engine(m,1,call_model=cm,input_mem={('name',):lambda off,t:(name.encode()+b'\0'*8)[off] if t=='i8' else None}))
    return e.run(fn,[Ptr(('name',),0)]+rest)
