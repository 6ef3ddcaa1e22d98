"""P20: commands, options and keywords are understood as documented."""
import os,re
from driver import Check
from util import *
from words import Run,Text,TOP,NZ
C='XMQCliCommand'
E=lambda n:('E',n)                       # value of an enumerator
V=('V',)                                 # the text after the name of the option
A=('S',0)                                # the argument itself
# command -> (enumerator, function, fields set by it)
TO='cmd_to'
COMMANDS={
 'add':('ADD','cmd_add',{}),'add-root':('ADD_ROOT','cmd_add_root',{}),'br':('BROWSER','cmd_output',{'render_to':'XMQ_RENDER_HTML'}),'browse':('BROWSER','cmd_output',{'render_to':'XMQ_RENDER_HTML'}),
 'delete':('DELETE','cmd_delete',{}),'delete-entity':('DELETE_ENTITY','cmd_delete',{}),'for-each':('FOR_EACH','cmd_for_each',{}),'help':('HELP','cmd_help',{'print_help':1}),
 'load':('LOAD','cmd_load',{}),'no-output':('NO_OUTPUT',None,{}),'pa':('PAGER','cmd_output',{'render_to':'XMQ_RENDER_TERMINAL'}),'page':('PAGER','cmd_output',{'render_to':'XMQ_RENDER_TERMINAL'}),
 'print':('PRINT','cmd_output',{'render_to':'XMQ_RENDER_TERMINAL'}),
 'render-html':('RENDER_HTML',TO,{'out_format':'XMQ_CONTENT_XMQ','render_to':'XMQ_RENDER_HTML'}),'render-raw':('RENDER_RAW',TO,{'render_to':'XMQ_RENDER_RAW'}),
 'render-terminal':('RENDER_TERMINAL',TO,{'out_format':'XMQ_CONTENT_XMQ','render_to':'XMQ_RENDER_TERMINAL'}),'render-tex':('RENDER_TEX',TO,{'out_format':'XMQ_CONTENT_XMQ','render_to':'XMQ_RENDER_TEX'}),
 'replace':('REPLACE','cmd_replace',{}),'replace-entity':('REPLACE_ENTITY','cmd_replace',{}),'save-to':('SAVE_TO','cmd_output',{'render_to':'XMQ_RENDER_PLAIN'}),'select':('SELECT','cmd_select',{}),
 'statistics':('STATISTICS','cmd_statistics',{}),'substitute-char-entities':('SUBSTITUTE_CHAR_ENTITIES','cmd_substitute',{}),'substitute-entity':('SUBSTITUTE_ENTITY','cmd_substitute',{}),
 'to-html':('TO_HTML',TO,{'out_format':'XMQ_CONTENT_HTML'}),'to-htmq':('TO_HTMQ',TO,{'out_format':'XMQ_CONTENT_HTMQ'}),'to-json':('TO_JSON',TO,{'out_format':'XMQ_CONTENT_JSON'}),'to-text':('TO_TEXT',TO,{'out_format':'XMQ_CONTENT_TEXT'}),
 'to-xml':('TO_XML',TO,{'out_format':'XMQ_CONTENT_XML'}),'to-xmq':('TO_XMQ',TO,{'out_format':'XMQ_CONTENT_XMQ'}),'to-clines':('TO_CLINES',TO,{'out_format':'XMQ_CONTENT_CLINES'}),
 'tokenize':('TOKENIZE','cmd_tokenize',{}),'transform':('TRANSFORM','cmd_transform',{}),'validate':('VALIDATE','cmd_validate',{}),'quote-c':('QUOTE_C','cmd_quote_unquote',{}),'unquote-c':('UNQUOTE_C','cmd_quote_unquote',{})}
# global option -> fields ('name=' options: V is the text after the equal sign; ('or',x): added to the flags)
GLOBAL={'--help':{'print_help':1},'-h':{'print_help':1},'-z':{'no_input':1},'-i':{'in_is_content':1},'--xml-of-ixml':{'build_xml_of_ixml':1},'--trace':{'trace':1},'--debug':{'debug':1},'--verbose':{'verbose':1},
 '--license':{'print_license':1},'--version':{'print_version':1},'--xmq':{'in_format':'XMQ_CONTENT_XMQ'},'--htmq':{'in_format':'XMQ_CONTENT_HTMQ'},'--json':{'in_format':'XMQ_CONTENT_JSON'},'--xml':{'in_format':'XMQ_CONTENT_XML'},
 '--html':{'in_format':'XMQ_CONTENT_HTML'},'--text':{'in_format':'XMQ_CONTENT_TEXT'},'--clines':{'in_format':'XMQ_CONTENT_CLINES'},'--ixml':{'in_format':'XMQ_CONTENT_IXML'},
 '--ixml-all-parses':{'ixml_all_parses':1},'--ixml-try-to-recover':{'ixml_try_to_recover':1},'--root=':{'implicit_root':V},'--lines':{'lines':1},'--no-merge':{'flags':('or','XMQ_FLAG_NOMERGE')},'--nomerge':{'flags':('or','XMQ_FLAG_NOMERGE')},
 '--trim=none':{'flags':('or','XMQ_FLAG_TRIM_NONE')},'--trim=heuristic':{'flags':('or','XMQ_FLAG_TRIM_HEURISTIC')},'--trim=default':{},'--log-xmq':{},'-lx':{}}
RENDER=['RENDER_TERMINAL','RENDER_HTML','RENDER_TEX','RENDER_RAW']
TOS=['TO_XMQ','TO_HTMQ','TO_XML','TO_HTML','TO_JSON','TO_TEXT','TO_CLINES']
TEXTS=['TO_XMQ','TO_HTMQ']+RENDER
# (commands, option) -> fields
OPTIONS=[(TOS+RENDER,'--compact',{'add_indent':0,'compact':1}),(['TO_XML'],'-o',{'omit_decl':1}),(['TO_XML'],'--omit-decl',{'omit_decl':1}),(['QUOTE_C','UNQUOTE_C'],'--add-nl',{'add_nl':1}),
 (TEXTS,'--escape-newlines',{'escape_newlines':1}),(TEXTS,'--escape-non-7bit',{'escape_non_7bit':1}),(TEXTS,'--escape-tabs',{'escape_tabs':1}),(TEXTS,'--indent=',{'add_indent':('atoi',)}),
 (RENDER,'--class=',{'use_class':V}),(RENDER,'--id=',{'use_id':V}),(RENDER,'--color',{'use_color':1,'render_to?':'XMQ_RENDER_TERMINAL'}),(RENDER,'--mono',{'use_color':0}),(RENDER,'--nostyle',{'render_raw':1}),(RENDER,'--onlystyle',{'only_style':1}),
 (RENDER,'--theme=',{'render_theme':V}),(RENDER,'--use-cr=',{'explicit_cr':V,'has_overrides':1}),(RENDER,'--use-es=',{'explicit_space':V,'has_overrides':1}),(RENDER,'--use-et=',{'explicit_tab':V,'has_overrides':1}),
 (RENDER,'--use-is=',{'indentation_space':V,'has_overrides':1}),(RENDER,'--use-nl=',{'explicit_nl':V,'has_overrides':1}),
 (['TOKENIZE'],'--type=debugtokens',{'tok_type':'XMQ_CLI_TOKENIZE_DEBUG_TOKENS'}),(['TOKENIZE'],'--type=debugcontent',{'tok_type':'XMQ_CLI_TOKENIZE_DEBUG_CONTENT'}),(['TOKENIZE'],'--type=terminal',{'tok_type':'XMQ_CLI_TOKENIZE_TERMINAL','use_color':1}),
 (['TOKENIZE'],'--type=html',{'tok_type':'XMQ_CLI_TOKENIZE_HTML'}),(['TOKENIZE'],'--type=tex',{'tok_type':'XMQ_CLI_TOKENIZE_TEX'}),(['TOKENIZE'],'--type=location',{'tok_type':'XMQ_CLI_TOKENIZE_LOCATION'}),
 (['LOAD'],'--alias=',{'alias':V}),(['VALIDATE'],'--silent',{'silent':1})]
# the file or text an option or command takes is handed on exactly
HANDED=[('VALIDATE','',A,'xmqParseFileWithType',1),('TRANSFORM','',A,'xmqParseFileWithType',1),('DELETE_ENTITY','--with-text-file=',V,'load_file_into_buffer',0),('REPLACE_ENTITY','--with-text-file=',V,'load_file_into_buffer',0)]
ARGS=[('SAVE_TO','save_file'),('HELP','help_command'),('SELECT','xpath'),('DELETE','xpath'),('REPLACE','xpath'),('ADD_ROOT','xpath'),('FOR_EACH','xpath'),('ADD','add_xmq'),('LOAD','in'),('REPLACE_ENTITY','entity'),('REPLACE_ENTITY','content'),('DELETE_ENTITY','entity'),('SUBSTITUTE_ENTITY','entity')]
FLAGS={'XMQ_FLAG_NOMERGE':None,'XMQ_FLAG_TRIM_NONE':None,'XMQ_FLAG_TRIM_HEURISTIC':None}
# setter of the library -> (field of the settings, field of the command)
WIRES={'xmqSetCompact':('compact','compact'),'xmqSetEscapeNewlines':('escape_newlines','escape_newlines'),'xmqSetEscapeNon7bit':('escape_non_7bit','escape_non_7bit'),'xmqSetEscapeTabs':('escape_tabs','escape_tabs'),
 'xmqSetAddIndent':('add_indent','add_indent'),'xmqSetUseColor':('use_color','use_color'),'xmqSetOutputFormat':('output_format','out_format'),'xmqSetRenderFormat':('render_to','render_to'),'xmqSetRenderRaw':('render_raw','render_raw'),
 'xmqSetRenderOnlyStyle':('only_style','only_style'),'xmqSetRenderTheme':('render_theme','render_theme'),'xmqSetOmitDecl':('omit_decl','omit_decl'),'xmqSetBackgroundMode':('bg_dark_mode','bg_dark_mode')}
CALLS={'xmqRenderHtmlSettings':{1:'use_id',2:'use_class'},'xmqOverrideSettings':{1:'indentation_space',2:'explicit_space',3:'explicit_tab',4:'explicit_cr',5:'explicit_nl'},
 'xmqParseFileWithType':{1:'in',2:'implicit_root',3:'in_format',4:'flags'},'xmqParseBufferWithType':{1:'in',3:'implicit_root',4:'in_format',5:'flags'}}
READERS={'XML':'xmq_parse_buffer_xml','HTML':'xmq_parse_buffer_html','JSON':'xmq_parse_buffer_json','IXML':'xmq_parse_buffer_ixml','TEXT':'xmq_parse_buffer_text','CLINES':'xmq_parse_buffer_clines','XMQ':'xmqParseBuffer','HTMQ':'xmqParseBuffer'}
PRINTERS={'XML':'xmq_print_xml','HTML':'xmq_print_html','JSON':'xmq_print_json','TEXT':'xmq_print_text','CLINES':'xmq_print_clines','XMQ':'xmq_print_xmq','HTMQ':'xmq_print_xmq'}
TYPES={'LIST':None}

def headers(m):
    """#define XMQ_FLAG_... values"""
    t=open(os.path.join(m.repo_src,'xmq.h')).read(); ev=dict(m.enumvals)
    for n,v in re.findall(r'#define\s+(XMQ_FLAG_\w+)\s+(0x[0-9a-fA-F]+|\d+)',t): ev.setdefault(n,int(v,0))
    return ev

def run(m):
    c=Check('P20','conditional constant propagation over abstract command line words against the documented commands and options (LLVM IR)',
            'For every documented command and option the functions that interpret the command line are analysed with an abstract word (the option exactly, the option followed by any value, the option followed by more letters): which blocks can be executed, which fields of the command are set to what, what is returned, which function is called. The result is compared with the documented meaning. Fields are followed to the setters and calls of the library and to the reader or printer of the format. Every comparison of a limited number of characters with a keyword must compare the whole keyword and be followed or preceded by a test of where the word ends.')
    ev=headers(m); n={'commands':0,'options':0,'words':0,'docs':0,'wires':0,'values':0}
    def func(name,lit):
        if name in m.funcs and not m.funcs[name].decl: return m.funcs[name]
        for f in m.defined():
            if f.file.endswith('xmq-cli.c') and any(x.cname=='strcmp' and any(m.cstr(o)==lit for o in x.o if o[0] in('g','ce')) for x in f.calls()): return f
        c.need(False,'function interpreting '+lit.decode())
    cf=func('cmd_from',b'to-clines'); ho=func('handle_option',b'--escape-tabs'); go=func('handle_global_option',b'--xml-of-ixml')
    pc=m.funcs.get('perform_command'); pp=m.funcs.get('prepare_command'); cn=m.funcs.get('cmd_name')
    c.need(pc and pp and cn,'perform_command, prepare_command, cmd_name')
    def val(v):
        if isinstance(v,int): return ('c',v)
        if isinstance(v,str):
            return ('c',ev[v]) if v in ev else None
        if v[0]=='or': return ('or',ev[v[1]]) if v[1] in ev else None
        return v
    tabs=tables(m)
    # ---- commands
    for w,(en,fn,fl) in sorted(COMMANDS.items()):
        k='XMQ_CLI_CMD_'+en; n['commands']+=1
        if k not in ev: c.undecided('command:'+w,cf.file,'no enumerator '+k); continue
        v=ev[k]; r=Run(m,cf,Text(w)).returns()
        if r==set() or TOP in r:
            p=[y for t in tabs for x,y in t if x==w.encode()]
            if p: r={('c',p[0])}
        if TOP in r: c.undecided('command:'+w,'%s:%d'%(cf.file,cf.line),'not decided')
        else: c.ob('command:%s'%w,r=={('c',v)},'%s:%d'%(cf.file,cf.line),'the command "%s" is understood as %s'%(w,names(ev,'XMQ_CLI_CMD_',r)))
        r=Run(m,cf,Text(w+'x',False)).returns(); n['words']+=1
        if TOP not in r: c.ob('command:%s:whole'%w,r=={('c',ev['XMQ_CLI_CMD_NONE'])},'%s:%d'%(cf.file,cf.line),'a longer word that starts with "%s" is understood as %s'%(w,names(ev,'XMQ_CLI_CMD_',r)))
        # what is prepared and performed
        r=Run(m,pp,None,0,{(C,'cmd'):v}); st=r.stores(C)
        for fd,fv in fl.items():
            got=[y for x,y,_ in st if x==fd]
            c.ob('command:%s:%s'%(w,fd),bool(got) and all(g==val(fv) or g==TOP for g in got),'%s:%d'%(pp.file,pp.line),'the command "%s" sets %s to %s instead of %s'%(w,fd,got or 'nothing',fv))
        r=Run(m,pc,None,0,{(C,'cmd'):v}); got={x.cname for x in r.called() if x.cname in {q[1] for q in COMMANDS.values()}}
        if not got and any(x.op=='call' and x.cname is None for x in r.instrs()): c.undecided('command:%s:performed'%w,pc.file,'performed through a pointer')
        else: c.ob('command:%s:performed'%w,got==({fn} if fn else set()),'%s:%d'%(pc.file,pc.line),'the command "%s" performs %s instead of %s'%(w,sorted(got) or 'nothing',fn))
    # ---- names of commands are commands
    for k,v in sorted(ev.items()):
        if not k.startswith('XMQ_CLI_CMD_') or k.startswith('XMQ_CLI_CMD_GROUP') or k.endswith('_NONE'): continue
        s={m.cstr(g[1]) if g[0]=='G' else None for g in Run(m,cn,None,0,{},{0:('c',v)}).returns()}
        for w in s:
            if w is None: c.undecided('name:'+k,cn.file,'not decided'); continue
            r=Run(m,cf,Text(w)).returns()
            if TOP in r: continue
            n['words']+=1
            c.ob('name:%s'%k,r=={('c',v)},'%s:%d'%(cn.file,cn.line),'the command is called "%s" in messages but that word is understood as %s'%(w.decode(),names(ev,'XMQ_CLI_CMD_',r)))
    # ---- options
    def check(f,opt,spec,fields,tag,entry=0):
        n['options']+=1
        is_val=opt.endswith('='); txt=Text(opt,not is_val)
        r=Run(m,f,txt,entry,fields); st=r.stores(C); rets=r.returns(); where='%s:%d'%(f.file,f.line)
        want={}; may={}
        for k,v in spec.items(): (may if k.endswith('?') else want)[k.rstrip('?')]=('S',len(opt)) if v==V else v if v==('atoi',) else val(v)
        for k,v in want.items():
            if v is None: c.undecided('%s:%s'%(tag,k),where,'value not known'); continue
            got=[(y,x) for a,y,x in st if a==k]
            if v==('atoi',):
                def num(x):
                    o=f.insts[x.o[0][1]] if x.o[0][0]=='i' else None
                    while o is not None and o.op in('trunc','sext','zext'): o=f.insts[o.o[0][1]] if o.o[0][0]=='i' else None
                    return o is not None and o.op=='call' and (o.cname or '').startswith(('atoi','strto','atol')) and r.op(o.o[0])==('S',len(opt))
                good=bool(got) and all(num(x) for _,x in got)
            else: good=bool(got) and all(y==v for y,_ in got)
            unk=bool(got) and all(y in(v,TOP) for y,_ in got) and v!=('atoi',) and v[0]=='c'
            if unk and not good: c.undecided('%s:%s'%(tag,k),where,'value not followed'); continue
            c.ob('%s:%s'%(tag,k),good,got[0][1].loc() if got else where,'%s%s sets %s to %s, expected %s'%(opt,'' if not is_val else '<value>',k,show(got,opt) if got else 'nothing',show([(v,None)],opt)))
        extra=[(a,y,x) for a,y,x in st if a not in want and not(a in may and y==may[a])]
        c.ob('%s:only'%tag,not extra,extra[0][2].loc() if extra else where,'%s also sets %s'%(opt,extra[0][0]) if extra else '')
        ok=bool(rets) and ('c',0) not in rets
        c.ob('%s:accepted'%tag,ok,where,'%s is not accepted'%opt)
        # not a prefix of another word
        if not is_val:
            r=Run(m,f,Text(opt+'x',False),entry,fields); n['words']+=1
            hit=[(a,x) for a,y,x in r.stores(C) if a in want and y==want[a]]
            c.ob('%s:whole'%tag,not hit,hit[0][1].loc() if hit else where,'a longer word that starts with %s is taken for it'%opt)
        return r
    for opt,spec in sorted(GLOBAL.items()):
        check(go,opt,spec,{},'global:'+opt)
    for cmds,opt,spec in OPTIONS:
        for en in cmds:
            if 'XMQ_CLI_CMD_'+en in ev: check(ho,opt,spec,{(C,'cmd'):ev['XMQ_CLI_CMD_'+en]},'option:%s:%s'%(en.lower(),opt))
    # ---- arguments
    for en,fd in ARGS:
        k='XMQ_CLI_CMD_'+en
        if k not in ev: continue
        r=Run(m,ho,Text('',False),0,{(C,'cmd'):ev[k]}); got=[(y,x) for a,y,x in r.stores(C) if a==fd and y[0]=='S']; n['options']+=1
        c.ob('argument:%s:%s'%(en.lower(),fd),any(y==A for y,_ in got),got[0][1].loc() if got else '%s:%d'%(ho.file,ho.line),'the argument of %s does not become %s'%(en.lower(),fd))
    for en,opt,want,callee,i in HANDED:
        k='XMQ_CLI_CMD_'+en
        if k not in ev: continue
        r=Run(m,ho,Text(opt,False),0,{(C,'cmd'):ev[k]}); n['options']+=1
        w=('S',len(opt)) if want==V else want
        got=[(r.op(x.o[i]),x) for x in r.called() if x.cname==callee]
        c.ob('argument:%s:%s'%(en.lower(),opt or callee),bool(got) and all(y==w for y,_ in got),got[0][1].loc() if got else '%s:%d'%(ho.file,ho.line),'the file given to %s %s is not the one that is read'%(en.lower(),opt))
    # parameters of a stylesheet: the name starts right after the equal sign
    tr=ev.get('XMQ_CLI_CMD_TRANSFORM')
    for opt in('--stringparam=','--param='):
        r=Run(m,ho,Text(opt,False),0,{(C,'cmd'):tr}); n['options']+=1
        got=[(r.op(x.o[0]),x) for x in r.called() if x.cname=='strchr' and r.op(x.o[0]) and r.op(x.o[0])[0]=='S']
        c.ob('argument:transform:%s'%opt,bool(got) and got[0][0]==('S',len(opt)),got[0][1].loc() if got else '%s:%d'%(ho.file,ho.line),'the name of the parameter given with %s starts at the wrong place'%opt)
    # ---- settings
    wires(m,c,n)
    for fnm,kind,table in(('xmqParseBufferWithType','type',READERS),('xmqPrint','format',PRINTERS)):
        f=m.funcs.get(fnm); c.need(f and not f.decl,fnm)
        for ct,want in sorted(table.items()):
            v=ev.get('XMQ_CONTENT_'+ct)
            if v is None: continue
            r=Run(m,f,None,0,{('XMQOutputSettings','output_format'):v} if fnm=='xmqPrint' else {},{} if fnm=='xmqPrint' else {4:('c',v)})
            got={x.cname for x in r.called() if x.cname in set(table.values())}; n['wires']+=1
            c.ob('%s:%s'%(fnm,ct),got=={want},'%s:%d'%(f.file,f.line),'%s content is handled by %s instead of %s'%(ct.lower(),sorted(got) or 'nothing',want))
    docs(m,c,n,ev,cf,tabs)
    keywords(m,c,n)
    c.cov.update(**n)
    return c

def names(ev,pre,r): return ', '.join(sorted(k[len(pre):].lower() for k,v in ev.items() if k.startswith(pre) and not k.startswith(pre+'GROUP') and ('c',v) in r)) or 'something else'
def show(got,opt):
    out=[]
    for y,_ in got:
        out.append(str(y[1]) if y[0]=='c' else '|= %d'%y[1] if y[0]=='or' else 'the text from character %d on (the value starts at %d)'%(y[1],len(opt)) if y[0]=='S' else 'the number after it' if y[0]=='atoi' else 'something else')
    return ', '.join(out)
def tables(m):
    """constant tables of (word, number)"""
    out=[]
    for g in m.globals.values():
        i=g.get('init')
        if not i: continue
        rows=[]
        def rec(v):
            if not isinstance(v,tuple): return
            if len(v)>=2 and isinstance(v[1],tuple) and v and v[0] in('st','a','A','S','struct','array'):
                pass
            strs=[m.cstr(y) for y in flat(v) if isinstance(y,tuple) and y and y[0] in('g','ce')]; nums=[y[1] for y in flat(v) if isinstance(y,tuple) and len(y)>=2 and y[0]=='c']
            if len(strs)==1 and strs[0] is not None and len(nums)>=1: rows.append((strs[0],nums[0])); return
            for y in v:
                if isinstance(y,tuple): rec(y)
        rec(i)
        if len(rows)>5: out.append(rows)
    return out
def flat(v):
    if isinstance(v,tuple):
        if v and v[0] in('g','ce','c') : yield v; return
        for y in v:
            yield from flat(y)

def wires(m,c,n):
    def fld(f,o):
        while o[0]=='i' and f.insts[o[1]].op in('trunc','zext','sext','freeze') : o=f.insts[o[1]].o[0]
        if o[0]=='i' and f.insts[o[1]].op=='icmp' and f.insts[o[1]].p=='ne': return fld(f,f.insts[o[1]].o[0])
        if o[0]!='i' or f.insts[o[1]].op!='load': return None
        a=f.insts[o[1]].o[0]
        if a[0]!='i' or f.insts[a[1]].op!='getelementptr': return None
        g=f.insts[a[1]].g or {}
        return (str(g['ow']).replace('struct.',''),str(g['p'][-1])) if g.get('ow') and g.get('p') else None
    cli=[f for f in m.defined() if f.file.endswith('xmq-cli.c')]
    seen=set()
    for f in cli:
        for x in f.calls():
            if x.cname in WIRES:
                k=fld(f,x.o[1])
                if k and k[0]==C:
                    seen.add(x.cname); n['wires']+=1
                    c.ob('%s:%s'%(f.name,x.cname),k[1]==WIRES[x.cname][1],x.loc(),'%s is given %s'%(x.cname,k[1]))
            if x.cname in CALLS:
                fl={i:fld(f,x.o[i]) for i in CALLS[x.cname]}
                if not any(v and v[0]==C and v[1] in CALLS[x.cname].values() for v in fl.values()): continue
                seen.add(x.cname)
                for i,w in CALLS[x.cname].items():
                    n['wires']+=1
                    if fl[i] is None and x.o[i][0]!='c' and x.o[i][0]!='n': c.undecided('%s:%s:%d'%(f.name,x.cname,i),x.loc(),'argument not followed'); continue
                    c.ob('%s:%s:%d'%(f.name,x.cname,i),fl[i]==(C,w),x.loc(),'argument %d of %s is %s instead of %s'%(i+1,x.cname,fl[i][1] if fl[i] else 'a constant',w))
    for s in sorted(set(WIRES)|set(CALLS)):
        c.ob('wired:'+s,s in seen,'src/main/c/xmq-cli.c','the command line program never hands its options to '+s)
    # the setter stores what it is given, and the library reads the setting
    reads={}
    for f in m.defined():
        for x in f.all():
            if x.op=='load' and x.o[0][0]=='i':
                g=f.insts[x.o[0][1]].g or {} if f.insts[x.o[0][1]].op=='getelementptr' else {}
                if g.get('ow') and g.get('p'): reads.setdefault((g['ow'].replace('struct.',''),str(g['p'][-1])),set()).add(f.name)
    for s,(fd,_) in sorted(WIRES.items()):
        f=m.funcs.get(s)
        if not f or f.decl: c.ob('setter:'+s,False,'xmq.c','%s is not defined'%s); continue
        got=set()
        for x in f.all():
            if x.op=='store' and x.o[1][0]=='i':
                g=f.insts[x.o[1][1]].g or {}
                v=x.o[0]
                while v[0]=='i' and f.insts[v[1]].op in('zext','trunc','sext'): v=f.insts[v[1]].o[0]
                if g.get('ow') and g.get('p') and v==('a',1): got.add((g['ow'].replace('struct.',''),str(g['p'][-1])))
        n['wires']+=1
        c.ob('setter:'+s,got=={('XMQOutputSettings',fd)},'%s:%d'%(f.file,f.line),'%s sets %s'%(s,sorted(x[1] for x in got) or 'nothing'))
        c.ob('setting:'+fd,bool(reads.get(('XMQOutputSettings',fd))),f.file,'the setting %s is never read'%fd)
    # every option that sets a field of the command has an effect
    for fd in sorted({k.rstrip('?') for _,_,s in OPTIONS for k in s}|{k for s in GLOBAL.values() for k in s}):
        n['wires']+=1
        if (C,fd) in reads or m.field(C,fd): 
            r={q for q in reads.get((C,fd),())}
            c.ob('field:'+fd,bool(r) or fd in UNUSED,'xmq-cli.c','the option that sets %s has no effect: it is never read'%fd)
UNUSED={'alias','build_xml_of_ixml','lines','print_help','print_license','print_version'}

def docs(m,c,n,ev,cf,tabs):
    words=set()
    for g in m.globals.values():
        i=g.get('init')
        if i and i[0]=='s':
            b=bytes.fromhex(i[1]); words.add(b.split(b'\0')[0].decode('utf-8','replace'))
    optre=re.compile(r'(?<![\w-])(--[a-z][a-z0-9-]*)(=?)((?:\[?[a-z]+(?:\|[a-z]+)+)?)')
    def options(text,where):
        for o,eq,vals in optre.findall(text):
            if o.endswith('-'): o=o[:-1]
            n['docs']+=1
            good=o+eq in words or (o in words and not eq) or (not eq and o+'=' in words) or any(w.startswith(o+'=') for w in words)
            c.ob('doc:%s:%s'%(where,o+eq),good,where,'the option %s%s is documented but not known to the program'%(o,eq))
            for v in [x for x in vals.strip('[').split('|') if x]:
                c.ob('doc:%s:%s=%s'%(where,o,v),v in words or '%s=%s'%(o,v) in words,where,'the value %s of the option %s is documented but not known to the program'%(v,o))
    def command(w,where,v=None):
        r=Run(m,cf,Text(w)).returns(); n['docs']+=1
        if TOP in r:
            r={('c',y) for t in tabs for x,y in t if x==w.encode()} or r
            if TOP in r: c.undecided('doc:%s:%s'%(where,w),where,'not decided'); return
        c.ob('doc:%s:%s'%(where,w),('c',ev['XMQ_CLI_CMD_NONE']) not in r and (v is None or r=={('c',v)}),where,'the command "%s" is documented but understood as %s'%(w,names(ev,'XMQ_CLI_CMD_',r)))
    helps=0
    for g in m.globals.values():
        i=g.get('init')
        if not i or i[0]!='s': continue
        t=bytes.fromhex(i[1]).split(b'\0')[0].decode('utf-8','replace')
        if t.startswith('Usage: xmq') and 'COMMANDS' in t:
            helps+=1; options(t,'help')
            sec=t.split('COMMANDS\n')[1].split('EXAMPLES')[0]
            for w in sec.split(): command(w,'help')
    c.need(helps,'help text')
    # usage of single commands
    for f in m.defined():
        if not f.file.endswith('xmq-cli.c'): continue
        for x in f.calls():
            if not (x.cname or '').startswith(('printf','puts','fprintf')): continue
            for o in x.o:
                t=m.cstr(o) if o[0] in('g','ce') else None
                mo=re.match(rb'Usage: xmq (?:<input> )?([a-z-]+) ',t or b'')
                if mo and b'COMMANDS' not in t:
                    w=mo.group(1).decode(); options(t.decode(),'usage:'+w)
                    # which command leads to this text
                    vs=[]
                    for k,v in ev.items():
                        if k.startswith('XMQ_CLI_CMD_') and not k.startswith('XMQ_CLI_CMD_GROUP') and x.blk in Run(m,f,None,0,{},{0:('c',v)}).blocks: vs.append(v)
                    command(w,'usage',vs[0] if len(vs)==1 else None)
    man=os.path.join(m.repo_src,'../../../doc/xmq.1')
    if os.path.exists(man):
        t=open(man).read().replace('\\-','-')
        options('\n'.join(l for l in t.splitlines() if 'curl' not in l),'manual')
        for l in t.splitlines():
            mo=re.match(r'^\\fI[a-z-]+(?:/[a-z]+)?\\f',l)
            if mo:
                for w in re.findall(r'\\fI([a-z-]+(?:/[a-z-]+)*)\\f[PR]',l):
                    for u in w.split('/'): command(u,'manual')

def keywords(m,c,n):
    """comparisons of a limited number of characters with a keyword"""
    for f in m.defined():
        if is_yaep(f): continue
        for x in f.calls():
            if x.cname=='strchr' and x.o[1]==('c',61):
                for y in f.uses()[('i',x.i)]:
                    if y.op!='getelementptr' or len(y.o)!=2 or y.o[1][0]!='c' or not any(u.op!='load' for u in f.uses()[('i',y.i)]): continue
                    n['values']+=1
                    c.ob('%s:strchr:value'%f.name,y.o[1][1]==1,y.loc(),'the value is taken %d characters after the equal sign'%y.o[1][1])
            if x.cname not in('strncmp','strncasecmp','memcmp'): continue
            L=[(i,m.cstr(o)) for i,o in enumerate(x.o[:2]) if o[0] in('g','ce') and m.cstr(o) is not None]
            if len(L)!=1: continue
            i,lit=L[0]; p=x.o[1-i]; N=size(m,f,x.o[2])
            if N is None or not lit: continue
            n['words']+=1; key='%s:%s'%(f.name,lit.decode('utf-8','replace'))
            c.ob(key+':all',not N&{k for k in N if k<len(lit)},x.loc(),'only %s of the %d characters of "%s" are compared'%(sorted(N),len(lit),lit.decode('utf-8','replace')))
            if lit.endswith(b'=') and len(lit)>3: values(m,c,n,f,x,p,len(lit),key)
            if not chr(lit[-1]).isalnum() or any(k>len(lit) for k in N): continue
            if lookahead(f,p) : continue
            c.ob(key+':whole',bounded(m,f,x,p,len(lit)),x.loc(),'a longer word that starts with "%s" is taken for it'%lit.decode('utf-8','replace'))
def values(m,c,n,f,x,p,L,key):
    """where the word starts with name= the value starts directly after it"""
    edges=[]
    for y in f.uses()[('i',x.i)]:
        if y.op=='icmp' and y.p in('eq','ne') and ('c',0) in y.o:
            for br,pos in branches(f,y): edges.append((br.s[0] if (y.p=='eq')==pos else br.s[1],br.s[1] if (y.p=='eq')==pos else br.s[0]))
    yes={b for b in range(len(f.blocks)) for e,o in edges if e!=o and f.dominates(e,b) and len(f.preds[e])==1}
    for b in sorted(yes):
        for y in f.blocks[b]:
            if y.op!='getelementptr' or len(y.o)!=2 or y.o[1][0]!='c' or not same(f,y.o[0],p): continue
            k=y.o[1][1]
            if k<3: continue
            n['values']+=1
            c.ob(key+':value',k==L,y.loc(),'the word starts with the %d characters "%s" but its value is taken from character %d'%(L,key.split(':',1)[1],k))
def size(m,f,o):
    r=possible_consts(f,o)
    if r is not None: return r
    if o[0]=='i':
        x=f.insts[o[1]]
        if x.op=='call' and x.cname=='strlen':
            s=m.cstr(x.o[0]) if x.o[0][0] in('g','ce') else None
            return {len(s)} if s is not None else None
    return None
def lookahead(f,p):
    """the cursor of a parse state: what follows is read by the next step of the grammar"""
    if p[0]!='i': return False
    x=f.insts[p[1]]
    if x.op!='load' or x.o[0][0]!='i': return False
    g=f.insts[x.o[0][1]].g or {}
    return bool(g.get('p')) and str(g['p'][-1])=='i'
def bounded(m,f,x,p,N):
    """the end of the word is tested: a comparison that fixes its length before, or a test of the character after it"""
    def const(o): return possible_consts(f,o) or set()
    def ends(o,d=0):
        """o is p+N (or p plus a value that can be N)"""
        if o[0]!='i' or d>4: return False
        y=f.insts[o[1]]
        if y.op=='getelementptr' and same(f,y.o[0],p) and len(y.o)==2: return N in const(y.o[1])
        return False
    good=set()     # edges
    chars=set()    # blocks that read the character after the word
    for b in f.rpo():
        for y in f.blocks[b]:
            if y.op=='load' and ends(y.o[0]) and tested(f,y): chars.add(b)
            # p = end-N: the word reaches to the end of the text
            if y.op=='icmp' and y.p in('eq','ne'):
                a,b2=y.o
                fixed=False
                for u,v in((a,b2),(b2,a)):
                    if v[0]=='c' and v[1]==N and len_of(f,u,p): fixed=True
                    if ends(u) and v[0]!='n': fixed=True
                    w=u
                    while w[0]=='i' and f.insts[w[1]].op in('sext','zext'): w=f.insts[w[1]].o[0]
                    if w[0]=='i' and f.insts[w[1]].op=='load' and ends(f.insts[w[1]].o[0]) and v[0]=='c' and not chr(v[1]&255).isalnum(): fixed=True
                if fixed:
                    for br,pos in branches(f,y): good.add((br.blk,br.s[0] if (y.p=='eq')==pos else br.s[1]))
    if p[0]=='i':
        y=f.insts[p[1]]
        if y.op=='getelementptr' and N and len(y.o)==2:
            k=const(y.o[1])
            if k=={-N}: return True
            # file+len-N
            if y.o[0][0]=='i' or True:
                o=y.o[1]
                if o[0]=='i':
                    z=f.insts[o[1]]
                    if z.op=='sub' and N in const(z.o[1]): return True
                    if z.op=='add' and -N in const(z.o[1]): return True
    # every path to the comparison passes a test that fixes the length
    def reach(srcs,avoid):
        seen=set(srcs); st=list(srcs)
        while st:
            b=st.pop()
            for s in f.succ(b):
                if (b,s) in avoid or s in seen: continue
                seen.add(s); st.append(s)
        return seen
    if x.blk not in reach([0],good): return True
    # a matching comparison is followed by such a test, or by a test of the next character
    ms=set()
    for y in f.uses()[('i',x.i)]:
        if y.op=='icmp' and y.p in('eq','ne'):
            for br,pos in branches(f,y): ms.add(br.s[0] if (y.p=='eq')==pos else br.s[1])
    if not ms: return False
    # the edge of an equal end that has the same result as an unequal comparison rejects the word: what remains is longer
    mism=set()
    for y in f.uses()[('i',x.i)]:
        if y.op=='icmp' and y.p in('eq','ne'):
            for br,pos in branches(f,y): mism.add(landing(f,br.blk,br.s[1] if (y.p=='eq')==pos else br.s[0]))
    good={e for e in good if landing(f,*e) not in mism}
    seen=set(); st=[b for b in ms]
    while st:
        b=st.pop()
        if b in seen or b in chars: continue
        seen.add(b)
        if any((b,s) in good for s in f.succ(b)): continue
        if f.term(b).op in('ret',): return False
        if any(y.op in('store','call') and y.cname not in QUIET for y in f.blocks[b]): return False
        st.extend(s for s in f.succ(b) if landing(f,b,s) not in mism)
    return True
def landing(f,a,b,d=0):
    """where an edge ends up: through empty blocks to a block, with the values merged there"""
    L=f.blocks[b]
    if len(L)==1 and L[0].op=='br' and len(f.succ(b))==1 and d<8: return landing(f,b,f.succ(b)[0],d+1)
    return b,tuple(tuple(tuple(o) for o,p in y.o if p==a) for y in L if y.op=='phi')
def branches(f,y,pos=True,d=0):
    """[(branch, positive)] decided by a condition, through copies of it"""
    out=[]
    if d>5: return out
    for u in f.uses()[('i',y.i)]:
        if u.op=='br': out.append((u,pos))
        elif u.op in('zext','trunc','sext','freeze'): out+=branches(f,u,pos,d+1)
        elif u.op=='icmp' and u.p in('eq','ne') and ('c',0) in u.o: out+=branches(f,u,pos==(u.p=='ne'),d+1)
        elif u.op=='xor' and (('c',1) in u.o or ('c',-1) in u.o): out+=branches(f,u,not pos,d+1)
    return out
def tested(f,y,d=0):
    for u in f.uses()[('i',y.i)]:
        if u.op in('icmp','switch','call'): return True
        if u.op in('zext','sext','trunc','phi','freeze') and d<4 and tested(f,u,d+1): return True
    return False
QUIET={'strncmp','strcmp','strlen'}
def same(f,a,b):
    if a==b: return True
    if a[0]=='i' and b[0]=='i':
        x,y=f.insts[a[1]],f.insts[b[1]]
        return x.op=='load' and y.op=='load' and same_addr(f,x.o[0],y.o[0])
    return False
def same_addr(f,a,b):
    if a==b: return True
    if a[0]=='i' and b[0]=='i':
        x,y=f.insts[a[1]],f.insts[b[1]]
        return x.op==y.op=='getelementptr' and (x.g or {}).get('off')==(y.g or {}).get('off') and (x.g or {}).get('ow')==(y.g or {}).get('ow') and x.o[0]==y.o[0]
    return False
def len_of(f,u,p,d=0):
    """u is the length of the word that starts at p: a difference of a pointer and p, or strlen(p)"""
    if u[0]!='i' or d>5: return False
    y=f.insts[u[1]]
    if y.op in('trunc','zext','sext'): return len_of(f,y.o[0],p,d+1)
    if y.op=='call' and y.cname=='strlen': return same(f,y.o[0],p)
    if y.op=='sub':
        b=y.o[1]
        while b[0]=='i' and f.insts[b[1]].op in('ptrtoint','sub','trunc'):
            b=f.insts[b[1]].o[0]
        return same(f,b,p) or b==p
    if y.op=='phi': return any(len_of(f,o,p,d+1) for o,_ in y.o)
    return False
