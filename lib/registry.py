"""Single source of properties.jsonl and MANIFEST.json: python3 lib/registry.py rewrites both."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB='src/main/c/xmq.c'; P='src/main/c/parts/'; CLI='src/main/c/xmq-cli.c'
PROPS=[]
def prop(id,title,statement,over,text,why,files,technique=None,level='other',note='',na=None,mech=()):
    PROPS.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech] or [dict(name=technique or title,where=files[0])]),technique=technique,level=level,note=note,na=na))
exec(open(os.path.join(V,'lib','props.py')).read())
def main():
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for p in sorted(PROPS,key=lambda p:p['id']):
            f.write(json.dumps({k:p[k] for k in('id','title','statement','quantifier','why_tests_cant','anchors')},ensure_ascii=False)+'\n')
    ch=[];na=[]
    for p in sorted(PROPS,key=lambda p:p['id']):
        if p['na']: na.append(dict(property=p['id'],reason=p['na'])); continue
        cmd='python3-vt checks/run.py %s'%p['id']
        ch.append(dict(property=p['id'],quick_cmd=cmd,thorough_cmd='env VERIF_TIER=thorough '+cmd,evidence_file='evidence/%s.json'%p['id'],technique=p['technique'],level=p['level'],level_note=p['note']))
    m=dict(version=1,setup_cmd='python3-vt lib/setup.py',checks=ch,not_applicable=na,
           notes='All checks compile /repo\'s working tree to LLVM bitcode (xmq.c as the unity library, xmq-cli.c), normalise it with tool/irx and analyse the IR; no code of /repo is run. XMQ_REPO can point to another tree.')
    json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
main()
