"""Common machinery of the checks: build the IR dump of /repo's working tree, collect obligations, report."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('XMQ_REPO','/repo')
BUILD=os.path.join(VERIF,'build')
EVID=os.environ.get('XMQ_EVIDENCE',os.path.join(VERIF,'evidence'))
sys.path.insert(0,os.path.join(VERIF,'lib'))
import ir

T0=time.time()
class CheckError(Exception): pass

def irx_path():
    src=os.path.join(VERIF,'tool','irx.cpp'); exe=os.path.join(BUILD,'irx')
    tag=hashlib.sha256(open(src,'rb').read()).hexdigest(); stamp=exe+'.sha'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read()==tag: return exe
    os.makedirs(BUILD,exist_ok=True)
    cfg=lambda *a: subprocess.check_output(['llvm-config-18',*a],text=True).split()
    tmp='%s.%d'%(exe,os.getpid())
    subprocess.run(['g++','-O1','-fno-rtti',*cfg('--cxxflags'),src,'-o',tmp,*cfg('--ldflags'),'-lLLVM-18'],check=True)
    os.replace(tmp,exe)
    open(stamp,'w').write(tag)
    return exe

CFLAGS=('-O0 -Xclang -disable-O0-optnone -g -emit-llvm -c -fno-discard-value-names -w -std=gnu17 -DPLATFORM_POSIX -DLINUX64 -DUSE_SYSLOG '
        '-I/usr/include/libxml2 -I/usr/include/libxslt').split()

def yaep_hash(repo):
    d=os.path.join(repo,'src/main/c/yaep/src'); h=hashlib.sha256()
    for n in sorted(os.listdir(d)):
        p=os.path.join(d,n)
        if os.path.isfile(p): h.update(n.encode()+b'\0'+open(p,'rb').read())
    return h.hexdigest()

def load_module(inline_fresh=True):
    """clang -> LLVM bitcode for the library (unity file xmq.c) and the command line program, normalised by irx."""
    exe=irx_path(); R=REPO
    tmp=tempfile.mkdtemp(prefix='xmqir.')
    try:
        src=os.path.join(R,'src/main/c')
        want=open(os.path.join(VERIF,'data','yaep_src.sha')).read().strip()
        if yaep_hash(R)!=want:
            # parts/yaep.c is generated from yaep/src by the build: regenerate in a scratch copy
            cp=os.path.join(tmp,'src/main/c'); shutil.copytree(src,cp,symlinks=True)
            subprocess.run(['sh','build_single_yaep_source_file.sh'],cwd=os.path.join(cp,'yaep'),check=True,stdout=subprocess.DEVNULL)
            src=cp
        ps=[]
        for f,o in (('xmq.c','lib.bc'),('xmq-cli.c','cli.bc')):
            ps.append(subprocess.Popen(['clang',*CFLAGS,'-I'+src,'-I'+src+'/parts','-DVERSION="x"',os.path.join(src,f),'-o',os.path.join(tmp,o)],stderr=subprocess.PIPE))
        for p in ps:
            _,e=p.communicate()
            if p.returncode: raise CheckError('clang failed: '+e.decode()[:2000])
        out=os.path.join(tmp,'all.json')
        known=os.path.join(VERIF,'data','known_functions.txt')
        if not inline_fresh: known=os.path.join(tmp,'empty.txt'); open(known,'w')
        subprocess.run([exe,out,known,tmp+'/lib.bc',tmp+'/cli.bc'],check=True)
        m=ir.Module(out)
        m.repo_src=src
        return m
    finally:
        if tmp.startswith(tempfile.gettempdir()): shutil.rmtree(tmp,ignore_errors=True)

class Check:
    """One property. ob(key, ok, where, why): one obligation; key identifies it without line numbers."""
    def __init__(self, prop, technique, explanation, level='other'):
        self.prop=prop; self.technique=technique; self.expl=explanation; self.level=level
        self.t0=T0; self.obs=[]; self.viol=[]; self.known=[]; self.und=[]; self.cov={}; self.assume=[]; self.kf=[]
        p=os.path.join(VERIF,'known_findings.jsonl')
        if os.path.exists(p):
            for ln in open(p):
                ln=ln.strip()
                if ln.startswith('{'):
                    d=json.loads(ln)
                    if d['property']==prop: self.kf.append(d)
    def need(self, cond, what):
        if not cond: raise CheckError('anchor missing: '+what)
        return cond
    def ob(self, key, ok, where='', why=''):
        self.obs.append((key,bool(ok),where))
        if ok: return
        for d in self.kf:
            if d['key']==key:
                if not any(k[0]==key for k in self.known): self.known.append((key,d['what'],where))
                return
        if not any(v[0]==key and v[1]==where for v in self.viol): self.viol.append((key,where,why))
    def undecided(self, key, where='', why=''): self.und.append((key,where,why))
    def finish(self):
        import glob
        for p in glob.glob(os.path.join(EVID,self.prop+".violation*.txt")): os.remove(p)
        os.makedirs(EVID,exist_ok=True)
        for i,(key,where,why) in enumerate(self.viol):
            rp=os.path.join(EVID,'%s.violation%d.txt'%(self.prop,i))
            open(rp,'w').write('property %s\nobligation %s\nat %s\n%s\n'%(self.prop,key,where,why))
            print('  %s at %s: %s'%(key,where,why))
            print('VIOLATION property=%s replay=%s'%(self.prop,rp))
        for key,what,where in self.known: print('KNOWN-FINDING: property=%s %s [%s at %s]'%(self.prop,what,key,where))
        good=sum(1 for o in self.obs if o[1])
        cov=dict(explanation=self.expl, technique=self.technique, obligations=len(self.obs), discharged=good,
                 known_findings=[dict(key=k,where=w) for k,_,w in self.known],
                 undecided=[dict(key=k,where=w,why=y) for k,w,y in self.und[:200]], undecided_count=len(self.und),
                 sites=[dict(key=k,ok=o,where=w) for k,o,w in self.obs[:400]])
        if self.level=='proof':
            cov['checker_cmd']='python3 checks/run.py %s'%self.prop
            cov['trusted_base']=['clang 18 front end','LLVM IR semantics','tool/irx.cpp','lib/*.py','checks/*.py']
        cov.update(self.cov)
        ev=dict(property=self.prop,tier=os.environ.get('VERIF_TIER','quick'),seed=int(os.environ.get('VERIF_SEED','1')),level=self.level,
                coverage=cov,assumptions=self.assume,wall_s=round(time.time()-self.t0,2),violations=len(self.viol))
        json.dump(ev,open(os.path.join(EVID,self.prop+'.json'),'w'),indent=1)
        print('%s: %d obligations, %d discharged, %d known, %d undecided, %d violations, %.1fs'%(self.prop,len(self.obs),good,len(self.known),len(self.und),len(self.viol),ev['wall_s']))
        return 1 if self.viol else 0
