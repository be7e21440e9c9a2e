#!/usr/bin/env python3
"""Builds the simulation executables from /repo's current working tree.

  build.py [omp|ser ...]

omp: the module and the G+Smo core with OpenMP and the compiler's thread instrumentation,
     linked against sim/simrt.cpp, which replaces both runtimes (executable .build/par)
ser: without OpenMP, with the address sanitizer (executable .build/hist)

Objects are cached by the hash of their preprocessed source and flags."""
import sys,os,re,hashlib,json,subprocess,fcntl,time,glob
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
REPO=os.environ.get('SIM_REPO','/repo'); CORE='/opt/gismo-core'
B=os.environ.get('SIM_BUILD',os.path.join(V,'.build'))
INC=['-I'+CORE+'/src','-I'+CORE+'/external','-I'+B+'/cfg','-I'+HERE+'/cfg','-I'+B+'/opt','-I'+HERE]
BASE=['g++']+['-std=c++11','-w','-Dgismo_STATIC','-DgsKLShell_DATA="%s/filedata/"'%REPO]   # include paths follow the variant's own
OVER={}
FL={'omp':['-I'+B+'/over-omp','-O1','-fopenmp','-fsanitize=thread'],'ser':['-O1','-fsanitize=address','-fno-omit-frame-pointer']}
for _v in FL: FL[_v]=FL[_v]+INC
G1={'omp':[],'ser':['-g1']}     # line numbers for module and harness
SPLIT={'gsThinShellAssembler_.cpp','gsThinShellAssemblerDWR_.cpp'}
HARN={'omp':['scen.cpp','dwr.cpp','par.cpp'],'ser':['scen.cpp','dwr.cpp','hist.cpp','ser.cpp','xml.cpp']}
EXE={'omp':'par','ser':'hist'}
JOBS=os.cpu_count() or 4

def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]
def rd(f):
    with open(f,'rb') as h: return h.read()
def put(f,b):
    if os.path.exists(f) and rd(f)==b: return
    with open(f+'.tmp','wb') as h: h.write(b)
    os.replace(f+'.tmp',f)

def pieces(path):
    """split a TU of explicit instantiations so that they compile in parallel"""
    t=open(path).read(); pat=re.compile(r'^[ \t]*CLASS_TEMPLATE_INST\b[^;{}]*;[ \t]*(?://.*)?$',re.M)
    m=list(pat.finditer(t))
    if len(m)<2 or t.count('CLASS_TEMPLATE_INST')!=len(m): return [t]
    head=pat.sub('',t); inc='\n'.join(l for l in t.split('\n') if re.match(r'\s*#\s*include',l))
    return [head]+[inc+'\nnamespace gismo\n{\n'+x.group(0)+'\n}\n' for x in m]

def units(var):
    """[(name, source, flags, isCore)]"""
    out=[]
    for f in open(HERE+'/core.txt').read().split():
        out.append((f[len(CORE)+1:].replace('/','__'),f,BASE+FL[var],True))
    os.makedirs(B+'/gen',exist_ok=True)
    for f in sorted(glob.glob(REPO+'/src/*.cpp')):
        n='k__'+os.path.basename(f); fl=BASE+FL[var]+G1[var]
        ps=pieces(f) if os.path.basename(f) in SPLIT else None
        if ps and len(ps)>1:
            for i,p in enumerate(ps):
                g='%s/gen/%s_%d.cpp'%(B,os.path.basename(f)[:-4],i); put(g,p.encode()); out.append((n+'_%d'%i,g,fl,False))
        else: out.append((n,f,fl,False))
    for f in HARN[var]: out.append(('h__'+f,HERE+'/'+f,BASE+FL[var]+G1[var],False))
    if var=='omp': out.append(('h__simrt.cpp',HERE+'/simrt.cpp',['g++','-std=c++14','-O2','-w','-I'+HERE],False))
    else: out.append(('h__serrt.cpp',HERE+'/serrt.cpp',['g++','-std=c++14','-O2','-w','-g1','-I'+HERE],False))
    return out

def compile_one(var,u,log):
    name,src,cmd,core=u; od=f'{B}/{var}'; stamp=f'{od}/{name}.json'
    fk=sha(' '.join(cmd),src,OVER[var]); st=None
    try: st=json.load(open(stamp))
    except Exception: pass
    try:
        if st and st['flags']==fk and os.path.exists(st['obj']) and all(sha(rd(f))==h for f,h in st['deps'].items()): return st['obj'],0
    except OSError: pass
    t0=time.time(); dep=f'{od}/{name}.d'
    if core: key=sha(fk,rd(src)); deps={src:sha(rd(src))}
    else:
        r=subprocess.run(cmd+['-E','-P','-MMD','-MF',dep,src],capture_output=True)
        if r.returncode: raise RuntimeError('%s: %s'%(src,r.stderr.decode()[-3000:]))
        key=sha(fk,r.stdout)
        names=re.sub(r'\\\n',' ',open(dep).read()).split(':',1)[1].split(); deps={}
        for f in names:
            rp=os.path.realpath(f)
            if rp.startswith((os.path.realpath(REPO)+'/',HERE+'/',os.path.realpath(B)+'/')): deps[rp]=sha(rd(rp))
        os.unlink(dep)
    obj=f'{od}/{name}.{key}.o'; built=0
    if not os.path.exists(obj):
        r=subprocess.run(cmd+['-c',src,'-o',obj+'.tmp'],capture_output=True)
        if r.returncode: raise RuntimeError('%s: %s'%(src,r.stderr.decode()[-3000:]))
        os.replace(obj+'.tmp',obj); built=1; log.append((time.time()-t0,name))
        if core==False:     # drop old objects of this unit, keep the last few
            old=sorted((f for f in glob.glob(glob.escape(f'{od}/{name}')+'.*.o') if f!=obj),key=os.path.getmtime)
            for f in old[:-2]: os.unlink(f)
    with open(stamp+'.tmp','w') as h: json.dump({'flags':fk,'obj':obj,'deps':deps},h)
    os.replace(stamp+'.tmp',stamp)
    return obj,built

def overlay():
    '''The core library (not under test) creates the mirror of gsExprHelper lazily and without
    synchronisation; the simulation serialises that one statement (DESIGN.md, assumptions).'''
    def sub(var,f,pairs):
        t=open(CORE+'/src/'+f).read()
        for a,b,n in pairs:
            if t.count(a)!=n: raise RuntimeError('overlay of '+f+' does not apply')
            t=t.replace(a,b)
        o=f'{B}/over-{var}/{f}'; os.makedirs(os.path.dirname(o),exist_ok=True); put(o,t.encode()); OVER[var]=sha(t)
    a='''        if (nullptr==m_mirror )
            m_mirror = memory::make_shared(new gsExprHelper(this));'''
    sub('omp','gsExpressions/gsExprHelper.h',[(a,'#pragma omp critical (m_mirror_first_touch)\n        {\n'+a+'\n        }',1)])
    OVER['ser']=''

WEIGHT=lambda u: 0 if 'gsThinShellAssemblerDWR' in u[0] else 1 if 'gsThinShellAssembler' in u[0] else 2 if u[0].startswith(('h__','k__')) else 3
def build(var,quiet=False):
    os.makedirs(f'{B}/{var}',exist_ok=True); os.makedirs(B+'/cfg',exist_ok=True); os.makedirs(B+'/opt',exist_ok=True)
    for l,t in ((B+'/cfg/Eigen',CORE+'/external/gsEigen'),(B+'/opt/gsKLShell',REPO)):
        if not os.path.islink(l) or os.readlink(l)!=t:
            if os.path.islink(l): os.unlink(l)
            os.symlink(t,l)
    overlay()
    with open(B+'/lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        t0=time.time(); log=[]; us=sorted(units(var),key=WEIGHT)
        with ThreadPoolExecutor(JOBS) as ex: res=list(ex.map(lambda u: compile_one(var,u,log),us))
        objs=[o for (o,_),u in zip(res,us) if not u[3]]; cores=[o for (o,_),u in zip(res,us) if u[3]]
        lib=f'{B}/{var}/core.a'; ck=sha(*sorted(cores)); cs=lib+'.key'
        if not (os.path.exists(lib) and os.path.exists(cs) and rd(cs)==ck.encode()):
            if os.path.exists(lib): os.unlink(lib)
            subprocess.run(['ar','rcs',lib]+cores,check=True); put(cs,ck.encode())
        exe=f'{B}/{EXE[var]}'; lf=['-pthread','-no-pie','-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock'] if var=='omp' else ['-fsanitize=address','-no-pie','-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc']
        ek=sha(ck,*(sorted(objs)+lf)); es=exe+'.key'
        if not (os.path.exists(exe) and os.path.exists(es) and rd(es)==ek.encode()):
            r=subprocess.run(['g++']+objs+[lib,'-lz']+lf+['-o',exe+'.tmp'],capture_output=True)
            if r.returncode: raise RuntimeError('link: '+r.stderr.decode()[-3000:])
            os.replace(exe+'.tmp',exe); put(es,ek.encode())
        if not quiet:
            print('build %s: %d units, %d compiled, %.1f s'%(var,len(us),len(log),time.time()-t0))
            if os.environ.get('SIM_VERBOSE'):
                for t,n in sorted(log)[-12:]: print('  %6.1f %s'%(t,n))
    return exe

if __name__=='__main__':
    try:
        for v in sys.argv[1:] or ['omp','ser']: build(v)
    except RuntimeError as e:
        print('BUILD FAILED',e); sys.exit(2)
