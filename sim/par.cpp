// Simulations of the OpenMP build (C01, C02, C03): one run = one problem, one list of
// operations, one team size and one seeded interleaving; the oracle is the same list of
// operations executed by a team of one.
#include "scen.h"
#include "dwr.h"
#include "simrt.h"
#include <omp.h>
#include <pthread.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
using sim::Rng;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ------------------------------------------------------------------ cases
struct Job { int mat,mode,k,patch; uint64_t pts; };
struct Case {
    std::string prop; uint64_t seed; Spec spec; int nops;
    std::vector<Op> ops; std::vector<DOp> dops; std::vector<std::vector<Job> > jobs;   // C02: jobs[thread]
    std::set<int> dropped;
};
enum { NEVAL=14 };
static gsMatrix<real_t> heights(uint64_t seed,int n){ Rng r(seed*91+3); int h=1+(int)r.below(2); gsMatrix<real_t> z(h,n); for(int i=0;i<h;i++) for(int j=0;j<n;j++) z(i,j)=r.range(-0.02,0.02); return z; }

static Case genCase(const std::string & prop,uint64_t seed)
{
    Case c; c.prop=prop; c.seed=seed; SpecOpts o; o.maxElem=3;
    Rng r(seed*6007+1);
    if (prop=="C03") { o.noTft=r.chance(0.8); o.maxPatch=2; }
    if (prop=="C02") { o.maxPatch=2; o.maxElem=2; if(r.chance(0.25)) o.mat=M_COMPOSITE; if(r.chance(0.25)) o.kind=MEMBRANE; }
    c.spec=makeSpec(seed,o);
    if (prop=="C03" && c.spec.mat==M_COMPOSITE && r.chance(0.7)) { c.spec=makeSpec(seed+500000,o); c.spec.seed=seed; }
    return c;
}
static void genOps(Case & c)
{
    const Spec & sp=c.spec; const size_t nmats=sp.container?sp.npatch:1;
    Rng r(c.seed*7307+2);
    if (c.prop=="C01") { int n=1+(int)r.below(3); for(int i=0;i<n;i++) c.ops.push_back(randomOp(r,sp,1)); c.nops=n; }
    else if (c.prop=="C03") {
        int n=2+(int)r.below(3);
        for(int i=0;i<n;i++) if(r.chance(0.3)) { c.ops.push_back(randomOp(r,sp,2)); c.dops.push_back(DOp(-1)); } else { c.ops.push_back(Op(-1)); c.dops.push_back(randomDOp(r,sp,1)); }
        c.nops=n;
    } else {
        int T=8,J=2+(int)r.below(3); bool same=r.chance(0.3);
        for(int t=0;t<T;t++){ std::vector<Job> v; for(int j=0;j<J;j++){ Job b; b.mat=(int)r.below(nmats); b.mode=r.chance(0.5);
              if(same && t>0){ b=c.jobs[0][j]; b.pts=r.below(1000); }
              else { do b.k=(int)r.below(b.mode?NEVAL:ME_COUNT); while(b.mode? (sp.mat==M_COMPOSITE||sp.tft?(b.k>6||(sp.tft&&b.k!=0&&b.k!=4)||(sp.kind!=BENDING&&b.k!=0&&b.k!=4)):false) : !matEvalApplies(sp,b.k)); }
              b.patch=(sp.container? b.mat : (int)r.below(sp.npatch)); if(!same||!t) b.pts=r.below(1000); v.push_back(b);} c.jobs.push_back(v); }
        c.nops=J;
    }
}

// ------------------------------------------------------------------ serialisation
struct Buf { std::string s; size_t p; Buf():p(0){} 
    template<class X> void put(const X&x){ s.append((const char*)&x,sizeof x);} template<class X> X get(){ X x; if(p+sizeof x>s.size()){ memset(&x,0,sizeof x); p=s.size()+1; return x;} memcpy(&x,&s[p],sizeof x); p+=sizeof x; return x; }
    void puts(const std::string&t){ put((uint64_t)t.size()); s+=t; } std::string gets(){ uint64_t n=get<uint64_t>(); if(p+n>s.size()){p=s.size()+1;return "";} std::string t=s.substr(p,n); p+=n; return t; }
    bool ok()const{ return p<=s.size(); } };
static void putO(Buf&b,const Outcome&o){ b.put(o.threw); b.puts(o.what); b.put(o.status); b.puts(o.note); b.put((uint64_t)o.sz.size()); for(long x:o.sz) b.put(x); b.put((uint64_t)o.v.size()); b.s.append((const char*)o.v.data(),8*o.v.size()); }
static Outcome getO(Buf&b){ Outcome o; o.threw=b.get<bool>(); o.what=b.gets(); o.status=b.get<int>(); o.note=b.gets(); uint64_t n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++) o.sz.push_back(b.get<long>()); n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++) o.v.push_back(b.get<double>()); return o; }

struct Result { std::string end; std::vector<Outcome> outs; std::vector<std::string> names; sim::Stats st; std::vector<uintptr_t> conf; std::vector<sim::Switch> trace; std::string err,text; };

// ------------------------------------------------------------------ the simulated run (in a child process)
template<enum MaterialOutput out> static gsFunctionSet<real_t>* mkI(const gsMaterialMatrixContainer<real_t>&m,const gsMultiPatch<real_t>&a,const gsMultiPatch<real_t>&b){ return new gsMaterialMatrixIntegrate<real_t,out>(m,&a,&b); }
template<enum MaterialOutput out> static gsFunctionSet<real_t>* mkE(const gsMaterialMatrixContainer<real_t>&m,const gsMultiPatch<real_t>&a,const gsMultiPatch<real_t>&b,const gsMatrix<real_t>&z){ return new gsMaterialMatrixEval<real_t,out>(m,&a,&b,z); }
static void child(Case & c,const sim::Config & cfg,bool wantTrace,Buf & b)
{
    sim::configure(cfg); sim::beginRun();
    Scen sc(c.spec); std::unique_ptr<DScen> ds; if(c.prop=="C03") ds.reset(new DScen(sc));
    genOps(c);
    std::vector<Outcome> outs; std::vector<std::string> names;
    if (c.prop=="C02") {
        gsMaterialMatrixContainer<real_t> cont; for(int p=0;p<sc.s.npatch;p++) cont.add(sc.mats[sc.s.container?p:0].get());
        for(auto & m:sc.mats){ m->setUndeformed(&sc.mp); m->setDeformed(&sc.def[c.seed%3]); }
        std::vector<std::unique_ptr<gsFunctionSet<real_t> > > ev(NEVAL); const gsMultiPatch<real_t> & A=sc.mp,& D=sc.def[c.seed%3]; gsMatrix<real_t> z0(1,1); z0(0,0)=0.01;
        bool used[NEVAL]={}; for(auto&v:c.jobs) for(auto&jb:v) if(jb.mode) used[jb.k]=true;
        for(int k=0;k<NEVAL;k++) if(used[k]) switch(k){
            case 0: ev[k].reset(mkI<MaterialOutput::MatrixA>(cont,A,D)); break; case 1: ev[k].reset(mkI<MaterialOutput::MatrixB>(cont,A,D)); break;
            case 2: ev[k].reset(mkI<MaterialOutput::MatrixC>(cont,A,D)); break; case 3: ev[k].reset(mkI<MaterialOutput::MatrixD>(cont,A,D)); break;
            case 4: ev[k].reset(mkI<MaterialOutput::VectorN>(cont,A,D)); break; case 5: ev[k].reset(mkI<MaterialOutput::VectorM>(cont,A,D)); break;
            case 6: ev[k].reset(mkI<MaterialOutput::Density>(cont,A,D)); break;
            case 7: ev[k].reset(mkE<MaterialOutput::MatrixA>(cont,A,D,z0)); break; case 8: ev[k].reset(mkE<MaterialOutput::VectorN>(cont,A,D,z0)); break;
            case 9: ev[k].reset(mkE<MaterialOutput::Stretch>(cont,A,D,z0)); break; case 10: ev[k].reset(mkE<MaterialOutput::StretchDir>(cont,A,D,z0)); break;
            case 11: ev[k].reset(mkE<MaterialOutput::PStressN>(cont,A,D,z0)); break; case 12: ev[k].reset(mkE<MaterialOutput::Strain>(cont,A,D,z0)); break;
            case 13: ev[k].reset(mkE<MaterialOutput::CauchyVectorN>(cont,A,D,z0)); break; }
        int T=c.jobs.size(); std::vector<std::vector<Outcome> > res(T);
        auto one=[&](int t,int j){ const Job & jb=c.jobs[t][j]; Outcome o; gsMatrix<real_t> u=sc.points(jb.pts,2+jb.pts%2),r;
            try { if(jb.mode) ev[jb.k]->piece(jb.patch).eval_into(u,r); else r=matEval(*sc.mats[jb.mat],jb.k,jb.patch,u,heights(jb.pts,u.cols())); o.add(r); }
            catch(const std::exception&e){ o.threw=true; o.what=e.what(); } catch(...){ o.threw=true; o.what="non-standard exception"; } return o; };
        for(int t=0;t<T;t++) res[t].resize(c.jobs[t].size());
        sim::beginOp(0);
        if(cfg.nthreads<=1) { for(int t=0;t<T;t++) for(size_t j=0;j<c.jobs[t].size();j++) if(!c.dropped.count(j)) res[t][j]=one(t,j); }
        else {
            #pragma omp parallel
            { int t0=omp_get_thread_num(),n=omp_get_num_threads(); for(int t=t0;t<T;t+=n) for(size_t j=0;j<c.jobs[t].size();j++) if(!c.dropped.count(j)) res[t][j]=one(t,j); }
        }
        for(int t=0;t<T;t++) for(size_t j=0;j<res[t].size();j++){ outs.push_back(res[t][j]); const Job&jb=c.jobs[t][j]; std::ostringstream o; o<<"job"<<t<<"."<<j<<(jb.mode?" evaluator ":" material ")<<(jb.mode?std::to_string(jb.k):std::string(matEvalName(jb.k)))<<" patch "<<jb.patch; names.push_back(o.str()); }
    }
    else {
        std::shared_ptr<Assembler> A; std::shared_ptr<Dwr> D;
        for(int i=0;i<c.nops;i++) {
            sim::beginOp(1000+i);       // construction happens inside the first operation that needs it
            if(c.prop=="C01"||c.ops[i].kind>=0){ if(!A) A=sc.make(); } else if(!D) D=ds->make();
            sim::beginOp(i);
            if(c.dropped.count(i)) { outs.push_back(Outcome()); names.push_back("-"); continue; }
            if(c.prop=="C01"||c.ops[i].kind>=0) { outs.push_back(runOp(*A,sc,c.ops[i])); names.push_back(c.ops[i].text()); }
            else { outs.push_back(runDOp(*D,*ds,c.dops[i])); names.push_back(c.dops[i].text()); }
        }
    }
    b.puts(c.spec.text()); b.put((uint64_t)outs.size()); for(size_t i=0;i<outs.size();i++){ b.puts(names[i]); putO(b,outs[i]); }
    b.put(sim::stats()); std::vector<uintptr_t> cf=sim::conflicts(); b.put((uint64_t)cf.size()); for(auto x:cf) b.put(x);
    if(wantTrace){ const std::vector<sim::Switch>&t=sim::trace(); b.put((uint64_t)t.size()); for(auto&x:t) b.put(x); } else b.put((uint64_t)0);
    b.put((uint32_t)0xFEEDFACE);
}
static double g_timeout=180;
static char * g_shm; static const size_t SHM=(size_t)96<<20;      // trace of a run that does not finish
static void dumpTrace(){ const std::vector<sim::Switch>&t=sim::trace(); size_t n=std::min(t.size(),(SHM-8)/sizeof(sim::Switch)); *(uint64_t*)g_shm=n; if(n) memcpy(g_shm+8,t.data(),n*sizeof(sim::Switch)); }
static void onCrash(int s){ dumpTrace(); signal(s,SIG_DFL); raise(s); }
// the run has a stack of its own, at a fixed address and zero before: nothing it does depends on what the process did earlier
struct Body { Case*c; const sim::Config*cfg; Buf*b; bool trace; };
static void * bodyMain(void*p){ Body&q=*(Body*)p; child(*q.c,*q.cfg,q.trace,*q.b); return nullptr; }
static void onOwnStack(Body & b)
{
    size_t sz=(size_t)64<<20; void*stk=mmap((void*)0x310000000000ull,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); pthread_t t; pthread_attr_t at;
    if(stk==MAP_FAILED) _exit(88);
    pthread_attr_init(&at); pthread_attr_setstack(&at,stk,sz); if(pthread_create(&t,&at,bodyMain,&b)) _exit(87); pthread_join(t,nullptr);
}
static Result run(const Case & c0,const sim::Config & cfg,bool wantTrace)
{
    Result R; memset(&R.st,0,sizeof R.st); if(!g_shm) g_shm=(char*)mmap(nullptr,SHM,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    *(uint64_t*)g_shm=0;
    int p[2]; if(pipe(p)){ perror("pipe"); exit(2);} int ef=memfd_create("err",0);
    fflush(stdout); pid_t pid=fork();
    if(pid==0){
        close(p[0]); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(ef,2);
        if(wantTrace){ sim::setExitHandler(dumpTrace); signal(SIGSEGV,onCrash); signal(SIGABRT,onCrash); signal(SIGBUS,onCrash); signal(SIGFPE,onCrash); signal(SIGILL,onCrash); }
        Buf b; Case c=c0; Body body={&c,&cfg,&b,wantTrace}; onOwnStack(body);
        size_t o=0; while(o<b.s.size()){ ssize_t n=write(p[1],b.s.data()+o,b.s.size()-o); if(n<=0) break; o+=n; }
        _exit(0);
    }
    close(p[1]); Buf b; char tmp[65536]; double t0=now(); bool hang=false;
    for(;;){ pollfd f={p[0],POLLIN,0}; int r=poll(&f,1,1000); if(r>0){ ssize_t n=read(p[0],tmp,sizeof tmp); if(n<=0) break; b.s.append(tmp,n);} else if(now()-t0>g_timeout){ hang=true; kill(pid,SIGKILL); break; } }
    close(p[0]); int stt=0; waitpid(pid,&stt,0);
    { off_t n=lseek(ef,0,SEEK_END); if(n>4000) n=4000; R.err.resize(n>0?n:0); if(n>0) { ssize_t q=pread(ef,&R.err[0],n,0); (void)q; } close(ef); }
    if(hang) R.end="hang"; 
    else if(WIFSIGNALED(stt)) { std::ostringstream o; o<<"signal "<<WTERMSIG(stt); R.end=o.str(); }
    else if(WEXITSTATUS(stt)==86) R.end="deadlock"; else if(WEXITSTATUS(stt)==85) R.end="no progress within the step bound"; else if(WEXITSTATUS(stt)==89) R.end="heap corruption";
    else if(WEXITSTATUS(stt)) { std::ostringstream o; o<<"exit "<<WEXITSTATUS(stt); R.end=o.str(); }
    if(R.end.empty()) {
        R.text=b.gets(); uint64_t n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++){ R.names.push_back(b.gets()); R.outs.push_back(getO(b)); }
        R.st=b.get<sim::Stats>(); n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++) R.conf.push_back(b.get<uintptr_t>());
        n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++) R.trace.push_back(b.get<sim::Switch>());
        if(b.get<uint32_t>()!=0xFEEDFACE) R.end="truncated result";
    } else if(wantTrace) { uint64_t n=*(uint64_t*)g_shm; const sim::Switch*s=(const sim::Switch*)(g_shm+8); R.trace.assign(s,s+n); }
    return R;
}
static const double TOL=1e-9;
// the verdict on one run: empty = the property held
static std::string verdict(const Result & ref,const Result & r)
{
    if(r.end=="hang") return "";       // undecided: the bound on progress is in steps, not in seconds
    if(!r.end.empty()) { std::string e=r.err; size_t p=e.find_last_not_of("\n "); if(p!=std::string::npos) e=e.substr(0,p+1); p=e.rfind('\n'); if(p!=std::string::npos) e=e.substr(p+1); return "run ended with "+r.end+" ("+e.substr(0,200)+") while the single-threaded run completed"; }
    if(r.outs.size()!=ref.outs.size()) return "different number of results";
    for(size_t i=0;i<ref.outs.size();i++){ std::string d=diff(ref.outs[i],r.outs[i],TOL); if(!d.empty()) return ref.names[i]+": "+d; }
    return "";
}

// ------------------------------------------------------------------ replay files
static const char * stratName[]={"sequential","random","pct","conflict-directed","round-robin"};
static void writeReplay(const std::string & f,const Case & c,int nthreads,const std::vector<sim::Switch> & sch,const std::string & what,const std::string & text,const std::string & origin)
{
    std::ofstream o(f.c_str()); o<<"property "<<c.prop<<"\ncase "<<c.seed<<"\nproblem "<<text<<"\nthreads "<<nthreads<<"\norigin "<<origin<<"\nwhat "<<what<<"\ndropped"; for(int d:c.dropped) o<<' '<<d; o<<"\nswitches "<<sch.size()<<"\n";
    for(auto&s:sch) o<<s.region<<' '<<s.tid<<' '<<s.lstep<<' '<<s.to<<"\n"; o<<"end\n";
}
static bool readReplay(const std::string & f,Case & c,sim::Config & cfg,std::string & what)
{
    std::ifstream i(f.c_str()); std::string l,prop; uint64_t seed=0; int th=0; std::set<int> dr; if(!i) return false;
    while(std::getline(i,l)){ std::istringstream s(l); std::string k; s>>k; if(k=="property") s>>prop; else if(k=="case") s>>seed; else if(k=="threads") s>>th; else if(k=="what") what=l.substr(5); else if(k=="dropped"){ int d; while(s>>d) dr.insert(d);} else if(k=="switches"){ size_t n; s>>n; for(size_t q=0;q<n;q++){ sim::Switch w; i>>w.region>>w.tid>>w.lstep>>w.to; cfg.schedule.push_back(w);} } }
    c=genCase(prop,seed); c.dropped=dr; cfg.nthreads=th; cfg.replay=true; return true;
}
static sim::Config refCfg(){ sim::Config c; c.nthreads=1; return c; }

static std::vector<sim::Switch> sched_result;
static int minimise(Case & c,sim::Config cfg,std::string & what,double budget)
{
    double t0=now(); int trials=0; 
    auto fails=[&](const Case & cc,const sim::Config & k,std::string & w,std::vector<sim::Switch>*tr){ trials++; Result ref=run(cc,refCfg(),false); if(!ref.end.empty()) return false; Result r=run(cc,k,tr!=nullptr); w=verdict(ref,r); if(tr) *tr=r.trace; return !w.empty(); };
    std::string w; 
    { Case t=c; genOps(t); c.nops=t.nops; }
    for(int i=0;i<c.nops && now()-t0<budget;i++) if(!c.dropped.count(i) && (int)c.dropped.size()+1<c.nops){ Case t=c; t.dropped.insert(i); if(fails(t,cfg,w,nullptr)){ c=t; what=w; } }
    size_t n=2; std::vector<sim::Switch> cur=cfg.schedule;
    while(cur.size()>=1 && now()-t0<budget){
        size_t len=std::max<size_t>(1,cur.size()/n); bool red=false;
        for(size_t s=0;s<cur.size()&&now()-t0<budget;s+=len){ sim::Config k=cfg; k.schedule.assign(cur.begin(),cur.begin()+s); k.schedule.insert(k.schedule.end(),cur.begin()+std::min(cur.size(),s+len),cur.end());
            if(fails(c,k,w,nullptr)){ cur=k.schedule; what=w; n=std::max<size_t>(2,n-1); red=true; break; } }
        if(!red){ if(len==1) break; n=std::min(cur.size(),n*2); }
    }
    cfg.schedule=cur;
    g_timeout=180; (void)trials; 
    // store the reduced schedule
    sched_result=cur;
    return trials;
}

int main(int argc,char**argv)
{
    std::string mode=argc>1?argv[1]:"";
    if(mode=="replay") {                       // replay <file>
        Case c; sim::Config cfg; std::string what; if(argc<3||!readReplay(argv[2],c,cfg,what)) { fprintf(stderr,"cannot read replay file\n"); return 2; }
        Result ref=run(c,refCfg(),false); if(!ref.end.empty()){ printf("NOVIOLATION reference ended with %s\n",ref.end.c_str()); return 0; }
        Result r=run(c,cfg,true); std::string w=verdict(ref,r);
        if(w.empty()){ printf("NOVIOLATION\n"); return 0; }
        printf("VIOLATED %s\n",w.c_str()); return 1;
    }
    if(mode=="min") {                          // min <in> <out> <seconds>
        Case c; sim::Config cfg; std::string what; if(argc<5||!readReplay(argv[2],c,cfg,what)) return 2;
        size_t before=cfg.schedule.size(); std::string w0=what; int t=minimise(c,cfg,what,atof(argv[4]));
        std::ostringstream o; o<<"minimised from "<<before<<" switches in "<<t<<" trials"; writeReplay(argv[3],c,cfg.nthreads,sched_result,what,c.spec.text(),o.str());
        printf("MIN %zu %zu %d\n",before,sched_result.size(),t); return 0;
    }
    if(mode=="search") {                       // search <prop> <firstSeed> <stride> <cases> <runs> <seconds> <outdir>
        std::string prop=argv[2]; uint64_t s0=strtoull(argv[3],0,10),str=strtoull(argv[4],0,10); int n=atoi(argv[5]),runs=atoi(argv[6]); double secs=atof(argv[7]); std::string out=argv[8]; double t0=now(); int doubtful=0;
        for(int i=0;i<n && now()-t0<secs;i++){
            uint64_t seed=s0+i*str; Case c=genCase(prop,seed); Rng r(seed*991+7);
            double t1=now(); Result ref=run(c,refCfg(),false); double tr=now()-t1;
            if(!ref.end.empty()) { printf("{\"case\":%llu,\"skip\":\"%s\",\"text\":\"%s\"}\n",(unsigned long long)seed,ref.end.c_str(),c.spec.text().c_str()); fflush(stdout); continue; }
            // refuse a case whose reference is not deterministic
            std::vector<uintptr_t> hot; uint64_t est=100000,stepsRef=0; std::ostringstream js; js<<"{\"case\":"<<seed<<",\"text\":\""<<ref.text<<"\",\"ref_s\":"<<tr<<",\"ops\":["; for(size_t k=0;k<ref.names.size()&&k<4;k++) js<<(k?",":"")<<"\""<<ref.names[k]<<"\""; js<<"],\"runs\":[";
            bool failed=false; int done=0,slow=0;
            for(int q=0;q<runs && now()-t0<secs+30;q++){
                sim::Config cfg; static const int team[]={2,3,4,2,8,5,3,2}; cfg.nthreads=team[(q+seed)%8]; cfg.seed=seed*131+q; 
                if(q==0){ cfg.strategy=sim::RANDOM; cfg.gap=500; cfg.detect=true; }
                else switch(r.below(hot.empty()?3:5)){ case 0: cfg.strategy=sim::RANDOM; cfg.gap=std::pow(10.0,1.5+2*r.unit()); break; case 1: cfg.strategy=sim::PCT; cfg.depth=1+(int)r.below(4); cfg.est=est; break; case 2: cfg.strategy=sim::ROUND; cfg.gap=50+(int)r.below(3000); break; default: cfg.strategy=sim::HOT; cfg.gap=5000; cfg.hot=hot; }
                if(stepsRef) cfg.maxSteps=20*stepsRef+10000000;
                t1=now(); Result x=run(c,cfg,false); double dt=now()-t1; done++; if(x.end=="hang"){ slow++; if(q==0) break; q=runs; continue; }   // undecided: progress is bounded in steps, not in seconds
                std::string w=verdict(ref,x);
                if(q==0){ hot=x.conf; est=x.st.maxThreadSteps; stepsRef=x.st.steps; }
                js<<(q>0?",":"")<<"{\"s\":\""<<stratName[cfg.strategy]<<"\",\"t\":"<<cfg.nthreads<<",\"dt\":"<<dt<<",\"steps\":"<<x.st.steps<<",\"sw\":"<<x.st.switches<<",\"pre\":"<<x.st.preemptions<<",\"blk\":"<<x.st.blocked<<",\"reg\":"<<x.st.regions<<",\"crit\":"<<x.st.criticals<<",\"conf\":"<<x.conf.size()<<",\"h\":\""<<std::hex<<x.st.hash<<std::dec<<"\"}";
                if(!w.empty()) {
                    Result y=run(c,cfg,true); std::string w2=verdict(ref,y);
                    std::ostringstream f,o; f<<out<<"/"<<prop<<"-"<<seed<<"-"<<q<<".replay"; o<<stratName[cfg.strategy]<<" seed "<<cfg.seed<<" threads "<<cfg.nthreads;
                    writeReplay(f.str(),c,cfg.nthreads,y.trace,w,ref.text,o.str());
                    sim::Config k; k.nthreads=cfg.nthreads; k.replay=true; k.schedule=y.trace; const bool same= w==w2 && !verdict(ref,run(c,k,true)).empty();
                    printf("FAIL %s same=%d %s\n",f.str().c_str(),(int)same,w.c_str()); fflush(stdout);
                    if(same||++doubtful>=6) { js<<"],\"fail\":\"1\"}"; printf("%s\n",js.str().c_str()); fflush(stdout); failed=true; break; }
                }
            }
            if(failed) return 1;
            js<<"]"; if(slow) js<<",\"slow\":"<<slow; js<<"}"; printf("%s\n",js.str().c_str()); fflush(stdout);
        }
        return 0;
    }
    fprintf(stderr,"usage: par search|replay|min ...\n"); return 2;
}
