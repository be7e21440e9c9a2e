// Simulations of the serial build (F01-F03, H01-H04, M01): one run = one history of
// operations, configuration changes, copies, destructions and injected faults on a pool of
// objects that share the caller's data.  The oracle of every operation is the same operation
// on a freshly constructed object with the same configuration, run in a process of its own.
#include "scen.h"
#include "dwr.h"
#include "serrt.h"
#include "hist.h"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
using sim::Rng;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ------------------------------------------------------------------ serialisation
struct Buf { std::string s; size_t p; Buf():p(0){}
    template<class X> void put(const X&x){ s.append((const char*)&x,sizeof x);} template<class X> X get(){ X x; if(p+sizeof x>s.size()){ memset((void*)&x,0,sizeof x); p=s.size()+1; return x;} memcpy((void*)&x,&s[p],sizeof x); p+=sizeof x; return x; }
    void puts(const std::string&t){ put((uint64_t)t.size()); s+=t; } std::string gets(){ uint64_t n=get<uint64_t>(); if(p+n>s.size()){p=s.size()+1;return "";} std::string t=s.substr(p,n); p+=n; return t; }
    bool ok()const{ return p<=s.size(); } };
static void putO(Buf&b,const Outcome&o){ b.put(o.threw); b.puts(o.what); b.put(o.status); b.puts(o.note); b.put((uint64_t)o.sz.size()); for(long x:o.sz) b.put(x); b.put((uint64_t)o.v.size()); b.s.append((const char*)o.v.data(),8*o.v.size()); }
static Outcome getO(Buf&b){ Outcome o; o.threw=b.get<bool>(); o.what=b.gets(); o.status=b.get<int>(); o.note=b.gets(); uint64_t n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++) o.sz.push_back(b.get<long>()); n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++) o.v.push_back(b.get<double>()); return o; }

// ------------------------------------------------------------------ processes
struct Ended { std::string how,err; };
static int g_pipe=-1;
template<class F> static Ended inChild(F f,Buf & b,double timeout)
{
    Ended E; int p[2]; if(pipe(p)){ perror("pipe"); exit(2);} int ef=memfd_create("err",0);
    fflush(stdout); pid_t pid=fork();
    if(pid==0){
        close(p[0]); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(ef,2); g_pipe=p[1];
        rlimit rl; rl.rlim_cur=(rlim_t)timeout; rl.rlim_max=(rlim_t)timeout+5; setrlimit(RLIMIT_CPU,&rl);   // processor time, so that a busy machine decides nothing
        Buf o; f(o); size_t q=0; while(q<o.s.size()){ ssize_t n=write(p[1],o.s.data()+q,o.s.size()-q); if(n<=0) break; q+=n; }
        _exit(0);
    }
    close(p[1]); char tmp[65536]; double t0=now(); bool hang=false;
    for(;;){ pollfd g={p[0],POLLIN,0}; int r=poll(&g,1,500); if(r>0){ ssize_t n=read(p[0],tmp,sizeof tmp); if(n<=0) break; b.s.append(tmp,n);} else if(now()-t0>4*timeout){ hang=true; kill(pid,SIGKILL); break; } }
    close(p[0]); int st=0; waitpid(pid,&st,0);
    { off_t n=lseek(ef,0,SEEK_END); off_t m=n>6000?6000:n; E.err.resize(m>0?m:0); if(m>0){ ssize_t q=pread(ef,&E.err[0],m,0); (void)q; } close(ef); }
    if(hang) E.how="undecided"; else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGXCPU) E.how="no completion within the bound on processor time"; else if(WIFSIGNALED(st)){ std::ostringstream o; o<<"signal "<<WTERMSIG(st); E.how=o.str(); } else if(WEXITSTATUS(st)){ std::ostringstream o; o<<"exit "<<WEXITSTATUS(st); E.how=o.str(); }
    return E;
}
static std::string noAddr(const std::string & s){ std::string o; for(size_t i=0;i<s.size();i++){ if(s[i]=='\n'){ o+=' '; continue; } if(s.compare(i,2,"0x")==0){ o+="0x?"; i+=2; while(i<s.size()&&isxdigit((unsigned char)s[i])) i++; i--; } else o+=s[i]; } return o; }
static std::string why(const std::string & err0)
{
    const std::string err=err0;
    size_t p=err.find("ERROR: AddressSanitizer"); if(p!=std::string::npos){ std::string s=err.substr(p,err.find('\n',p)-p); std::string fr; size_t q=p; for(int i=0;i<6;i++){ size_t k=err.find(" in ",q); if(k==std::string::npos) break; std::string f=err.substr(k+4,err.find('\n',k)-k-4); q=k+4; size_t sp=f.find('/'); if(f.find("/repo/")!=std::string::npos||f.find("gsKLShell")!=std::string::npos||fr.empty()) { fr=f; if(f.find("gsKLShell")!=std::string::npos) break; } (void)sp; } s=noAddr(s); size_t cut=s.find(" on address"); return s.substr(7,cut==std::string::npos?80:cut-7)+" in "+noAddr(fr.substr(0,160)); }
    p=err.find("terminate called"); if(p!=std::string::npos) return noAddr(err.substr(p,200));
    p=err.find_last_not_of("\n "); if(p==std::string::npos) return ""; std::string e=err.substr(0,p+1); p=e.rfind('\n'); return (p==std::string::npos?e:e.substr(p+1)).substr(0,200);
}

// ------------------------------------------------------------------ histories in a child
struct StepOut { bool ran; Outcome o; bool fired; std::string fpBefore,fpAfter; };
struct RefOut { bool ok; Outcome o; long calls[S_COUNT]; std::string ended; };

static RefOut reference(const Case & c,const RefKey & k,double timeout)
{
    RefOut R; R.ok=false; Buf b;
    Ended e=inChild([&](Buf & o){
        g_faultsOn=true; g_fault.clear(); World w(c.spec,c.useDwr); Outcome out; 
        w.applyMats(k.mats);
        w.fresh(k); g_fault.clear();
        out=w.runFresh(k);
        putO(o,out); for(int i=0;i<S_COUNT;i++) o.put(g_fault.calls[i]); o.put((uint32_t)0xFEEDFACE);
    },b,timeout);
    if(!e.how.empty()){ R.ended=e.how+" "+why(e.err); return R; }
    R.o=getO(b); for(int i=0;i<S_COUNT;i++) R.calls[i]=b.get<long>(); R.ok=b.get<uint32_t>()==0xFEEDFACE; if(!R.ok) R.ended="no result";
    return R;
}
struct RunOut { std::string ended; std::vector<StepOut> st; long live[3]; };
static RunOut runHistory(const Case & c,double timeout,bool fps,int rounds)
{
    RunOut R; Buf b; R.live[0]=R.live[1]=R.live[2]=0;
    Ended e=inChild([&](Buf & o){
        g_faultsOn=true; std::vector<StepOut> out; long lv[3]={0,0,0};
        for(int q=0;q<rounds;q++){
            { std::unique_ptr<World> w(new World(c.spec,c.useDwr)); 
              for(size_t i=0;i<c.steps.size();i++){
                const Step & s=c.steps[i]; StepOut so; so.ran=false; so.fired=false;
                if(!c.dropped.count(i)){
                    if(fps) so.fpBefore=w->fingerprint(s);
                    g_fault.clear();
                    if(s.fault>=0 && s.at>0){ g_fault.failAt[s.fault]=s.at; g_fault.mode=s.mode; }
                    so.o=w->run(s);
                    so.ran=true; so.fired=false; for(int f=0;f<S_COUNT;f++) so.fired|=g_fault.fired[f]>0;
                    g_fault.clear();
                    if(fps) so.fpAfter=w->fingerprint(s);
                }
                if(q==0) out.push_back(so);
              }
            }
            if(q<3) lv[q]=simalloc::live;
        }
        o.put((uint64_t)out.size()); for(auto & s:out){ o.put(s.ran); o.put(s.fired); putO(o,s.o); o.puts(s.fpBefore); o.puts(s.fpAfter); }
        for(int q=0;q<3;q++) o.put(lv[q]); o.put((uint32_t)0xFEEDFACE);
    },b,timeout);
    if(!e.how.empty()){ R.ended=e.how+" ("+why(e.err)+")"; return R; }
    uint64_t n=b.get<uint64_t>(); for(uint64_t i=0;i<n&&b.ok();i++){ StepOut s; s.ran=b.get<bool>(); s.fired=b.get<bool>(); s.o=getO(b); s.fpBefore=b.gets(); s.fpAfter=b.gets(); R.st.push_back(s); }
    for(int q=0;q<3;q++) R.live[q]=b.get<long>(); if(b.get<uint32_t>()!=0xFEEDFACE) R.ended="no result";
    return R;
}
static double g_tmo=120;
static std::map<std::string,RefOut> g_refs;
static long g_nref=0;
static const RefOut & ref(const Case & c,const RefKey & k){ std::string t=k.text(); auto it=g_refs.find(t); if(it==g_refs.end()){ g_nref++; it=g_refs.insert(std::make_pair(t,reference(c,k,g_tmo))).first; } return it->second; }

static const double TOL=1e-10;
static std::string fpDiff(const std::string & a,const std::string & b){ std::istringstream x(a),y(b); std::string p,q; for(;;){ bool u=(bool)std::getline(x,p),v=(bool)std::getline(y,q); if(!u||!v) return u==v?"":"different length"; if(p!=q) return p.substr(0,p.find(':')); } }

struct Verdict { std::string what; int step; long faults[S_COUNT]; long checked,fired,compared,effects; bool skip; std::string skipWhy; uint64_t oh; Verdict():oh(0xcbf29ce484222325ull),step(-1),checked(0),fired(0),compared(0),effects(0),skip(false){ memset(faults,0,sizeof faults);} };
// place the faults of the case: needs the number of calls the operation makes on a fresh object
static bool place(Case & c,Verdict & v)
{
    Model m(c.spec);
    for(size_t i=0;i<c.steps.size();i++){
        Step & s=c.steps[i]; if(c.dropped.count(i)) continue; 
        RefKey k; if((s.t==T_OP||s.t==T_DOP) && !m.key(s,k)){ c.dropped.insert((int)i); continue; }   // not a valid use of this configuration
        bool has=m.faultKey(s,k);
        if(s.fault>=0 && s.at==0 && has){
            const RefOut & r=ref(c,k); if(!r.ok){ s.fault=-1; m.apply(s,false); continue; }   // the history itself will end the same way
            if(r.calls[s.fault]==0){ // this seam is not used: take one that is
                for(int q=1;q<S_COUNT;q++) if(r.calls[(s.fault+q)%S_COUNT]){ s.fault=(s.fault+q)%S_COUNT; break; } }
            long n=r.calls[s.fault];
            if(n>0) s.at=1+(long)(s.frac%(uint64_t)n); else s.fault=-1;
        }
        if(s.fault>=0 && !has) s.fault=-1;
        m.apply(s,s.fault>=0);
    }
    return true;
}
static Verdict judge(const Case & c)
{
    Verdict v; bool fps=c.prop=="F03"; bool leak=c.prop=="M01";
    RunOut R=runHistory(c,g_tmo,fps,leak?3:1);
    for(auto & s:c.steps) (void)s;
    if(R.ended.compare(0,9,"undecided")==0){ v.skip=true; v.skipWhy=R.ended; return v; }
    if(!R.ended.empty()){ v.what="the process ended with "+R.ended; v.step=(int)c.steps.size()-1; return v; }
    Model m(c.spec);
    for(size_t i=0;i<c.steps.size() && i<R.st.size();i++){
        const Step & s=c.steps[i]; const StepOut & so=R.st[i]; if(c.dropped.count(i)) continue;
        if(so.fired){ v.fired++; v.faults[s.fault]++; }
        { Buf b; putO(b,so.o); for(char ch:b.s){ v.oh^=(unsigned char)ch; v.oh*=0x100000001B3ull; } v.oh^=so.fired; }
        std::string bad; RefKey k; bool has=m.key(s,k);
        if(fps && so.fpBefore!=so.fpAfter && !s.changes()) bad="changed "+fpDiff(so.fpBefore,so.fpAfter)+(so.o.threw||so.o.status==1?" while failing":"");
        if(fps) v.compared++;
        if(bad.empty() && !so.o.note.empty()) bad=so.o.note;
        if(bad.empty() && has && c.checks(s)){
            const RefOut & r=ref(c,k);
            if(!r.ok){ v.skip=true; v.skipWhy=r.ended; return v; }
            if(so.fired){ // success is only allowed with the complete result
                if(!so.o.threw && so.o.status!=1){ v.compared++; std::string d=diff(r.o,so.o,TOL); if(!d.empty()) bad="a fault was injected, the operation reported success, but "+d; else v.checked++; } else v.checked++;
            } else { v.compared++; v.checked++; std::string d=diff(r.o,so.o,TOL); if(!d.empty()) bad="differs from a fresh object: "+d;
                RefKey e; std::string w; uint64_t pick=(c.seed*2654435761u+i*40503u)>>7;
                if(bad.empty() && c.prop=="H02" && r.o.status<=0 && !r.o.threw && m.effectKey(s,pick,e,w)){ const RefOut & x=ref(c,e); if(x.ok && x.o.status<=0 && !x.o.threw){ v.effects++; if(diff(x.o,r.o,TOL).empty()) bad="setting another value for "+w+" before the operation has no effect on it"; } } }
        }
        if(!bad.empty()){ std::ostringstream o; o<<"step "<<i<<" "<<s.text()<<": "<<bad; v.what=o.str(); v.step=(int)i; return v; }
        m.apply(s,so.fired);
    }
    if(leak && R.live[2]>R.live[1]){ std::ostringstream o; o<<"memory is not released: "<<R.live[2]-R.live[1]<<" blocks left by one execution of the history"; v.what=o.str(); v.step=(int)c.steps.size()-1; }
    return v;
}

// ------------------------------------------------------------------ replay files
static void writeReplay(const std::string & f,const Case & c,const std::string & what)
{
    std::ofstream o(f.c_str()); o<<"property "<<c.prop<<"\ncase "<<c.seed<<"\nproblem "<<c.spec.text()<<"\nwhat "<<what<<"\ndropped"; for(int d:c.dropped) o<<' '<<d; o<<"\nfaults"; for(auto & s:c.steps) o<<' '<<s.fault<<','<<s.at; o<<"\nhistory\n";
    for(size_t i=0;i<c.steps.size();i++) if(!c.dropped.count(i)) o<<"  "<<i<<" "<<c.steps[i].text()<<"\n"; o<<"end\n";
}
static bool readReplay(const std::string & f,Case & c,std::string & what)
{
    std::ifstream i(f.c_str()); if(!i) return false; std::string l,prop; uint64_t seed=0; std::set<int> dr; std::vector<std::pair<int,long> > fl;
    while(std::getline(i,l)){ std::istringstream s(l); std::string k; s>>k; if(k=="property") s>>prop; else if(k=="case") s>>seed; else if(k=="what") what=l.substr(5); else if(k=="dropped"){ int d; while(s>>d) dr.insert(d); } else if(k=="faults"){ std::string t; while(s>>t){ int a; long b; if(sscanf(t.c_str(),"%d,%ld",&a,&b)==2) fl.push_back(std::make_pair(a,b)); } } }
    c=genCase(prop,seed); c.dropped=dr; for(size_t q=0;q<fl.size()&&q<c.steps.size();q++){ c.steps[q].fault=fl[q].first; c.steps[q].at=fl[q].second; } return true;
}

bool isX(int argc,char**argv); int xmlMain(int argc,char**argv);     // xml.cpp
int main(int argc,char**argv)
{
    if(isX(argc,argv)) return xmlMain(argc,argv);
    std::string mode=argc>1?argv[1]:"";
    if(mode=="replay"){ Case c; std::string what; if(argc<3||!readReplay(argv[2],c,what)){ fprintf(stderr,"cannot read replay file\n"); return 2; }
        Verdict v=judge(c); if(v.what.empty()){ printf("NOVIOLATION %s\n",v.skip?("skipped: "+v.skipWhy).c_str():""); return 0; } printf("VIOLATED %s\n",v.what.c_str()); return 1; }
    if(mode=="run"){ Case c; std::string what; if(argc<3||!readReplay(argv[2],c,what)) return 2; g_faultsOn=true; World w(c.spec,c.useDwr);
        for(size_t i=0;i<c.steps.size();i++) if(!c.dropped.count(i)){ const Step&s=c.steps[i]; fprintf(stderr,"STEP %zu %s\n",i,s.text().c_str()); g_fault.clear();
            if(s.fault>=0&&s.at>0){ g_fault.failAt[s.fault]=s.at; g_fault.mode=s.mode; }
            Outcome o=w.run(s); g_fault.clear(); fprintf(stderr,"  -> threw %d %s status %d values %zu note %s\n",(int)o.threw,o.what.c_str(),o.status,o.v.size(),o.note.c_str()); }
        return 0; }
    if(mode=="min"){ Case c; std::string what; if(argc<5||!readReplay(argv[2],c,what)) return 2; double t0=now(),bud=atof(argv[4]); int trials=0; size_t before=c.steps.size()-c.dropped.size();
        Verdict v0=judge(c); if(!v0.what.empty()) what=v0.what; if(v0.step>=0) for(size_t i=v0.step+1;i<c.steps.size();i++) c.dropped.insert(i);
        bool red=true; while(red && now()-t0<bud){ red=false; for(int i=(int)c.steps.size()-1;i>=0&&now()-t0<bud;i--) if(!c.dropped.count(i)){ Case t=c; t.dropped.insert(i); if(t.dropped.size()>=t.steps.size()||!Model::valid(t)) continue; trials++; Verdict v=judge(t); if(!v.what.empty()){ c=t; what=v.what; red=true; } } }
        writeReplay(argv[3],c,what); printf("MIN %zu %zu %d\n",before,c.steps.size()-c.dropped.size(),trials); return 0; }
    if(mode=="search"){   // search <prop> <firstSeed> <stride> <cases> <seconds> <outdir>
        std::string prop=argv[2]; uint64_t s0=strtoull(argv[3],0,10),str=strtoull(argv[4],0,10); int n=atoi(argv[5]); double secs=atof(argv[6]); std::string out=argv[7]; double t0=now();
        for(int i=0;i<n && now()-t0<secs;i++){
            uint64_t seed=s0+i*str; double t1=now(); g_refs.clear(); long nr0=g_nref; Case c=genCase(prop,seed); Verdict v; if(place(c,v)){ Verdict w=judge(c); w.skip|=v.skip; v=w; }
            std::ostringstream js; js<<"{\"case\":"<<seed<<",\"text\":\""<<c.spec.text()<<"\",\"steps\":"<<c.steps.size()<<",\"checked\":"<<v.checked<<",\"compared\":"<<v.compared<<",\"effects\":"<<v.effects<<",\"fired\":"<<v.fired<<",\"refs\":"<<g_nref-nr0<<",\"dt\":"<<now()-t1<<",\"faults\":{"; bool f=false; for(int q=0;q<S_COUNT;q++) if(v.faults[q]){ js<<(f?",":"")<<"\""<<seamName[q]<<"\":"<<v.faults[q]; f=true; }
            uint64_t h=0xcbf29ce484222325ull; std::string sig=c.spec.text(); for(auto&s:c.steps){ sig+=s.text(); } for(char ch:sig){ h^=(unsigned char)ch; h*=0x100000001B3ull; }
            js<<"},\"h\":\""<<std::hex<<h<<"\",\"oh\":\""<<v.oh<<std::dec<<"\",\"hist\":["; for(size_t q=0;q<c.steps.size()&&q<8;q++) js<<(q?",":"")<<"\""<<c.steps[q].text()<<"\""; js<<"]";
            if(v.skip) js<<",\"skip\":1";
            js<<"}"; printf("%s\n",js.str().c_str()); if(v.skip) fprintf(stderr,"SKIP %llu %s\n",(unsigned long long)seed,v.skipWhy.c_str());
            if(!v.what.empty()){ std::ostringstream fn; fn<<out<<"/"<<prop<<"-"<<seed<<".replay"; writeReplay(fn.str(),c,v.what); Verdict v2=judge(c); printf("FAIL %s same=%d %s\n",fn.str().c_str(),(int)(v2.what==v.what),v.what.c_str()); fflush(stdout); return 1; }
            fflush(stdout);
        }
        return 0;
    }
    fprintf(stderr,"usage: ser search|replay|min ...\n"); return 2;
}
