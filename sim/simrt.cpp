#include "simrt.h"
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <map>
#include <set>
#include <unordered_map>
#include <dlfcn.h>
#include <algorithm>

#define NOINST __attribute__((no_sanitize_thread))

namespace sim {
enum { MAXT = 16 };
enum State { IDLE, RUN, BLOCKED, BARRIER, DONE };

struct Worker {
    pthread_t th; int baton; State st; int tid;
    const void * waitOn;
    uint64_t lstep, next; int prio;
    uint32_t singleCount, loopCount;
    uintptr_t stkLo, stkHi;
    uint32_t clk[MAXT];
    bool created;
};
static Worker W[MAXT];
static Config cfg; static Stats st; static Rng rng(1), rngHot(1);
static std::vector<Switch> * trc = nullptr;
static std::map<std::pair<uint64_t,uint64_t>,uint32_t> * sched = nullptr;   // replay map
static bool active = false;      // inside a parallel region with >1 threads
static int  cur = 0;             // thread holding the baton
static int  team = 1;            // size of the active team
static int  nested = 0;
static uint32_t region = 0;
static void (*g_fn)(void*) = nullptr; static void * g_data = nullptr;
static void (*exitHook)() = nullptr;
static int pctLow = 0;
static std::set<uint64_t> * pctPoints = nullptr;
static bool anyHot = false;
static const size_t HOTN = 1<<16;
static unsigned char hotTab[HOTN];
static inline size_t hh(uintptr_t pc){ return (pc*0x9E3779B97F4A7C15ull)>>48; }
enum { NSINGLE=1<<20 };
static uint64_t singleGen[NSINGLE]; static uint64_t teamGen=0;     // which team already ran its k-th single construct
struct LoopState { bool init; long next,end,incr,chunk; int left; };
static LoopState loops[256];
static int arrived = 0; 
static int inDet = 0;            // the runtime's own memory operations are not events

struct Quiet { Quiet(){inDet++;} ~Quiet(){inDet--;} };   // container code below may be shared with instrumented objects
static void fwait(int * a){ while(__atomic_load_n(a,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,a,FUTEX_WAIT_PRIVATE,0,nullptr,nullptr,0); __atomic_store_n(a,0,__ATOMIC_RELEASE);}
static void fwake(int * a){ __atomic_store_n(a,1,__ATOMIC_RELEASE); syscall(SYS_futex,a,FUTEX_WAKE_PRIVATE,1,nullptr,nullptr,0);}

void setExitHandler(void (*f)()){ exitHook=f; }
void beginOp(uint32_t i){ region=i<<16; }
static void endRun(const char*m,int code){ fprintf(stderr,"SIM: %s\n",m); if(exitHook) exitHook(); _exit(code); }
static void dead(const char*m){ endRun(m,86); }

static void drawNext(Worker & w)
{
    Quiet q_;
    if (cfg.replay) {
        w.next=~0ull;
        auto it = sched->upper_bound({((uint64_t)region<<32)|w.tid, w.lstep});
        if (it!=sched->end() && it->first.first==(((uint64_t)region<<32)|(uint64_t)w.tid)) w.next=it->first.second;
        return;
    }
    // the mean gap grows with the number of preemptions so far, which bounds the cost of a run of any length
    const double stretch=1+(double)(st.preemptions>>14);
    switch(cfg.strategy) {
    case RANDOM: case HOT: { double u=rng.unit(); uint64_t g=(uint64_t)(1+(-__builtin_log(1-u*0.999999))*cfg.gap*stretch); w.next=w.lstep+g; } break;
    case ROUND:  w.next=w.lstep+(uint64_t)(cfg.gap*stretch); break;
    default: w.next=~0ull;
    }
}

static void handover(int to)      // current thread gives the baton to `to` and waits
{
    int me=cur; if(to==me) return;
    st.switches++;
    st.hash=(st.hash^(((uint64_t)region<<48)^((uint64_t)me<<44)^((uint64_t)to<<40)^W[me].lstep))*0x100000001B3ull; st.hash^=st.hash>>29;
    inDet++; if (trc->size()<4000000) trc->push_back(Switch{region,(uint32_t)me,W[me].lstep,(uint32_t)to}); inDet--;
    cur=to; fwake(&W[to].baton);
}
static void switchTo(int to){ int me=cur; if(to==me) return; handover(to); fwait(&W[me].baton); }

static int pickOther(bool allowSelf)
{
    Quiet q_;
    int cand[MAXT],n=0;
    for(int i=0;i<team;i++) if(W[i].st==RUN && (allowSelf||i!=cur)) cand[n++]=i;
    if(!n) return -1;
    if (cfg.replay) {
        auto it=sched->find({((uint64_t)region<<32)|(uint64_t)cur,W[cur].lstep});
        if(it!=sched->end()) for(int i=0;i<n;i++) if(cand[i]==(int)it->second) return cand[i];
        for(int i=1;i<=team;i++){ int c=(cur+i)%team; if(W[c].st==RUN && (allowSelf||c!=cur)) return c; }
        return cand[0];
    }
    if (cfg.strategy==PCT){ int b=cand[0]; for(int i=1;i<n;i++) if(W[cand[i]].prio>W[b].prio) b=cand[i]; return b; }
    if (cfg.strategy==ROUND || cfg.strategy==SEQ) { for(int i=1;i<=team;i++){ int c=(cur+i)%team; if(W[c].st==RUN && (allowSelf||c!=cur)) return c; } }
    return cand[rng.below(n)];
}
// current thread cannot continue: run somebody else
static void forced(const char * why)
{
    int to=pickOther(false);
    if(to<0) dead(why);
    switchTo(to);
    drawNext(W[cur]);
}
static void __attribute__((noinline)) preempt()
{
    Worker & w=W[cur];
    if (cfg.strategy==PCT && !cfg.replay) {
        // priority change point: drop to lowest
        w.prio=--pctLow; 
    }
    int to=pickOther(cfg.strategy==PCT && !cfg.replay);
    if (to>=0 && to!=w.tid) { st.preemptions++; switchTo(to); }
    drawNext(W[cur]);
}

// ------------------------------------------------------------------ conflict detector
struct Cell { uint32_t rclk[MAXT]; uintptr_t rpc[2]; uint32_t wclk; int32_t wtid; uintptr_t wpc; uint32_t gen; };
static std::unordered_map<uintptr_t,Cell> * shadow=nullptr;
static std::set<uintptr_t> * racy=nullptr;
static std::map<const void*,std::vector<uint32_t>> * lockClk=nullptr;
static uint32_t gen=0;
static void conflict(uintptr_t a,uintptr_t b){ st.races++; if(a)racy->insert(a); if(b)racy->insert(b); }
static void detectAccess1(uintptr_t a,bool wr,uintptr_t pc);
static void __attribute__((noinline)) detectAccess(uintptr_t a,bool wr,uintptr_t pc){ inDet++; detectAccess1(a,wr,pc); inDet--; }
static void detectAccess1(uintptr_t a,bool wr,uintptr_t pc)
{
    Worker & w=W[cur];
    if (a>=w.stkLo && a<w.stkHi) return;
    Cell & c=(*shadow)[a>>3];
    if (c.gen!=gen) { memset(&c,0,sizeof c); c.gen=gen; c.wtid=-1; }
    if (c.wtid>=0 && c.wtid!=w.tid && c.wclk>w.clk[c.wtid]) conflict(c.wpc,pc);
    if (wr) {
        for(int t=0;t<team;t++) if(t!=w.tid && c.rclk[t]>w.clk[t]) conflict(c.rpc[0],pc);
        c.wclk=w.clk[w.tid]; c.wtid=w.tid; c.wpc=pc;
    } else { c.rclk[w.tid]=w.clk[w.tid]; c.rpc[0]=pc; }
}
static void acq(const void*l){ if(!cfg.detect||!active) return; Quiet q_; auto it=lockClk->find(l); if(it==lockClk->end()) return; for(int i=0;i<MAXT;i++) W[cur].clk[i]=std::max(W[cur].clk[i],it->second[i]); }
static void rel(const void*l){ if(!cfg.detect||!active) return; Quiet q_; auto & v=(*lockClk)[l]; v.assign(W[cur].clk,W[cur].clk+MAXT); W[cur].clk[cur]++; }

static inline void access(uintptr_t a,bool wr,uintptr_t pc)
{
    if (__builtin_expect(inDet,0)) return;
    Worker & w=W[cur];
    ++w.lstep;
    if (__builtin_expect((w.lstep&0xFFFFF)==0,0) && cfg.maxSteps && w.lstep>cfg.maxSteps) endRun("no progress within the step bound",85);
    if (__builtin_expect(w.lstep>=w.next,0)) preempt();
    else if (__builtin_expect(anyHot,0) && hotTab[hh(pc)] && !cfg.replay) { st.hotHits++; if(rngHot.chance(0.35)) preempt(); }
    if (__builtin_expect(cfg.detect,0)) detectAccess(a,wr,pc);
}
static inline void range(uintptr_t a,size_t n,bool wr,uintptr_t pc)
{
    if(!n) return;
    access(a,wr,pc);
    if (cfg.detect&&!inDet) for(uintptr_t p=(a&~7ull)+8;p<a+n;p+=8) detectAccess(p,wr,pc);
}

// ------------------------------------------------------------------ threads and regions
static void * threadMain(void * p)
{
    Worker & w=*(Worker*)p;
    for(;;){
        fwait(&w.baton);
        g_fn(g_data);
        w.st=DONE;
        // team finished?
        bool all=true; for(int i=0;i<team;i++) if(W[i].st!=DONE) all=false;
        if(all) { cur=0; fwake(&W[0].baton); }      // master resumes at the join
        else { int to=pickOther(false); if(to<0){ 
                 // the others wait at a barrier this thread never reaches, or are blocked
                 dead("deadlock: team member finished while all others are blocked"); }
               handover(to); }
    }
    return nullptr;
}
static void ensureThread(int i)
{
    Worker & w=W[i];
    if(w.created) return;
    w.tid=i; w.baton=0; w.created=true;
    if(i==0){ pthread_attr_t at; void*lo; size_t sz; pthread_getattr_np(pthread_self(),&at); pthread_attr_getstack(&at,&lo,&sz); pthread_attr_destroy(&at); w.stkLo=(uintptr_t)lo; w.stkHi=w.stkLo+sz; return; }
    size_t sz=16<<20;
    void * stk=mmap((void*)(0x300000000000ull+(uintptr_t)i*0x10000000ull),sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if(stk==MAP_FAILED) stk=mmap(nullptr,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    w.stkLo=(uintptr_t)stk; w.stkHi=w.stkLo+sz;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,stk,sz);
    if(pthread_create(&w.th,&at,threadMain,&w)) { perror("pthread_create"); _exit(87); }
    pthread_attr_destroy(&at);
}
static void runTeam(void (*fn)(void*),void*data,int n)
{
    region++; st.regions++;
    if (n<=1 || active) { nested++; int svd=team; (void)svd; fn(data); nested--; return; }
    if(n>MAXT) n=MAXT;
    team=n; g_fn=fn; g_data=data; arrived=0;
    teamGen++; memset(loops,0,sizeof loops);
    if(cfg.detect){ Quiet q_; gen++; lockClk->clear(); }
    for(int i=0;i<n;i++){ ensureThread(i); Worker&w=W[i]; w.st=RUN; w.lstep=0; w.next=~0ull; w.waitOn=nullptr; w.singleCount=w.loopCount=0; w.prio=0; memset(w.clk,0,sizeof w.clk); w.clk[i]=1; }
    if(cfg.strategy==PCT){ int p[MAXT]; for(int i=0;i<n;i++)p[i]=i+1; for(int i=n-1;i>0;i--) std::swap(p[i],p[rng.below(i+1)]); for(int i=0;i<n;i++)W[i].prio=p[i]; pctLow=0;
        for(int k=0;k<cfg.depth;k++){ int t=rng.below(n); uint64_t s=1+rng.below(cfg.est?cfg.est:1000); if(W[t].next==~0ull||s<W[t].next) W[t].next=s; } }
    else for(int i=0;i<n;i++) drawNext(W[i]);
    active=true; cur=0;
    if(!cfg.replay && cfg.strategy==PCT){ int b=0; for(int i=1;i<n;i++) if(W[i].prio>W[b].prio)b=i; if(b!=0) switchTo(b); }
    else if(!cfg.replay && cfg.strategy!=SEQ){ int b=rng.below(n); if(b!=0) switchTo(b); }
    else if(cfg.replay){ inDet++; auto it=sched->find({((uint64_t)region<<32),0}); inDet--; if(it!=sched->end() && it->second<(uint32_t)n && it->second!=0) switchTo(it->second); }
    fn(data);
    W[0].st=DONE;
    bool all=true; for(int i=0;i<n;i++) if(W[i].st!=DONE) all=false;
    if(!all){ int to=pickOther(false); if(to<0) dead("deadlock: all remaining team members are blocked"); handover(to); fwait(&W[0].baton); }
    for(int i=0;i<n;i++) st.maxThreadSteps=std::max(st.maxThreadSteps,W[i].lstep), st.steps+=W[i].lstep;
    active=false; cur=0; team=1;
}

void configure(const Config & c)
{
    cfg=c; memset(&st,0,sizeof st); st.hash=0xcbf29ce484222325ull; rng=Rng(c.seed); rngHot=Rng(c.seed^0x5555); region=0;
    if(!trc) { trc=new std::vector<Switch>(); sched=new std::map<std::pair<uint64_t,uint64_t>,uint32_t>(); shadow=new std::unordered_map<uintptr_t,Cell>(); racy=new std::set<uintptr_t>(); lockClk=new std::map<const void*,std::vector<uint32_t>>(); }
    trc->clear(); trc->reserve(1<<16); sched->clear(); racy->clear(); shadow->clear();
    for(auto & s:c.schedule) (*sched)[{((uint64_t)s.region<<32)|s.tid,s.lstep}]=s.to;
    memset(hotTab,0,sizeof hotTab); anyHot=false;
    if(c.strategy==HOT) for(uintptr_t p:c.hot){ hotTab[hh(p)]=1; anyHot=true; }
}
const Stats & stats(){ return st; }
const std::vector<Switch> & trace(){ return *trc; }
std::vector<uintptr_t> conflicts(){ return std::vector<uintptr_t>(racy->begin(),racy->end()); }
bool inRegion(){ return active; }

// ------------------------------------------------------------------ locks
static void lockAcquire(int * l,const void*key)
{
    access(0,false,0);
    while(*l){ W[cur].st=BLOCKED; W[cur].waitOn=key; st.blocked++; forced("deadlock: all threads blocked on locks or barriers"); }
    *l=1; acq(key);
}
static void lockRelease(int * l,const void*key)
{
    rel(key); *l=0;
    for(int i=0;i<team;i++) if(W[i].st==BLOCKED && W[i].waitOn==key){ W[i].st=RUN; W[i].waitOn=nullptr; }
    access(0,false,0);
}
} // namespace sim
using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
// ---- OpenMP ABI
void GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned){ runTeam(fn,data,n? (int)n : cfg.nthreads); }
static int critFlag; static char critKey;
void GOMP_critical_start(){ if(!active) return; st.criticals++; lockAcquire(&critFlag,&critKey); }
void GOMP_critical_end(){ if(!active) return; lockRelease(&critFlag,&critKey); }
void GOMP_critical_name_start(void**p){ if(!active) return; st.criticals++; lockAcquire((int*)p,p); }
void GOMP_critical_name_end(void**p){ if(!active) return; lockRelease((int*)p,p); }
static int atomFlag; static char atomKey;
void GOMP_atomic_start(){ if(!active) return; st.atomics++; lockAcquire(&atomFlag,&atomKey); }
void GOMP_atomic_end(){ if(!active) return; lockRelease(&atomFlag,&atomKey); }
void GOMP_barrier()
{
    if(!active||nested) return;
    st.barriers++; access(0,false,0);
    rel(&arrived);
    arrived++;
    if(arrived==team){ arrived=0; for(int i=0;i<team;i++) if(W[i].st==BARRIER) W[i].st=RUN;
        if(cfg.detect){ Quiet q_; std::vector<uint32_t> m(MAXT,0); for(int i=0;i<team;i++)for(int j=0;j<MAXT;j++)m[j]=std::max(m[j],W[i].clk[j]); for(int i=0;i<team;i++) for(int j=0;j<MAXT;j++)W[i].clk[j]=m[j]; for(int i=0;i<team;i++) W[i].clk[i]++; }
        access(0,false,0); return; }
    W[cur].st=BARRIER; forced("deadlock: barrier never completed");
}
bool GOMP_single_start()
{
    if(!active||nested) return true;
    access(0,false,0);
    uint32_t k=W[cur].singleCount++; if(k>=NSINGLE) endRun("too many single constructs",88);
    if(singleGen[k]!=teamGen){ singleGen[k]=teamGen; return true; }
    return false;
}
static bool loopNext(LoopState&L,long*s,long*e){ if((L.incr>0&&L.next>=L.end)||(L.incr<0&&L.next<=L.end)) return false; *s=L.next; long nx=L.next+L.incr*L.chunk; if((L.incr>0&&nx>L.end)||(L.incr<0&&nx<L.end)) nx=L.end; *e=nx; L.next=nx; return true; }
static LoopState nestedLoop;
bool GOMP_loop_nonmonotonic_dynamic_start(long s,long e,long i,long c,long*is,long*ie)
{
    if(!active||nested){ nestedLoop=LoopState{true,s,e,i,c>0?c:1,0}; return loopNext(nestedLoop,is,ie); }
    access(0,false,0); LoopState&L=loops[(W[cur].loopCount)&255];
    if(!L.init) L=LoopState{true,s,e,i,c>0?c:1,team};
    return loopNext(L,is,ie);
}
bool GOMP_loop_nonmonotonic_dynamic_next(long*is,long*ie){ if(!active||nested) return loopNext(nestedLoop,is,ie); access(0,false,0); return loopNext(loops[W[cur].loopCount&255],is,ie); }
bool GOMP_loop_dynamic_start(long s,long e,long i,long c,long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_start(s,e,i,c,is,ie); }
bool GOMP_loop_dynamic_next(long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_next(is,ie); }
bool GOMP_loop_nonmonotonic_guided_start(long s,long e,long i,long c,long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_start(s,e,i,c,is,ie); }
bool GOMP_loop_nonmonotonic_guided_next(long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_next(is,ie); }
bool GOMP_loop_guided_start(long s,long e,long i,long c,long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_start(s,e,i,c,is,ie); }
bool GOMP_loop_guided_next(long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_next(is,ie); }
bool GOMP_loop_runtime_start(long s,long e,long i,long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_start(s,e,i,1,is,ie); }
bool GOMP_loop_runtime_next(long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_next(is,ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_start(s,e,i,1,is,ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*is,long*ie){ return GOMP_loop_nonmonotonic_dynamic_next(is,ie); }
void GOMP_loop_end_nowait(){ if(!active||nested) return; W[cur].loopCount++; }
void GOMP_loop_end(){ if(!active||nested) return; W[cur].loopCount++; GOMP_barrier(); }
struct ParLoop{ void(*fn)(void*); void*data; long s,e,i,c; };
void GOMP_parallel_loop_nonmonotonic_dynamic(void(*fn)(void*),void*data,unsigned n,long s,long e,long i,long c,unsigned)
{ // the body starts with loop_next: seed the work share before the team starts
    static ParLoop pl; pl=ParLoop{fn,data,s,e,i,c};
    runTeam([](void*p){ ParLoop&q=*(ParLoop*)p; if(!active||nested) nestedLoop=LoopState{true,q.s,q.e,q.i,q.c>0?q.c:1,0}; else { LoopState&L=loops[W[cur].loopCount&255]; if(!L.init) L=LoopState{true,q.s,q.e,q.i,q.c>0?q.c:1,team}; } q.fn(q.data); },&pl,n?(int)n:cfg.nthreads);
}
void GOMP_parallel_loop_dynamic(void(*fn)(void*),void*data,unsigned n,long s,long e,long i,long c,unsigned f){ GOMP_parallel_loop_nonmonotonic_dynamic(fn,data,n,s,e,i,c,f); }
void GOMP_parallel_loop_nonmonotonic_guided(void(*fn)(void*),void*data,unsigned n,long s,long e,long i,long c,unsigned f){ GOMP_parallel_loop_nonmonotonic_dynamic(fn,data,n,s,e,i,c,f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void(*fn)(void*),void*data,unsigned n,long s,long e,long i,unsigned f){ GOMP_parallel_loop_nonmonotonic_dynamic(fn,data,n,s,e,i,1,f); }
static std::vector<std::pair<uint32_t,int>> * sect=nullptr;
unsigned GOMP_sections_start(unsigned n){ long a,b; return GOMP_loop_nonmonotonic_dynamic_start(1,(long)n+1,1,1,&a,&b)?(unsigned)a:0; }
unsigned GOMP_sections_next(){ long a,b; return GOMP_loop_nonmonotonic_dynamic_next(&a,&b)?(unsigned)a:0; }
void GOMP_sections_end(){ GOMP_loop_end(); }
void GOMP_sections_end_nowait(){ GOMP_loop_end_nowait(); }
void GOMP_ordered_start(){} void GOMP_ordered_end(){}
void GOMP_taskwait(){}
void GOMP_task(void(*fn)(void*),void*data,void(*cpyfn)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*)
{ // tasks run at once on the encountering thread (a legal schedule)
    if(cpyfn){ std::vector<char> b(sz+al); char*p=(char*)(((uintptr_t)b.data()+al-1)/al*al); cpyfn(p,data); fn(p);} else fn(data);
}
int omp_get_max_threads(){ return cfg.nthreads; }
int omp_get_num_threads(){ return (active&&!nested)?team:1; }
int omp_get_thread_num(){ return (active&&!nested)?cur:0; }
int omp_in_parallel(){ return active; }
int omp_get_num_procs(){ return cfg.nthreads; }
int omp_get_thread_limit(){ return MAXT; }
int omp_get_level(){ return active?1:0; }
int omp_get_nested(){ return 0; }
int omp_get_dynamic(){ return 0; }
void omp_set_nested(int){} void omp_set_dynamic(int){}
void omp_set_num_threads(int n){ if(n>0&&n<=MAXT) cfg.nthreads=n; }
double omp_get_wtime(){ return 1e-9*(double)st.steps; }
double omp_get_wtick(){ return 1e-9; }
void omp_init_lock(int*l){ *l=0; } void omp_destroy_lock(int*){}
void omp_set_lock(int*l){ if(!active){*l=1;return;} st.locks++; lockAcquire(l,l); }
void omp_unset_lock(int*l){ if(!active){*l=0;return;} lockRelease(l,l); }
int  omp_test_lock(int*l){ if(active) access(0,false,0); if(*l) return 0; *l=1; acq(l); return 1; }

// ---- static initialisation guards
int __cxa_guard_acquire(unsigned char*g)
{
    if(__atomic_load_n(g,__ATOMIC_ACQUIRE)){ acq(g); return 0; }
    if(active){ while(g[1]){ W[cur].st=BLOCKED; W[cur].waitOn=g; st.blocked++; forced("deadlock: recursive static initialisation"); } if(g[0]){ acq(g); return 0; } }
    g[1]=1; return 1;
}
void __cxa_guard_release(unsigned char*g){ rel(g); g[0]=1; g[1]=0; if(active) for(int i=0;i<team;i++) if(W[i].st==BLOCKED&&W[i].waitOn==g){W[i].st=RUN;W[i].waitOn=nullptr;} }
void __cxa_guard_abort(unsigned char*g){ g[1]=0; if(active) for(int i=0;i<team;i++) if(W[i].st==BLOCKED&&W[i].waitOn==g){W[i].st=RUN;W[i].waitOn=nullptr;} }

// ---- pthread primitives the code might use inside a region
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t*m)
{
    if(!active) return __real_pthread_mutex_lock(m);
    st.locks++; access(0,false,0);
    for(;;){ int r=pthread_mutex_trylock(m); if(r!=EBUSY){ acq(m); return r; } W[cur].st=BLOCKED; W[cur].waitOn=m; st.blocked++; forced("deadlock: mutex"); }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m)
{
    if(!active) return __real_pthread_mutex_unlock(m);
    rel(m); int r=__real_pthread_mutex_unlock(m);
    for(int i=0;i<team;i++) if(W[i].st==BLOCKED&&W[i].waitOn==m){W[i].st=RUN;W[i].waitOn=nullptr;}
    access(0,false,0); return r;
}

// ---- thread-sanitizer ABI
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) \
 void __tsan_read##n(void*p){ if(active) access((uintptr_t)p,false,PC);} \
 void __tsan_write##n(void*p){ if(active) access((uintptr_t)p,true,PC);} \
 void __tsan_unaligned_read##n(void*p){ if(active) range((uintptr_t)p,n,false,PC);} \
 void __tsan_unaligned_write##n(void*p){ if(active) range((uintptr_t)p,n,true,PC);} \
 void __tsan_volatile_read##n(void*p){ if(active) access((uintptr_t)p,false,PC);} \
 void __tsan_volatile_write##n(void*p){ if(active) access((uintptr_t)p,true,PC);}
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void*p){ if(active) range((uintptr_t)p,16,false,PC);} 
void __tsan_write16(void*p){ if(active) range((uintptr_t)p,16,true,PC);} 
void __tsan_unaligned_read16(void*p){ if(active) range((uintptr_t)p,16,false,PC);} 
void __tsan_unaligned_write16(void*p){ if(active) range((uintptr_t)p,16,true,PC);} 
void __tsan_read_range(void*p,long n){ if(active) range((uintptr_t)p,n,false,PC);} 
void __tsan_write_range(void*p,long n){ if(active) range((uintptr_t)p,n,true,PC);} 
void __tsan_vptr_update(void**p,void*){ if(active) access((uintptr_t)p,true,PC);} 
void __tsan_vptr_read(void**p){ if(active) access((uintptr_t)p,false,PC);} 
#define AT(b,T) \
 T __tsan_atomic##b##_load(const volatile T*a,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);} return __atomic_load_n(a,__ATOMIC_SEQ_CST);} \
 void __tsan_atomic##b##_store(volatile T*a,T v,int){ if(active){st.atomics++;access(0,false,PC);rel((void*)a);} __atomic_store_n(a,v,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_exchange(volatile T*a,T v,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_fetch_add(volatile T*a,T v,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_fetch_sub(volatile T*a,T v,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_fetch_and(volatile T*a,T v,int){ if(active){access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_fetch_or(volatile T*a,T v,int){ if(active){access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_fetch_xor(volatile T*a,T v,int){ if(active){access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST);} \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T*a,T*c,T v,int,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T*a,T*c,T v,int,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);rel((void*)a);} return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST);} \
 T __tsan_atomic##b##_compare_exchange_val(volatile T*a,T c,T v,int,int){ if(active){st.atomics++;access(0,false,PC);acq((void*)a);rel((void*)a);} __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){ if(active) access(0,false,PC);} void __tsan_atomic_signal_fence(int){}

// ---- bulk memory operations (not instrumented by the compiler)
void*__real_memcpy(void*,const void*,size_t); void*__real_memmove(void*,const void*,size_t); void*__real_memset(void*,int,size_t);
void*__wrap_memcpy(void*d,const void*s,size_t n){ if(active&&n&&!inDet){ range((uintptr_t)s,n,false,PC); range((uintptr_t)d,n,true,PC);} return __real_memcpy(d,s,n);} 
void*__wrap_memmove(void*d,const void*s,size_t n){ if(active&&n&&!inDet){ range((uintptr_t)s,n,false,PC); range((uintptr_t)d,n,true,PC);} return __real_memmove(d,s,n);} 
void*__wrap_memset(void*d,int c,size_t n){ if(active&&n&&!inDet) range((uintptr_t)d,n,true,PC); return __real_memset(d,c,n);} 
}

// ------------------------------------------------------------------ deterministic allocator
// Fixed base address, size classes, freed memory is poisoned, fresh memory is filled:
// a run's heap layout is a function of the schedule only.
namespace {
const uintptr_t BASE=0x200000000000ull; const size_t HEAP=(size_t)24<<30;
struct Hdr { uint64_t size; uint64_t magic; };          // 16 bytes before each block
const uint64_t LIVE=0xA110CA7EDB10C5ull, FREED=0xDEADB10CDEADB10Cull;
struct FreeNode { FreeNode*next; };
struct Big { size_t sz; Big*next; };
// two arenas: what the simulator keeps for itself (and the process before the run starts), and what the run allocates
struct Arena { char*brk_; char*end_; FreeNode*bins[4097]; Big*bigs; };
Arena ar[2]; bool started=false; bool runArena=false; uint64_t live_=0;
void initHeap(){ void*p=mmap((void*)BASE,HEAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p==MAP_FAILED){ static const char m[]="SIM: heap mmap failed\n"; if(write(2,m,sizeof m-1)){} _exit(88);} ar[0].brk_=(char*)p; ar[0].end_=ar[1].brk_=(char*)p+HEAP/2; ar[1].end_=(char*)p+HEAP; started=true; }
void badFree(const char*m){ sim::endRun(m,89); }
extern "C" void*__real_memset(void*,int,size_t);
void * rawAlloc(size_t n,size_t al)
{
    if(!started) initHeap();
    Arena & A=ar[runArena&&!sim::inDet];
    if(n==0) n=1;
    n=(n+15)&~(size_t)15;
    if(al<=16 && n<=65536){ size_t b=n/16; if(A.bins[b]){ FreeNode*f=A.bins[b]; A.bins[b]=f->next; Hdr*h=(Hdr*)f-1; h->magic=LIVE; h->size=n; __real_memset(f,0xFF,n); live_+=n; return f; } }
    else if(al<=16){ Big**pp=&A.bigs; while(*pp){ if((*pp)->sz>=n && (*pp)->sz<=2*n){ Big*b=*pp; *pp=b->next; Hdr*h=(Hdr*)b-1; h->magic=LIVE; __real_memset(b,0xFF,n); live_+=h->size; return b; } pp=&(*pp)->next; } }
    char*p=A.brk_+sizeof(Hdr); if(al>16) p=(char*)(((uintptr_t)p+al-1)/al*al);
    if(p+n>A.end_) { errno=ENOMEM; return nullptr; }
    A.brk_=p+n; Hdr*h=(Hdr*)p-1; h->size=n; h->magic=LIVE; __real_memset(p,0xFF,n); live_+=n; return p;
}
void rawFree(void*p)
{
    if(!p) return; Hdr*h=(Hdr*)p-1;
    if(h->magic==FREED) badFree("double free"); if(h->magic!=LIVE) badFree("invalid free or heap overflow");
    h->magic=FREED; live_-=h->size; size_t n=h->size; __real_memset(p,0xF5,n);
    Arena & A=ar[(uintptr_t)p>=BASE+HEAP/2];
    if(n<=65536){ FreeNode*f=(FreeNode*)p; f->next=A.bins[n/16]; A.bins[n/16]=f; } else { Big*b=(Big*)p; b->sz=n; b->next=A.bigs; A.bigs=b; }
}
}
namespace sim { void beginRun(){ runArena=true; } }
namespace sim { uint64_t liveBytes(){ return live_; } 
static void forget(void*p,size_t n){ if(active&&cfg.detect) for(uintptr_t a=(uintptr_t)p&~7ull;a<(uintptr_t)p+n;a+=8) shadow->erase(a>>3); } }
extern "C" {
void*malloc(size_t n){ void*p=rawAlloc(n,16); if(active&&cfg.detect&&!inDet&&p){ inDet++; forget(p,n); inDet--;} return p; }
void free(void*p){ rawFree(p); }
void*calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void*p=malloc(n); if(p) __real_memset(p,0,n); return p; }
void*realloc(void*p,size_t n){ if(!p) return malloc(n); if(!n){free(p);return nullptr;} size_t o=((Hdr*)p-1)->size; void*q=malloc(n); if(q){ __real_memcpy(q,p,o<n?o:n); free(p);} return q; }
void*memalign(size_t al,size_t n){ return rawAlloc(n,al);} 
void*aligned_alloc(size_t al,size_t n){ return rawAlloc(n,al);} 
int posix_memalign(void**r,size_t al,size_t n){ void*p=rawAlloc(n,al); if(!p) return ENOMEM; *r=p; return 0; }
void*valloc(size_t n){ return rawAlloc(n,4096);} void*pvalloc(size_t n){ return rawAlloc((n+4095)&~4095ul,4096);} 
size_t malloc_usable_size(void*p){ return p?((Hdr*)p-1)->size:0; }
}
