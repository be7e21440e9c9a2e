// Storage simulation (X01): histories of writing, overwriting, reading and rewriting materials
// on a simulated disk.  The simulator decides which write, read or open fails and how, what a
// crash leaves of a file (a prefix, lost sectors), and which parts of a document are missing.
#include "scen.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <list>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <zlib.h>
using sim::Rng;

// ------------------------------------------------------------------ the disk
enum DiskFault { DF_NONE=0, DF_NOSPACE, DF_SHORT, DF_EIO, DF_LOST, DF_OPEN, DF_READ_SHORT, DF_READ_EIO, DF_READ_OPEN, DF_COUNT };
static const char * dfName[DF_COUNT]={"none","disk full","short write, then disk full","write error","write lost","open fails","short reads","read error (not injected: the file layer of the core ends the process)","open for reading fails"};
struct Disk { int kind; long at,writes,reads,opens,fired; bool on,dead; } g_disk;
static bool regular(int fd){ struct stat s; return !fstat(fd,&s) && S_ISREG(s.st_mode); }
static ssize_t diskWrite(int fd,const char*p,size_t n)
{
    if(!g_disk.on || fd<3 || !regular(fd)) return syscall(SYS_write,fd,p,n);
    long k=++g_disk.writes;
    if(g_disk.dead){ errno=ENOSPC; return -1; }
    if(k==g_disk.at) switch(g_disk.kind){
        case DF_NOSPACE: g_disk.fired++; g_disk.dead=true; errno=ENOSPC; return -1;
        case DF_SHORT:   g_disk.fired++; g_disk.dead=true; if(n>1){ return syscall(SYS_write,fd,p,n/2); } errno=ENOSPC; return -1;
        case DF_EIO:     g_disk.fired++; errno=EIO; return -1;
        case DF_LOST:    g_disk.fired++; return n;
    }
    return syscall(SYS_write,fd,p,n);
}
extern "C" {
ssize_t write(int fd,const void*p,size_t n){ return diskWrite(fd,(const char*)p,n); }
ssize_t writev(int fd,const struct iovec*v,int n){ ssize_t t=0; for(int i=0;i<n;i++){ if(!v[i].iov_len) continue; ssize_t r=diskWrite(fd,(const char*)v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t read(int fd,void*p,size_t n)
{
    if(g_disk.on && fd>2 && regular(fd)){ long k=++g_disk.reads;
        if(g_disk.kind==DF_READ_SHORT && n>1){ g_disk.fired++; n=1+(k*7919)%std::min<size_t>(n-1,97); }
        if(g_disk.kind==DF_READ_EIO && k==g_disk.at){ g_disk.fired++; errno=EIO; return -1; } }
    return syscall(SYS_read,fd,p,n);
}
FILE * fopen64(const char*f,const char*m)
{
    typedef FILE*(*F)(const char*,const char*); static F next=(F)dlsym(RTLD_NEXT,"fopen64");
    if(g_disk.on && (g_disk.kind==DF_OPEN||g_disk.kind==DF_READ_OPEN) && ++g_disk.opens==1){ g_disk.fired++; errno=EMFILE; return nullptr; }
    return next(f,m);
}
}

// ------------------------------------------------------------------ materials
enum { NL=9 };
static const char * lawName[NL]={"Linear","CompressibleNH","IncompressibleNH","CompressibleNHe","CompressibleMR","IncompressibleMR","CompressibleOG","IncompressibleOG","Linear"};
struct MSpec { int law,dim; bool tft,rho; std::string t,r; std::vector<std::string> par;
    std::string type() const { std::ostringstream o; o<<lawName[law]<<dim; return o.str(); }
    std::string text() const { std::ostringstream o; o<<type()<<(tft?" TFT":"")<<" thickness "<<t; if(rho) o<<" density "<<r; o<<" parameters"; for(auto&p:par) o<<" "<<p; return o.str(); } };
static std::string num(Rng & r,double lo,double hi){ char b[64]; snprintf(b,sizeof b,r.chance(0.5)?"%.17g":"%.6g",lo+(hi-lo)*r.unit()); return b; }
// a positive expression around the value; uses only what the expression parser documents
static std::string genExpr(Rng & r,double lo,double hi,int dim)
{
    std::string a=num(r,lo,hi); static const char*v[]={"x","y","z"};
    switch(r.below(6)){
    case 0: return a+"*(1+"+num(r,0.01,0.1)+"*"+v[r.below(dim)]+")";
    case 1: return a+"*(1+"+num(r,0.01,0.1)+"*sin("+num(r,1,3)+"*x)*cos(y))";
    case 2: return "if(x < "+num(r,0.2,0.8)+", "+a+", "+a+"*1.05)";          // '<' must survive the markup
    case 3: return a+"*exp(-"+num(r,0.01,0.1)+"*("+v[r.below(dim)]+"^2+1))";
    default: return a;
    }
}
static MSpec genM(Rng & r)
{
    MSpec m; m.law=(int)r.below(8); m.dim=r.chance(0.7)?3:2; m.tft=r.chance(0.3); m.rho=r.chance(0.6); bool inc=m.law==2||m.law==5||m.law==7;
    m.t=genExpr(r,0.01,0.05,m.dim); m.r=genExpr(r,1,9,m.dim);
    m.par.push_back(genExpr(r,1,3,m.dim)); m.par.push_back(inc?std::string("0.5"):genExpr(r,0.2,0.35,m.dim));
    if(m.law==4||m.law==5) m.par.push_back(genExpr(r,2,7,m.dim));
    if(m.law==6||m.law==7){ double mu=1; int n=1+(int)r.below(6); (void)mu; for(int i=0;i<n;i++){ m.par.push_back(genExpr(r,0.3,1.2,m.dim)); m.par.push_back(genExpr(r,1.2,2.5,m.dim)); } }
    return m;
}
typedef gsFunctionExpr<real_t> FE;
struct Geo { gsMultiPatch<real_t> mp,def; };
static Geo geo(int dim)
{
    Geo g; g.mp=gsNurbsCreator<real_t>::BSplineSquareGrid(2,2,1.0); if(dim==3) g.mp.embed(3); g.mp.degreeIncrease(1); g.mp.uniformRefine();
    for(size_t p=0;p<g.mp.nPatches();p++){ gsMatrix<real_t>&c=g.mp.patch(p).coefs(); if(dim==3) for(index_t i=0;i<c.rows();i++) c(i,2)=0.2*c(i,0)*c(i,1)+0.1*c(i,0)*c(i,0); }
    g.mp.computeTopology(); g.def=g.mp;
    for(size_t p=0;p<g.def.nPatches();p++){ gsMatrix<real_t>&c=g.def.patch(p).coefs(); for(index_t i=0;i<c.rows();i++){ real_t x=c(i,0),y=c(i,1); c(i,0)+=0.15*x+0.02*x*y; c(i,1)+=0.1*y; if(dim==3) c(i,2)+=0.05*x*x; } }
    return g;
}
template<int d> static Material_t::uPtr makeD(const MSpec & m,const gsFunctionSet<real_t> & mp)
{
    // the materials refer to the functions of the caller
    static std::list<FE> keep; auto fn=[](const std::string & e)->FE& { keep.push_back(FE(e,d)); return keep.back(); };
    FE & t=fn(m.t), & rho=fn(m.r); std::vector<gsFunctionSet<real_t>*> p; for(auto&q:m.par) p.push_back(&fn(q));
    typedef real_t T; Material_t*x=nullptr;
    #define MK(...) x=m.rho?(Material_t*)new __VA_ARGS__(mp,t,p,rho):(Material_t*)new __VA_ARGS__(mp,t,p)
    switch(m.law){
    case 0: MK(gsMaterialMatrixLinear<d,T>); break;
    case 1: MK(gsMaterialMatrixNonlinear<d,T,11,true>); break;
    case 2: MK(gsMaterialMatrixNonlinear<d,T,11,false>); break;
    case 3: MK(gsMaterialMatrixNonlinear<d,T,12,true>); break;
    case 4: MK(gsMaterialMatrixNonlinear<d,T,13,true>); break;
    case 5: MK(gsMaterialMatrixNonlinear<d,T,13,false>); break;
    case 6: MK(gsMaterialMatrixNonlinear<d,T,34,true>); break;
    default: MK(gsMaterialMatrixNonlinear<d,T,34,false>); break;
    }
    #undef MK
    Material_t::uPtr u(x);
    if(m.tft){ Material_t::Ptr in(u.release()); if(m.law==0) return Material_t::uPtr(new gsMaterialMatrixTFT<d,T,true>(in)); return Material_t::uPtr(new gsMaterialMatrixTFT<d,T,false>(in)); }
    return u;
}
static Material_t::uPtr make(const MSpec & m,const gsFunctionSet<real_t> & mp){ return m.dim==2?makeD<2>(m,mp):makeD<3>(m,mp); }
// what a user sees of a material
static void observe(Material_t & m,const MSpec & s,Geo & g,int patch,Outcome & o,bool withDensity)
{
    m.setUndeformed(&g.mp); m.setDeformed(&g.def);
    gsMatrix<real_t> u(2,3),z(1,3),r; u<<0.13,0.52,0.81,0.22,0.47,0.93; z<<-0.003,0,0.004;
    m.thickness_into(patch,u,r); o.add(r);
    Material_t & in=(s.tft && m.material())?*m.material():m; if(s.tft){ in.setUndeformed(&g.mp); in.setDeformed(&g.def); }
    o.add((double)in.hasDensity()); if(withDensity && in.hasDensity()){ in.density_into(patch,u,r); o.add(r); }
    o.add((double)in.numParameters());
    for(index_t k=0;k<in.numParameters();k++){ gsMatrix<real_t> x; gsMapData<real_t> md; md.flags=NEED_VALUE; md.points=u; static_cast<const gsFunction<real_t>&>(g.mp.piece(patch)).computeMap(md); if(!in.getParameter(k)) throw std::runtime_error("parameter missing"); in.getParameter(k)->piece(patch).eval_into(md.values[0],x); o.add(x); }
    o.add(m.eval3D_matrix(patch,u,z,MaterialOutput::MatrixA)); o.add(m.eval3D_vector(patch,u,z,MaterialOutput::VectorN));
    std::ostringstream p; in.print(p);
}

// ------------------------------------------------------------------ histories
enum XType { X_WRITE=0, X_READ, X_REWRITE, X_CRASH, X_DAMAGE, X_CONTAINER, X_COUNT };
enum Damage { DM_TRUNC=0, DM_ZERO, DM_TAIL, DM_CUT, DM_COUNT };                        // what a crash leaves
static const char * dmName[DM_COUNT]={"only a prefix survives","a sector reads as zeroes","stale bytes follow the end","a sector is missing"};
enum Struct { ST_ELEMENT=0, ST_ATTR, ST_INDEX, ST_TYPE, ST_EMPTY, ST_SAME, ST_COUNT };          // what is missing in the document
static const char * stName[ST_COUNT]={"an element is missing","an attribute is missing","an index is out of range","the type is unknown","a text is empty","the same written differently"};
enum { NF=3 };
struct XStep { int t,f,g; std::vector<int> m; int api,kind; uint64_t frac; int df; long at; bool gz;
    XStep():t(0),f(0),g(0),api(0),kind(0),frac(0),df(0),at(1),gz(false){} 
    std::string text() const { std::ostringstream o; 
        switch(t){ case X_WRITE: o<<"write to F"<<f<<(gz?" (gz)":"")<<" materials"; for(int i:m) o<<" "<<i; break;
        case X_READ: { static const char*a[]={"getFirst","getId","getAnyFirst","getAll"}; o<<"read F"<<f<<" "<<a[api]; } break;
        case X_REWRITE: o<<"read F"<<f<<", write to F"<<g; break; case X_CRASH: o<<"crash: of F"<<f<<" "<<dmName[kind]<<" @"<<frac%1000000; break;
        case X_DAMAGE: o<<"document F"<<f<<": "<<stName[kind]<<" @"<<frac%1000000; break; case X_CONTAINER: o<<"write to F"<<f<<" a container of"; for(int i:m) o<<" "<<i; break; }
        if(df) o<<" !"<<dfName[df]<<"@"<<at; return o.str(); } };
struct XCase { std::string prop; uint64_t seed; std::vector<MSpec> mats; std::vector<XStep> steps; std::set<int> dropped;
    std::string text() const { std::ostringstream o; for(size_t i=0;i<mats.size();i++) o<<(i?"; ":"")<<i<<": "<<mats[i].text(); return o.str(); } };
static XCase genX(const std::string & prop,uint64_t seed)
{
    XCase c; c.prop=prop; c.seed=seed; Rng r(seed*77003+11); int nm=2+(int)r.below(3); for(int i=0;i<nm;i++) c.mats.push_back(genM(r));
    int n=4+(int)r.below(14); bool have[NF]={false,false,false};
    auto fileW=[&](XStep & s){ s.f=(int)r.below(NF); int k=1+(int)r.below(3); for(int i=0;i<k;i++) s.m.push_back((int)r.below(nm)); s.gz=false;      // compressed files: the stream of the core itself copies overlapping ranges
        if(r.chance(0.25)){ s.df=DF_NOSPACE+(int)r.below(5); s.at=1; } have[s.f]=true; };
    auto anyF=[&](){ int f; do f=(int)r.below(NF); while(!have[f]); return f; };
    while((int)c.steps.size()<n){
        XStep s; double u=r.unit(); bool any=have[0]||have[1]||have[2];
        if(!any||u<0.2){ if(r.chance(0.3)){ s.t=X_CONTAINER; s.f=(int)r.below(NF); int k=1+(int)r.below(3); int d=c.mats[r.below(nm)].dim; for(int i=0;i<k;i++){ int q; do q=(int)r.below(nm); while(c.mats[q].dim!=d); s.m.push_back(q); } s.frac=r.next(); have[s.f]=true; } else { s.t=X_WRITE; fileW(s); } }
        else if(u<0.55){ s.t=X_READ; s.f=anyF(); s.api=(int)r.below(4); s.frac=r.next(); if(r.chance(0.2)){ s.df=r.chance(0.6)?DF_READ_SHORT:DF_READ_OPEN; s.at=1; } }
        else if(u<0.68){ s.t=X_REWRITE; s.f=anyF(); s.g=(int)r.below(NF); s.frac=r.next(); if(r.chance(0.15)){ s.df=DF_NOSPACE+(int)r.below(5); s.at=1; } have[s.g]=true; }
        else if(u<0.80){ s.t=X_CRASH; s.f=anyF(); s.kind=(int)r.below(DM_COUNT); s.frac=r.next(); }
        else { s.t=X_DAMAGE; s.f=anyF(); s.kind=r.chance(0.3)?(int)ST_SAME:(int)r.below(ST_COUNT); s.frac=r.next(); }
        c.steps.push_back(s);
        if(s.t>=X_CRASH && r.chance(0.8)){ XStep q; q.t=X_READ; q.f=s.f; q.api=(int)r.below(4); q.frac=r.next(); c.steps.push_back(q); }
    }
    return c;
}
// what a file holds: the material of each entry, and what happened to it
struct FileModel { bool exists; std::vector<int> m; int hurt; bool cont; std::vector<int> patchOf; FileModel():exists(false),hurt(0),cont(false){} };   // hurt: 0 intact, 1 must fail or be identical, 2 only a crash is wrong

// ------------------------------------------------------------------ documents
static std::string slurp(const std::string & f){ int fd=open(f.c_str(),O_RDONLY); std::string s; if(fd<0) return s; char b[4096]; ssize_t n; while((n=syscall(SYS_read,fd,b,sizeof b))>0) s.append(b,n); close(fd); return s; }
static void spit(const std::string & f,const std::string & s){ int fd=open(f.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); size_t o=0; while(o<s.size()){ ssize_t n=syscall(SYS_write,fd,s.data()+o,s.size()-o); if(n<=0) break; o+=n; } close(fd); }
struct Span { size_t a,b; std::string name; };
static std::vector<Span> elements(const std::string & s)     // complete elements below the root, by a small scanner of its own
{
    std::vector<Span> out,stack; size_t i=0;
    while((i=s.find('<',i))!=std::string::npos){
        if(s.compare(i,2,"<?")==0||s.compare(i,2,"<!")==0){ i=s.find('>',i); if(i==std::string::npos) break; continue; }
        size_t e=s.find('>',i); if(e==std::string::npos) break;
        if(s[i+1]=='/'){ if(!stack.empty()){ Span p=stack.back(); stack.pop_back(); p.b=e+1; if(!stack.empty()) out.push_back(p); } }
        else { size_t q=i+1; while(q<e&&!isspace((unsigned char)s[q])&&s[q]!='/') q++; Span p; p.a=i; p.b=e+1; p.name=s.substr(i+1,q-i-1); if(s[e-1]=='/'){ if(!stack.empty()) out.push_back(p); } else stack.push_back(p); }
        i=e+1;
    }
    return out;
}
static std::vector<Span> attributes(const std::string & s)
{
    std::vector<Span> out; for(auto & e:elements(s)){ size_t end=s.find('>',e.a); size_t i=e.a+1+e.name.size(); while(i<end){ size_t q=s.find('=',i); if(q==std::string::npos||q>=end) break; size_t o=s.find('"',q); size_t c=o==std::string::npos?o:s.find('"',o+1); if(c==std::string::npos||c>end) break; size_t n=q; while(n>i&&!isspace((unsigned char)s[n-1])) n--; Span a; a.a=n; a.b=c+1; a.name=e.name+"."+s.substr(n,q-n); out.push_back(a); i=c+1; } }
    return out;
}
// returns how much the model may still expect: 0 nothing changed, 1 fail-or-identical, 2 no crash
static int damageDoc(std::string & s,int kind,uint64_t frac,bool og)
{
    if(kind==ST_SAME){     // another order of indexed entries, another spelling of a flag, comments: the document means the same
        std::vector<Span> e; for(auto&x:elements(s)) if(x.name=="Function"||x.name=="group"||(x.name=="MaterialMatrix"&&s.compare(x.a,22,"<MaterialMatrix index=")==0)) e.push_back(x);
        size_t t=s.find("TFT=\"true\""); if(t!=std::string::npos && frac%3==0){ s.replace(t,10,(frac/3)%2?"TFT=\"1\"":"TFT=\"True\""); return -1; }
        std::vector<std::pair<Span,Span> > pr; for(size_t i=0;i<e.size();i++) for(size_t j=0;j<e.size();j++) if(e[i].name==e[j].name && e[i].b<=e[j].a){ std::string mid=s.substr(e[i].b,e[j].a-e[i].b); if(mid.find("</Par")==std::string::npos&&mid.find("</Den")==std::string::npos&&mid.find("</Thi")==std::string::npos&&mid.find("</MaterialMatrixC")==std::string::npos) pr.push_back(std::make_pair(e[i],e[j])); }
        if(!pr.empty() && frac%3!=2){ auto & q=pr[(frac/7)%pr.size()]; s=s.substr(0,q.first.a)+s.substr(q.second.a,q.second.b-q.second.a)+s.substr(q.first.b,q.second.a-q.first.b)+s.substr(q.first.a,q.first.b-q.first.a)+s.substr(q.second.b); return -1; }
        auto all=elements(s); if(all.empty()) return 0; s.insert(all[(frac/5)%all.size()].b,"\n <!-- <Thickness/> a remark -->\n"); return -1;
    }
    if(kind==ST_ELEMENT||kind==ST_EMPTY){
        std::vector<Span> e; for(auto&x:elements(s)) if(x.name!="c" && (kind==ST_ELEMENT || x.name=="Function" || x.name=="group")) e.push_back(x); if(e.empty()) return 0; const Span & x=e[frac%e.size()];
        int h=1; if(x.name=="Density"||x.name=="MaterialMatrix"||x.name=="group"||x.name=="MaterialMatrixContainer") h=2; 
        if(x.name=="Function"){ size_t p=s.rfind("<Parameters",x.a); if(p!=std::string::npos && s.find("</Parameters>",p)>x.a && og) h=2; size_t d=s.rfind("<Density",x.a); if(kind==ST_EMPTY && d!=std::string::npos && s.find("</Density>",d)>x.a) h=2; }
        if(kind==ST_ELEMENT) s.erase(x.a,x.b-x.a); else { size_t o=s.find('>',x.a)+1,c=s.rfind("</",x.b-1); if(o==std::string::npos||c==std::string::npos||c<o) return 0; s.erase(o,c-o); }
        return h;
    }
    std::vector<Span> a; for(auto&x:attributes(s)){ bool idx=x.name=="Function.index"||x.name=="MaterialMatrix.index"||x.name=="group.material"||x.name=="MaterialMatrixContainer.size"; bool ty=x.name=="MaterialMatrix.type"||x.name=="Function.type";
        if(kind==ST_INDEX?idx:kind==ST_TYPE?ty:true) a.push_back(x); }
    if(a.empty()) return 0; const Span & x=a[frac%a.size()]; std::string n=x.name.substr(x.name.find('.')+1); uint64_t v=frac/977;
    if(kind==ST_ATTR){ int h=(n=="TFT"||n=="id"||n=="label"||n=="dim")?2:1; s.erase(x.a,x.b-x.a); return h; }
    if(kind==ST_TYPE){ s.replace(x.a,x.b-x.a,"type=\"Unknown\""); return 1; }
    // the index of a function outside the parameters is not looked at
    static const char*bad[]={"-1","-7","99","100000000","2147483647","x"}; 
    { size_t p=s.rfind("<Parameters",x.a); bool inPar=p!=std::string::npos && s.find("</Parameters>",p)>x.a; if(x.name=="Function.index" && !inPar){ s.replace(x.a,x.b-x.a,n+"=\""+bad[v%6]+"\""); return 1; } }
    s.replace(x.a,x.b-x.a,n+"=\""+bad[v%6]+"\""); return (og && x.name=="Function.index")||v%6==5?2:1;
}
static bool parses(const std::string & s)      // whether the core's parser accepts the document (it is not under test)
{
    std::vector<char> b(s.begin(),s.end()); b.push_back(0);
    try { internal::gsXmlTree t; t.parse<0>(&b[0],true); return t.first_node() && t.last_node("xml")!=nullptr; } catch(...) { return false; }
}

// ------------------------------------------------------------------ execution
struct ROut { bool done,failed,silent; std::string why; std::vector<Outcome> o; std::vector<int> m; ROut():done(false),failed(false),silent(false){} };
struct Exec { const XCase & c; std::string dir; Geo g2,g3; FileModel F[NF]; long fired[DF_COUNT],dmg[DM_COUNT],strc[ST_COUNT];
    Exec(const XCase & k,const std::string & d):c(k),dir(d){ g2=geo(2); g3=geo(3); memset(fired,0,sizeof fired); memset(dmg,0,sizeof dmg); memset(strc,0,sizeof strc); }
    Geo & G(const MSpec & m){ return m.dim==2?g2:g3; }
    std::string name(int f,bool gz=false) const { std::ostringstream o; o<<dir<<"/f"<<f<<".xml"<<(gz?".gz":""); return o.str(); }
    bool isGz[NF]={false,false,false};
    std::string path(int f) const { return name(f,isGz[f]); }
    void arm(const XStep & s){ memset(&g_disk,0,sizeof g_disk); g_disk.kind=s.df; g_disk.at=s.at; g_disk.on=true; }
    void disarm(const XStep & s){ fired[s.df]+=g_disk.fired>0; g_disk.on=false; }
    bool readable(int f){ if(!isGz[f]) return parses(slurp(path(f))); gzFile z=gzopen(path(f).c_str(),"rb"); if(!z) return false; std::string t; char b[4096]; int n; while((n=gzread(z,b,sizeof b))>0) t.append(b,n); gzclose(z); return n==0 && parses(t); }
    void save(int f,const std::vector<int> & ms,const std::vector<Material_t*> & objs,bool gz,const XStep & s,int inherit)
    {
        gsFileData<real_t> fd; for(size_t i=0;i<objs.size();i++) fd.add(*objs[i],(index_t)(10+i));
        isGz[f]=gz; F[f].exists=true; F[f].cont=false; F[f].m=ms; F[f].hurt=inherit;
        arm(s); try { fd.save(name(f),gz); } catch(...) {} disarm(s);
        if(g_disk.fired) F[f].hurt=std::max(F[f].hurt,1);
        if(g_disk.fired && s.df==DF_OPEN) F[f].hurt=2;           // the file keeps whatever it held
    }
    ROut read(const XStep & s,std::vector<Material_t::uPtr> * keep)
    {
        ROut R; R.done=true; FileModel & m=F[s.f]; if(!m.exists){ R.done=false; return R; }
        bool ok=readable(s.f); if(!ok && !s.df){ R.failed=true; R.why="not well-formed"; if(m.hurt==0) R.why="an intact document is not well-formed"; return R; }
        if(!ok){ R.failed=true; R.why="not well-formed"; return R; }
        arm(s);
        try {
            std::unique_ptr<gsFileData<real_t> > fd; 
            { struct D { const XStep&s; Exec&e; ~D(){ e.disarm(s); } } d={s,*this}; fd.reset(new gsFileData<real_t>()); if(!fd->read(path(s.f))){ R.failed=true; R.why="read reports failure"; return R; } }
            if(m.cont){
                gsMaterialMatrixContainer<real_t> C; bool got; if(s.api&1){ got=fd->getFirst(C); } else { auto p=fd->getFirst<gsMaterialMatrixContainer<real_t> >(); got=(bool)p; if(got) C=*p; }
                if(!got){ R.failed=true; R.why="nothing found"; return R; }
                if((size_t)C.size()!=m.patchOf.size()){ R.silent=true; R.why="the container has another size"; return R; }
                for(size_t p=0;p<m.patchOf.size();p++){ const MSpec & sp=c.mats[m.patchOf[p]]; Material_t*x=C.piece(p); if(!x) throw std::runtime_error("no material"); Outcome o; observe(*x,sp,G(sp),(int)p,o,true); R.o.push_back(o); R.m.push_back(m.patchOf[p]); }
                return R;
            }
            std::vector<Material_t::uPtr> own; std::vector<int> which;
            if(s.api==0||s.api==2){ own.push_back(s.api==0?fd->getFirst<Material_t>():fd->getAnyFirst<Material_t>()); which.push_back(0); }
            else if(s.api==1){ int k=(int)(s.frac%m.m.size()); own.push_back(fd->getId<Material_t>(10+k)); which.push_back(k); }
            else { int n=fd->count<Material_t>(); (void)n; for(size_t k=0;k<m.m.size();k++){ own.push_back(fd->getId<Material_t>(10+k)); which.push_back((int)k); } }
            for(size_t k=0;k<own.size();k++){ if(!own[k]){ R.failed=true; R.why="nothing found"; return R; } const MSpec & sp=c.mats[m.m[which[k]]]; Outcome o; observe(*own[k],sp,G(sp),(int)(s.frac%4),o,true); R.o.push_back(o); R.m.push_back(m.m[which[k]]); }
            if(keep) *keep=give(own);
        }
        catch(const std::exception & e){ R.failed=true; R.why=e.what(); }
        catch(...){ R.failed=true; R.why="exception"; }
        g_disk.on=false; if(R.failed){ R.o.clear(); R.m.clear(); } return R;
    }
    ROut run(const XStep & s)
    {
        ROut R; 
        switch(s.t){
        case X_WRITE: { std::vector<Material_t::uPtr> own; std::vector<Material_t*> o; for(int i:s.m){ own.push_back(make(c.mats[i],G(c.mats[i]).mp)); o.push_back(own.back().get()); } save(s.f,s.m,o,s.gz,s,0); } break;
        case X_READ: return read(s,nullptr);
        case X_REWRITE: { if(!F[s.f].exists||F[s.f].cont) break; XStep q=s; q.df=0; q.api=3; std::vector<Material_t::uPtr> own; R=read(q,&own); if(R.failed||own.empty()) return R; std::vector<Material_t*> o; for(auto&x:own) o.push_back(x.get()); save(s.g,F[s.f].m,o,false,s,F[s.f].hurt); return R; }
        case X_CRASH: { FileModel & m=F[s.f]; if(!m.exists) break; std::string t=slurp(path(s.f)); size_t n=t.size(); if(!n) break; size_t sec=n>1500?512:64,k=(s.frac/7)%(n/sec+1)*sec;
            switch(s.kind){ case DM_TRUNC: t.resize(s.frac%n); break; case DM_ZERO: for(size_t i=k;i<std::min(n,k+sec);i++) t[i]=0; break; case DM_TAIL: t+=t.substr(s.frac%n); break; case DM_CUT: t.erase(std::min(n-1,k),sec); break; }
            spit(path(s.f),t); dmg[s.kind]++; m.hurt=std::max(m.hurt,s.kind==DM_TRUNC||s.kind==DM_ZERO?1:2); if(isGz[s.f]&&s.kind!=DM_TRUNC) m.hurt=2; } break;
        case X_DAMAGE: { FileModel & m=F[s.f]; if(!m.exists||isGz[s.f]) break; std::string t=slurp(path(s.f)); bool og=false; for(int i:m.m) og|=c.mats[i].law>=6; int h=damageDoc(t,s.kind,s.frac,og); if(h){ spit(path(s.f),t); strc[s.kind]++; m.hurt=std::max(m.hurt,std::max(h,0)); } } break;
        case X_CONTAINER: { // written by hand, as users do: the module does not write containers
            std::vector<Material_t::uPtr> own; gsFileData<real_t> fd; for(int i:s.m){ own.push_back(make(c.mats[i],G(c.mats[i]).mp)); fd.add(*own.back()); }
            fd.save(name(s.f)); std::string t=slurp(name(s.f)); std::vector<std::string> el; for(auto&x:elements(t)) if(x.name=="MaterialMatrix") el.push_back(t.substr(x.a,x.b-x.a));
            if(el.size()!=s.m.size()) break;
            FileModel & m=F[s.f]; isGz[s.f]=false; m=FileModel(); m.exists=true; m.cont=true; m.m=s.m; int np=1+(int)(s.frac%4); std::vector<int> pick; for(int p=0;p<np;p++) pick.push_back((int)((s.frac>>(8+4*p))%el.size()));
            std::ostringstream o; o<<"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n<MaterialMatrixContainer size=\""<<np<<"\" id=\"3\">\n"; 
            std::vector<size_t> order; for(size_t i=0;i<el.size();i++) order.push_back(i); if(s.frac&64) std::reverse(order.begin(),order.end());
            for(size_t i:order){ std::string e=el[i]; std::ostringstream a; a<<"<MaterialMatrix index=\""<<i<<"\""; size_t q=e.find(" id=\""); if(q!=std::string::npos&&q<e.find('>')) e.erase(q,e.find('"',q+5)+1-q); o<<a.str()<<e.substr(15)<<"\n"; }
            for(size_t i=0;i<el.size();i++){ std::ostringstream ps; for(int p=0;p<np;p++) if(pick[p]==(int)i) ps<<" "<<p; if(!ps.str().empty()) o<<"<group material=\""<<i<<"\">"<<ps.str()<<"</group>\n"; }
            o<<"</MaterialMatrixContainer>\n</xml>\n"; spit(name(s.f),o.str()); for(int p=0;p<np;p++) m.patchOf.push_back(s.m[pick[p]]); } break;
        }
        return R;
    }
};

// ------------------------------------------------------------------ processes, verdict
static double nowX(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
struct XB { std::string s; size_t p; XB():p(0){} template<class X> void put(const X&x){ s.append((const char*)&x,sizeof x);} template<class X> X get(){ X x; memset((void*)&x,0,sizeof x); if(p+sizeof x<=s.size()) memcpy((void*)&x,&s[p],sizeof x); p+=sizeof x; return x; }
    void puts(const std::string&t){ put((uint64_t)t.size()); s+=t; } std::string gets(){ uint64_t n=get<uint64_t>(); if(p+n>s.size()){ p=s.size()+1; return ""; } std::string t=s.substr(p,n); p+=n; return t; }
    void puto(const Outcome&o){ put((uint64_t)o.sz.size()); for(long x:o.sz) put(x); put((uint64_t)o.v.size()); for(double x:o.v) put(x); }
    Outcome geto(){ Outcome o; uint64_t n=get<uint64_t>(); for(uint64_t i=0;i<n&&p<=s.size();i++) o.sz.push_back(get<long>()); n=get<uint64_t>(); for(uint64_t i=0;i<n&&p<=s.size();i++) o.v.push_back(get<double>()); return o; } };
template<class F> static std::string childX(F f,XB & b)
{
    int p[2]; if(pipe(p)) exit(2); int ef=memfd_create("err",0); fflush(stdout); pid_t pid=fork();
    if(pid==0){ close(p[0]); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(ef,2); rlimit rl; rl.rlim_cur=120; rl.rlim_max=125; setrlimit(RLIMIT_CPU,&rl); XB o; f(o); size_t q=0; while(q<o.s.size()){ ssize_t n=syscall(SYS_write,p[1],o.s.data()+q,o.s.size()-q); if(n<=0) break; q+=n; } _exit(0); }
    close(p[1]); char tmp[65536]; double t0=nowX(); bool late=false; for(;;){ pollfd g={p[0],POLLIN,0}; int r=poll(&g,1,500); if(r>0){ ssize_t n=syscall(SYS_read,p[0],tmp,sizeof tmp); if(n<=0) break; b.s.append(tmp,n);} else if(nowX()-t0>480){ late=true; kill(pid,SIGKILL); break; } }
    close(p[0]); int st=0; waitpid(pid,&st,0); std::string err; { off_t n=lseek(ef,0,SEEK_END); off_t m=std::min<off_t>(n,20000); err.resize(m>0?m:0); if(m>0){ ssize_t q=pread(ef,&err[0],m,n-m); (void)q; } close(ef); }
    if(late) return "undecided"; std::ostringstream o; if(WIFSIGNALED(st)) o<<"signal "<<WTERMSIG(st); else if(WEXITSTATUS(st)) o<<"exit "<<WEXITSTATUS(st); else return "";
    size_t q=err.find("ERROR: AddressSanitizer"); std::string w; if(q!=std::string::npos){ size_t e=err.find(" on ",q); w=err.substr(q+7,std::min<size_t>(80,(e==std::string::npos?err.size():e)-q-7)); size_t k=q; for(int i=0;i<12;i++){ k=err.find(" in ",k+1); if(k==std::string::npos) break; std::string fr=err.substr(k+4,err.find('\n',k)-k-4); if(fr.find("gsKLShell")!=std::string::npos||fr.find("/repo/")!=std::string::npos){ w+=" in "+fr.substr(0,200); break; } } } else { size_t e=err.find_last_not_of("\n "); if(e!=std::string::npos){ err.resize(e+1); e=err.rfind('\n'); w=(e==std::string::npos?err:err.substr(e+1)).substr(0,200); } }
    for(size_t i=0;(i=w.find("0x",i))!=std::string::npos;){ size_t e=i+2; while(e<w.size()&&isxdigit((unsigned char)w[e])) e++; w.replace(i,e-i,"0x?"); i+=3; }
    return o.str()+" ("+w+")";
}
struct XVerdict { std::string what; int step; bool skip; std::string skipWhy; long reads,same,failed,compared; std::map<std::string,long> faults; uint64_t oh; long fired; XVerdict():step(-1),skip(false),reads(0),same(0),failed(0),compared(0),oh(0xcbf29ce484222325ull),fired(0){} };
static std::map<std::string,std::pair<std::string,Outcome> > g_xref;
static const std::pair<std::string,Outcome> & refX(const MSpec & m,int patch)
{
    std::ostringstream k; k<<m.text()<<"|"<<m.dim<<"|"<<patch; auto it=g_xref.find(k.str()); if(it!=g_xref.end()) return it->second;
    XB b; std::string e=childX([&](XB & o){ Geo g=geo(m.dim); Material_t::uPtr x=make(m,g.mp); Outcome r; try { observe(*x,m,g,patch,r,true); o.put((int)1); } catch(const std::exception & ex){ o.put((int)0); fprintf(stderr,"%s\n",ex.what()); } o.puto(r); },b);
    int ok=b.get<int>(); Outcome r=b.geto(); if(e.empty()&&!ok) e="the original cannot be evaluated"; return g_xref[k.str()]=std::make_pair(e,r);
}
static bool hasNaN(const Outcome & o){ for(double x:o.v) if(x!=x) return true; return false; }
static XVerdict judgeX(const XCase & c)
{
    XVerdict v; XB b; char dir[]="/tmp/simx.XXXXXX"; if(!mkdtemp(dir)){ v.skip=true; return v; }
    // the originals must be usable at all
    for(auto & m:c.mats) for(int p=0;p<1;p++){ auto & r=refX(m,p); if(!r.first.empty()){ v.skip=true; v.skipWhy=m.text()+": "+r.first; rmdir(dir); return v; } }
    int * at=(int*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *at=-1;
    std::string e=childX([&](XB & o){ Exec x(c,dir); 
        for(size_t i=0;i<c.steps.size();i++) if(!c.dropped.count((int)i)){ *at=(int)i; ROut R=x.run(c.steps[i]); int hurt=c.steps[i].f<NF?x.F[c.steps[i].f].hurt:0; o.put((int)i); o.put(R.done); o.put(R.failed); o.put(R.silent); o.puts(R.why); o.put(hurt); o.put((int)(x.F[c.steps[i].f].cont)); o.put((long)g_disk.fired); o.put((uint64_t)R.o.size()); for(size_t q=0;q<R.o.size();q++){ o.put(R.m[q]); o.puto(R.o[q]); } }
        o.put((int)-1); for(int q=0;q<DF_COUNT;q++) o.put(x.fired[q]); for(int q=0;q<DM_COUNT;q++) o.put(x.dmg[q]); for(int q=0;q<ST_COUNT;q++) o.put(x.strc[q]); o.put((uint32_t)0xFEEDFACE); },b);
    int last=*at; munmap(at,4096);
    for(int f=0;f<NF;f++){ std::ostringstream a,g; a<<dir<<"/f"<<f<<".xml"; g<<a.str()<<".gz"; unlink(a.str().c_str()); unlink(g.str().c_str()); } rmdir(dir);
    if(e.compare(0,9,"undecided")==0){ v.skip=true; v.skipWhy=e; return v; }
    if(!e.empty()){ std::ostringstream o; o<<"step "<<last; if(last>=0) o<<" "<<c.steps[last].text(); o<<": the process ended with "<<e; v.what=o.str(); v.step=last; return v; }
    for(;;){
        int i=b.get<int>(); if(i<0||b.p>b.s.size()) break; bool done=b.get<bool>(),failed=b.get<bool>(),silent=b.get<bool>(); std::string why=b.gets(); int hurt=b.get<int>(); int cont=b.get<int>(); long fired=b.get<long>(); uint64_t n=b.get<uint64_t>(); std::vector<std::pair<int,Outcome> > os; for(uint64_t q=0;q<n;q++){ int m=b.get<int>(); os.push_back(std::make_pair(m,b.geto())); }
        const XStep & s=c.steps[i]; std::string bad; if(!done) continue; v.reads++; v.fired+=fired>0;
        { std::string sig=why.substr(0,3); for(auto&x:os) for(double y:x.second.v) sig.append((const char*)&y,8); for(char ch:sig){ v.oh^=(unsigned char)ch; v.oh*=0x100000001B3ull; } v.oh^=failed; }
        bool readFault=s.t==X_READ&&fired>0&&s.df!=DF_READ_SHORT;
        if(failed){ v.failed++; if(hurt==0 && !readFault) bad="an intact file is not read: "+why; }
        else if(silent && hurt<2) bad="silently different: "+why;
        else { v.same++; if(hurt<2) for(size_t q=0;q<os.size()&&bad.empty();q++){ const MSpec & m=c.mats[os[q].first]; auto & r=refX(m,cont?(int)q:(int)(s.frac%4)); if(!r.first.empty()) continue; v.compared++; std::string d=diff(r.second,os[q].second,1e-10); if(!d.empty() && hurt==1 && hasNaN(os[q].second) && !hasNaN(r.second)) d.clear();   // an unreadable expression evaluates to NaN: visibly unusable
            if(!d.empty()) bad="material "+m.text()+" reads back different: "+d; } }
        if(!bad.empty()){ std::ostringstream o; o<<"step "<<i<<" "<<s.text()<<": "<<bad; v.what=o.str(); v.step=i; return v; }
    }
    for(int q=0;q<DF_COUNT;q++){ long n=b.get<long>(); if(n) v.faults[dfName[q]]=n; v.fired+=n; } for(int q=0;q<DM_COUNT;q++){ long n=b.get<long>(); if(n) v.faults[std::string("crash: ")+dmName[q]]=n; v.fired+=n; } for(int q=0;q<ST_COUNT;q++){ long n=b.get<long>(); if(n) v.faults[std::string("document: ")+stName[q]]=n; v.fired+=n; }
    if(b.get<uint32_t>()!=0xFEEDFACE){ v.skip=true; v.skipWhy="no result"; }
    return v;
}
static void writeX(const std::string & f,const XCase & c,const std::string & what)
{
    std::ofstream o(f.c_str()); o<<"property "<<c.prop<<"\ncase "<<c.seed<<"\nproblem "<<c.text()<<"\nwhat "<<what<<"\ndropped"; for(int d:c.dropped) o<<' '<<d; o<<"\nhistory\n"; for(size_t i=0;i<c.steps.size();i++) if(!c.dropped.count((int)i)) o<<"  "<<i<<" "<<c.steps[i].text()<<"\n"; o<<"end\n";
}
static bool readX(const std::string & f,XCase & c,std::string & what)
{
    std::ifstream i(f.c_str()); if(!i) return false; std::string l,prop; uint64_t seed=0; std::set<int> dr;
    while(std::getline(i,l)){ std::istringstream s(l); std::string k; s>>k; if(k=="property") s>>prop; else if(k=="case") s>>seed; else if(k=="what") what=l.substr(5); else if(k=="dropped"){ int d; while(s>>d) dr.insert(d); } }
    c=genX(prop,seed); c.dropped=dr; return true;
}
static std::string esc(const std::string & s){ std::string o; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; o+=c; } return o; }
bool isX(int argc,char**argv)
{
    if(argc>2 && std::string(argv[1])=="search") return std::string(argv[2])=="X01";
    if(argc>2){ std::ifstream i(argv[2]); std::string a,b; i>>a>>b; return a=="property"&&b=="X01"; } return false;
}
int xmlMain(int argc,char**argv)
{
    std::string mode=argv[1];
    if(mode=="replay"){ XCase c; std::string w; if(!readX(argv[2],c,w)) return 2; XVerdict v=judgeX(c); if(v.what.empty()){ printf("NOVIOLATION %s\n",v.skip?v.skipWhy.c_str():""); return 0; } printf("VIOLATED %s\n",v.what.c_str()); return 1; }
    if(mode=="run"){ XCase c; std::string w; if(!readX(argv[2],c,w)) return 2; char dir[]="/tmp/simx.XXXXXX"; if(!mkdtemp(dir)) return 2; Exec x(c,dir); for(size_t i=0;i<c.steps.size();i++) if(!c.dropped.count((int)i)){ fprintf(stderr,"STEP %zu %s\n",i,c.steps[i].text().c_str()); ROut R=x.run(c.steps[i]); fprintf(stderr,"  -> done %d failed %d %s results %zu hurt %d\n%s\n",R.done,R.failed,R.why.c_str(),R.o.size(),x.F[c.steps[i].f].hurt,x.isGz[c.steps[i].f]?"":slurp(x.path(c.steps[i].f)).c_str()); } for(int f=0;f<NF;f++){ unlink(x.name(f).c_str()); unlink(x.name(f,true).c_str()); } rmdir(dir); return 0; }
    if(mode=="min"){ XCase c; std::string what; if(argc<5||!readX(argv[2],c,what)) return 2; double t0=nowX(),bud=atof(argv[4]); int trials=0; size_t before=c.steps.size()-c.dropped.size(); XVerdict v0=judgeX(c); if(v0.step>=0) for(size_t i=v0.step+1;i<c.steps.size();i++) c.dropped.insert((int)i); if(!v0.what.empty()) what=v0.what;
        for(int i=(int)c.steps.size()-1;i>=0&&nowX()-t0<bud;i--) if(!c.dropped.count(i)){ XCase t=c; t.dropped.insert(i); if(t.dropped.size()>=t.steps.size()) continue; trials++; XVerdict v=judgeX(t); if(!v.what.empty()){ c=t; what=v.what; } }
        writeX(argv[3],c,what); printf("MIN %zu %zu %d\n",before,c.steps.size()-c.dropped.size(),trials); return 0; }
    std::string prop=argv[2]; uint64_t s0=strtoull(argv[3],0,10),str=strtoull(argv[4],0,10); int n=atoi(argv[5]); double secs=atof(argv[6]); std::string out=argv[7]; double t0=nowX();
    for(int i=0;i<n && nowX()-t0<secs;i++){
        uint64_t seed=s0+i*str; double t1=nowX(); g_xref.clear(); XCase c=genX(prop,seed); XVerdict v=judgeX(c); uint64_t h=0xcbf29ce484222325ull; std::string sig=c.text(); for(auto&s:c.steps) sig+=s.text(); for(char ch:sig){ h^=(unsigned char)ch; h*=0x100000001B3ull; }
        std::ostringstream js; js<<"{\"case\":"<<seed<<",\"text\":\""<<esc(c.text())<<"\",\"steps\":"<<c.steps.size()<<",\"checked\":"<<v.reads<<",\"compared\":"<<v.compared<<",\"fired\":"<<v.fired<<",\"refs\":"<<g_xref.size()<<",\"rejected\":"<<v.failed<<",\"dt\":"<<nowX()-t1<<",\"faults\":{"; bool f=false; for(auto&q:v.faults){ js<<(f?",":"")<<"\""<<q.first<<"\":"<<q.second; f=true; }
        js<<"},\"h\":\""<<std::hex<<h<<"\",\"oh\":\""<<v.oh<<std::dec<<"\",\"hist\":["; for(size_t q=0;q<c.steps.size()&&q<8;q++) js<<(q?",":"")<<"\""<<esc(c.steps[q].text())<<"\""; js<<"]"; if(v.skip) js<<",\"skip\":1"; js<<"}"; printf("%s\n",js.str().c_str()); if(v.skip) fprintf(stderr,"SKIP %llu %s\n",(unsigned long long)seed,v.skipWhy.c_str());
        if(!v.what.empty()){ std::ostringstream fn; fn<<out<<"/"<<prop<<"-"<<seed<<".replay"; writeX(fn.str(),c,v.what); XVerdict v2=judgeX(c); printf("FAIL %s same=%d %s\n",fn.str().c_str(),(int)(v2.what==v.what),v.what.c_str()); fflush(stdout); return 1; }
        fflush(stdout);
    }
    return 0;
}
