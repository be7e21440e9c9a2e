#include "scen.h"
#include <cstring>
#include <sstream>
#include <cmath>
using sim::Rng;

const char * seamName[S_COUNT]={"force","thickness","density","parameter","pressure","foundation","boundary","goal"};
FaultPlan g_fault; bool g_faultsOn=false;
void FaultPlan::clear(){ for(int i=0;i<S_COUNT;i++) calls[i]=failAt[i]=fired[i]=0; mode=0; }

UFun::UFun(short_t dd, const std::vector<double> & base, double amp, int seam, uint64_t seed)
: m_dd(dd), m_td(base.size()), m_seam(seam), m_amp(amp), m_base(base)
{ Rng r(seed); for(size_t i=0;i<base.size()*dd;i++) m_dir.push_back(r.range(-1,1)); }

void UFun::eval_into(const gsMatrix<real_t> & u, gsMatrix<real_t> & result) const
{
    if (g_faultsOn) {
        long n=++g_fault.calls[m_seam];
        if (g_fault.failAt[m_seam]==n) {
            g_fault.fired[m_seam]++;
            if (g_fault.mode==1) throw 42;
            if (g_fault.mode==2) throw std::bad_alloc();
            throw std::runtime_error("injected fault");
        }
    }
    result.resize(m_td,u.cols());
    for (index_t k=0;k<u.cols();k++)
        for (int i=0;i<m_td;i++) {
            double a=0; for (int j=0;j<m_dd && j<u.rows();j++) a+=m_dir[i*m_dd+j]*u(j,k);
            result(i,k)=m_base[i]*(1.0+m_amp*std::sin(a+0.3*i));
        }
}
std::string UFun::fingerprint() const { std::ostringstream o; o.precision(17); o<<m_dd<<','<<m_td<<','<<m_seam<<','<<m_amp; for(double x:m_base) o<<','<<x; for(double x:m_dir) o<<','<<x; return o.str(); }

static const char * kindName[]={"bending","membrane","planar"};
static const char * matName[]={"SvK","NH","NHext","MR","OG","Composite"};
std::string Spec::text() const
{
    std::ostringstream o; o<<kindName[kind]<<" patches="<<npatch<<" deg="<<deg<<" elems="<<ex<<(npatch>1&&exOdd!=ex?"/"+std::to_string(exOdd):std::string())<<"x"<<ey<<(curved?" curved":" flat")<<" mat="<<matName[mat]<<(mat&&mat<5?(comp?"/comp":"/incomp"):"")<<"/impl"<<impl<<(tft?"/TFT":"")
     <<" ngauss="<<ngauss<<(container?" container":" single")<<(parforce?" parforce":"")<<(pressure?" pressure":"")<<(foundation?" foundation":"")<<(ploads?physLoads?" ploads(physical)":" ploads":"")<<" bc="<<bcset<<" coupling="<<coupling;
    return o.str();
}
Spec makeSpec(uint64_t seed, const SpecOpts & o)
{
    Rng r(seed*7919+17); Spec s; s.seed=seed;
    s.kind = (int)r.below(10); s.kind = s.kind<5?BENDING:(s.kind<8?MEMBRANE:PLANAR);
    if (o.kind>=0) s.kind=o.kind;
    s.npatch = r.chance(0.5)?1:2+(int)r.below(2); s.npatch=std::min(s.npatch,o.maxPatch);
    s.deg = (s.kind==BENDING)?2+(int)r.chance(0.25):1+(int)r.below(2); s.deg=std::max(1,std::min(s.deg,o.maxDeg));
    s.ex=1+(int)r.below(o.maxElem); s.ey=1+(int)r.below(o.maxElem);
    if (s.ex*s.ey<2) s.ex=2;
    if (s.deg==1) { s.ex=std::max(s.ex,2); s.ey=std::max(s.ey,2); }      // a problem without degrees of freedom is none
    if (s.npatch>1 && s.ex*s.ey>4) { s.ex=2; s.ey=2; }
    s.exOdd=s.ex; if (s.npatch>1 && r.chance(0.6)) s.exOdd=(s.ex>=2 && s.deg>1 && r.chance(0.5))?1:s.ex+1;
    s.curved = s.kind!=PLANAR && r.chance(0.6);
    int m=(int)r.below(12);
    s.mat = m<3?M_SVK:m<5?M_NH:m<6?M_NHE:m<8?M_MR:m<10?M_OG:M_COMPOSITE;
    if (o.mat>=0) s.mat=o.mat;
    s.impl=1+(int)r.below(3); s.comp=r.chance(0.5);
    if (s.mat==M_SVK || s.mat==M_COMPOSITE) { s.impl=1; s.comp=true; }
    if (s.mat==M_NHE) s.comp=true;
    if (s.mat==M_OG) s.impl=3;
    s.tft = !o.noTft && s.kind!=BENDING && s.mat!=M_COMPOSITE && r.chance(0.3);
    s.ngauss=1+(int)r.below(3);
    s.container=r.chance(0.5);
    s.parforce=r.chance(0.3); s.pressure=r.chance(0.4); s.foundation=r.chance(0.3); s.ploads=r.chance(0.4);
    s.bcset=(int)r.below(6);
    s.coupling = s.npatch>1?(int)r.below(4):0;
    s.stretch=r.range(0.02,0.08);
    s.physLoads=s.ploads && r.chance(0.3);
    s.matAlt = s.mat;
    if (s.container && r.chance(0.5) && s.comp) s.matAlt=M_SVK;
    if (s.mat==M_COMPOSITE) s.matAlt=M_COMPOSITE;
    return s;
}

static void perturb(gsMultiPatch<real_t> & g, int d, double a, double b, double c, double w)
{
    for (size_t p=0;p<g.nPatches();p++) {
        gsMatrix<real_t> & C=g.patch(p).coefs();
        for (index_t i=0;i<C.rows();i++) {
            double x=C(i,0),y=C(i,1);
            C(i,0)=x*(1+a)+0.3*c*x*y; C(i,1)=y*(1+b)+0.2*c*x*x;
            if (d==3) C(i,2)+=w*(x*(1-0.3*x)+0.7*y*y-0.4*x*y);
        }
    }
}

Scen::Scen(const Spec & spec) : s(spec), d(spec.kind==PLANAR?2:3)
{
    Rng r(s.seed*104729+5);
    // geometry: row of patches, slightly distorted so that no two patches agree
    for (int p=0;p<s.npatch;p++) {
        gsTensorBSpline<2,real_t>::uPtr sq=gsNurbsCreator<real_t>::BSplineSquareDeg(s.deg);
        gsMatrix<real_t> & C=sq->coefs();
        for (index_t i=0;i<C.rows();i++) C(i,0)+=p;
        mp.addPatch(memory::unique_ptr<gsGeometry<real_t> >(sq.release()));
    }
    mp.computeTopology(); 
    for (size_t p=0;p<mp.nPatches();p++) {
        const int ex=p%2?s.exOdd:s.ex; for (int k=1;k<ex;k++) static_cast<gsTensorBSpline<2,real_t>&>(mp.patch(p)).insertKnot((real_t)k/ex,0);
        for (int k=1;k<s.ey;k++) static_cast<gsTensorBSpline<2,real_t>&>(mp.patch(p)).insertKnot((real_t)k/s.ey,1);
    }
    double sk=r.range(0.02,0.1);
    for (size_t p=0;p<mp.nPatches();p++) { gsMatrix<real_t> & C=mp.patch(p).coefs(); for(index_t i=0;i<C.rows();i++){ double x=C(i,0),y=C(i,1); C(i,0)=x+sk*y*y; C(i,1)=y*(1+sk*x*0.5); } }
    if (d==3) mp.embed(3);
    if (s.curved) perturb(mp,d,0,0,0,r.range(0.1,0.25));
    mp.computeTopology();
    mpAlt=mp; perturb(mpAlt,d,0.11,-0.07,0.02,s.curved?0.05:0.0);
    mb=gsMultiBasis<real_t>(mp);
    mbAlt=mb;                       // same space, one more element in each direction
    mbAlt.uniformRefine();
    for (int k=0;k<3;k++) {
        def[k]=mp;
        double a=s.stretch*(1+0.5*k), b=(s.tft?-0.6:0.3)*s.stretch*(1+0.3*k);
        if (k==2) std::swap(a,b);
        perturb(def[k],d,a,b,0.02*(k+1),d==3?0.05*(k+1):0);
    }
    short_t pd=d;
    double t0=r.range(0.02,0.08);
    thick.reset(new UFun(pd,{t0},0.15,S_THICK,s.seed+1)); thick2.reset(new UFun(pd,{t0*1.7},0.15,S_THICK,s.seed+101));
    rho.reset(new UFun(pd,{r.range(0.5,2)},0.2,S_RHO,s.seed+2));
    bool incomp=(s.mat>=M_NH&&s.mat<=M_OG&&!s.comp);
    E.reset(new UFun(pd,{r.range(1,3)},0.2,S_PAR,s.seed+3)); E2.reset(new UFun(pd,{r.range(4,6)},0.2,S_PAR,s.seed+103));
    nu.reset(new UFun(pd,{incomp?0.5:r.range(0.2,0.4)},0.0,S_PAR,s.seed+4));
    ratio.reset(new UFun(pd,{r.range(3,7)},0.0,S_PAR,s.seed+5));
    std::vector<double> fb; for(int i=0;i<d;i++) fb.push_back(r.range(-1,1));
    force.reset(new UFun(s.parforce?2:pd,fb,0.4,S_FORCE,s.seed+6));
    press.reset(new UFun(pd,{r.range(0.2,1)},0.3,S_PRESS,s.seed+7)); pressAlt.reset(new UFun(pd,{r.range(1.2,2)},0.3,S_PRESS,s.seed+107));
    std::vector<double> kb; for(int i=0;i<3;i++) kb.push_back(r.range(0.5,2));
    found.reset(new UFun(pd,kb,0.2,S_FOUND,s.seed+8)); for(double & x:kb) x*=2.5; foundAlt.reset(new UFun(pd,kb,0.2,S_FOUND,s.seed+108));
    std::vector<double> nb; for(int i=0;i<d;i++) nb.push_back(r.range(-0.5,0.5));
    neu.reset(new UFun(pd,nb,0.3,S_BC,s.seed+9));
    for(double & x:nb) x*=0.2;
    dir.reset(new UFun(pd,nb,0.3,S_BC,s.seed+10));
    for(double & x:nb) x*=-1.6;
    dirAlt.reset(new UFun(pd,nb,0.3,S_BC,s.seed+110)); for(double & x:nb) x*=5;
    neuAlt.reset(new UFun(pd,nb,0.3,S_BC,s.seed+109));
    // Ogden parameters
    { double mu=r.range(1,3)/(2*(1+0.5)); double a[3]={1.3,5.0,-2.0}, mm[3]={6.3e-1,0.012e-1,-0.1e-1}; (void)mu;
      for(int i=0;i<3;i++){ og.emplace_back(new UFun(pd,{mm[i]},0.0,S_PAR,s.seed+20+i)); og.emplace_back(new UFun(pd,{a[i]},0.0,S_PAR,s.seed+30+i)); } }
    // boundary conditions; the caller owns geometry and functions
    auto mkbc=[&](gsBoundaryConditions<real_t> & b,int set,gsMultiPatch<real_t> & geo,UFun * dir,UFun * neu,boundary::side far){
        int last=s.npatch-1;
        for(int c=0;c<d;c++) b.addCondition(0,boundary::west,condition_type::dirichlet,0,0,false,c);
        switch(set){
        case 0: for(int c=0;c<d;c++) b.addCondition(last,far,condition_type::dirichlet,0,0,false,c); break;
        case 1: b.addCondition(last,boundary::east,condition_type::dirichlet,dir,0,false,-1); break;      // prescribed displacement
        case 2: b.addCondition(last,boundary::east,condition_type::neumann,neu); if(s.kind==BENDING) b.addCondition(0,boundary::west,condition_type::clamped,0,0,false,2); break;
        case 3: b.addCondition(last,boundary::east,condition_type::weak_dirichlet,dir); if(s.kind==BENDING) b.addCondition(0,boundary::west,condition_type::weak_clamped,0); break;
        case 4: b.addCondition(last,boundary::east,condition_type::collapsed,0,0,false,0); b.addCondition(0,boundary::south,condition_type::neumann,neu); break;
        case 5: b.addCondition(0,boundary::south,condition_type::dirichlet,dir,0,false,-1); b.addCondition(last,boundary::north,condition_type::neumann,neu); break;
        }
        if (d==3 && s.kind==MEMBRANE) b.addCondition(0,boundary::south,condition_type::dirichlet,0,0,false,2);
        b.setGeoMap(geo);
    };
    mkbc(bc,s.bcset,mp,dir.get(),neu.get(),boundary::east); mkbc(bcAlt,(s.bcset+1)%6,mp,dir.get(),neu.get(),boundary::east); mkbc(bcAlt2,s.bcset,mp,dirAlt.get(),neuAlt.get(),boundary::north);
    // point loads
    auto mkld=[&](gsPointLoads<real_t> & L,int n){ for(int i=0;i<n;i++){ gsVector<real_t> pt(2); pt<<r.range(0.1,0.9),r.range(0.1,0.9); gsVector<real_t> v(d); for(int c=0;c<d;c++) v[c]=r.range(-1,1); int p=(int)r.below(s.npatch);
        if(s.physLoads){ gsMatrix<real_t> q; mp.patch(p).eval_into(pt,q); gsVector<real_t> x=q.col(0); L.addLoad(x,v,p,false); } else L.addLoad(pt,v,p,true);} };
    mkld(loads,1+(int)r.below(3)); mkld(loadsAlt,2);
    // materials
    int nm=s.container?s.npatch:1;
    for(int p=0;p<nm;p++) mats.push_back(makeMaterial(p,mp));
    if (s.container) for(int p=0;p<nm;p++) cont.add(mats[p].get());
}

std::shared_ptr<Material_t> Scen::makeMaterial(int variant, const gsMultiPatch<real_t> & geo)
{
    int mat=(variant%2)?s.matAlt:s.mat; bool comp=s.comp; int impl=s.impl;
    UFun * t=(variant%2)?thick2.get():thick.get(); UFun * e=(variant%2)?E2.get():E.get();
    std::shared_ptr<Material_t> m;
    if (mat==M_COMPOSITE) {
        int nl=2; std::vector<gsFunctionSet<real_t>*> T,G,A,R; short_t pd=d;
        for(int l=0;l<nl;l++){
            double Ev=1.0+l+0.5*variant, nuv=0.3; double f=Ev/(1-nuv*nuv);
            std::vector<double> g={f,nuv*f,0,nuv*f,f,0,0,0,0.5*Ev/(1+nuv)};
            compFuns.emplace_back(new UFun(pd,{0.03*(l+1)},0.1,S_THICK,s.seed+200+l+10*variant)); T.push_back(compFuns.back().get());
            compFuns.emplace_back(new UFun(pd,g,0.0,S_PAR,s.seed+210+l+10*variant)); G.push_back(compFuns.back().get());
            compFuns.emplace_back(new UFun(pd,{0.4*(l+1)},0.1,S_PAR,s.seed+220+l+10*variant)); A.push_back(compFuns.back().get());
            compFuns.emplace_back(new UFun(pd,{1.0+l},0.1,S_RHO,s.seed+230+l+10*variant)); R.push_back(compFuns.back().get());
        }
        if (d==3) m.reset(new gsMaterialMatrixComposite<3,real_t>(geo,T,G,A,R)); else m.reset(new gsMaterialMatrixComposite<2,real_t>(geo,T,G,A,R));
        m->options().setInt("NumGauss",s.ngauss+1);
        return m;
    }
    std::vector<gsFunctionSet<real_t>*> par; par.push_back(e); par.push_back(nu.get());
    if (mat==M_MR) par.push_back(ratio.get());
    if (mat==M_OG) for(auto & f:og) par.push_back(f.get());
    gsOptionList o; o.addInt("Material","",mat); o.addSwitch("Compressibility","",comp); o.addInt("Implementation","",impl);
    Material_t::uPtr u;
    if (d==3) u=getMaterialMatrix<3,real_t>(geo,*t,par,*rho,o); else u=getMaterialMatrix<2,real_t>(geo,*t,par,*rho,o);
    u->options().setInt("NumGauss",s.ngauss+1);
    m.reset(u.release());
    if (s.tft) {
        inner.push_back(m);
        bool lin=(mat==M_SVK);
        std::shared_ptr<Material_t> w;
        if (d==3) { if(lin) w.reset(new gsMaterialMatrixTFT<3,real_t,true>(m.get())); else w.reset(new gsMaterialMatrixTFT<3,real_t,false>(m.get())); }
        else      { if(lin) w.reset(new gsMaterialMatrixTFT<2,real_t,true>(m.get())); else w.reset(new gsMaterialMatrixTFT<2,real_t,false>(m.get())); }
        w->options().setReal("SlackMultiplier",1e-2);
        return w;
    }
    return m;
}

std::shared_ptr<Assembler> Scen::makeBare() const
{
    Material_t * m=mats[0].get();
    if (s.container) {
        if (s.kind==BENDING)  return std::shared_ptr<Assembler>(new gsThinShellAssembler<3,real_t,true>(mp,mb,bc,*force,cont));
        if (s.kind==MEMBRANE) return std::shared_ptr<Assembler>(new gsThinShellAssembler<3,real_t,false>(mp,mb,bc,*force,cont));
        return std::shared_ptr<Assembler>(new gsThinShellAssembler<2,real_t,false>(mp,mb,bc,*force,cont));
    }
    if (s.kind==BENDING)  return std::shared_ptr<Assembler>(new gsThinShellAssembler<3,real_t,true>(mp,mb,bc,*force,m));
    if (s.kind==MEMBRANE) return std::shared_ptr<Assembler>(new gsThinShellAssembler<3,real_t,false>(mp,mb,bc,*force,m));
    return std::shared_ptr<Assembler>(new gsThinShellAssembler<2,real_t,false>(mp,mb,bc,*force,m));
}
void Scen::configure(Assembler & a) const
{
    gsOptionList & o=a.options();
    o.setInt("ExprAssembler.quB",0); o.setReal("ExprAssembler.quA",s.deg>2?0.7:1.0);
    o.setReal("IfcPenalty",10); o.setReal("WeakDirichlet",20); o.setReal("WeakClamped",15);
    if (s.coupling==3) { gsOptionList c; c.addInt("Continuity","",0); a.setOptions(c); }
    if (s.coupling==1) { a.addWeakC0(mp.topology().interfaces()); a.addWeakC1(gsBoxTopology::ifContainer()); }
    if (s.coupling==2) { a.addWeakC0(mp.topology().interfaces()); a.addWeakC1(mp.topology().interfaces()); }
    if (s.coupling==1||s.coupling==2) a.initInterfaces();
    if (s.pressure) a.setPressure(*press);
    if (s.foundation && d==3) a.setFoundation(*found);
    if (s.ploads) a.setPointLoads(loads);
}
std::shared_ptr<Assembler> Scen::make() const { std::shared_ptr<Assembler> a=makeBare(); configure(*a); return a; }

void Scen::mutate(int g)
{
    gsMultiPatch<real_t> & m=g==0?mp:g==1?mpAlt:def[(g-2)%3];
    for(size_t p=0;p<m.nPatches();p++){ gsMatrix<real_t> & C=m.patch(p).coefs(); for(index_t i=0;i<C.rows();i++){ double x=C(i,0),y=C(i,1); C(i,0)=1.03*x+0.01*y*y; C(i,1)=(s.tft?0.99:1.02)*y+0.01*x*y; if(d==3) C(i,2)+=0.02*x*x-0.015*x*y; } }
}
gsMatrix<real_t> Scen::points(uint64_t seed,int n) const
{ Rng r(seed*31+7); gsMatrix<real_t> u(2,n); for(int i=0;i<n;i++){ u(0,i)=r.range(0.05,0.95); u(1,i)=r.range(0.05,0.95);} return u; }
gsMatrix<real_t> Scen::solVector(index_t n,uint64_t seed,double amp) const
{ Rng r(seed*37+11); gsMatrix<real_t> v(n,1); for(index_t i=0;i<n;i++) v(i,0)=r.range(-amp,amp); return v; }

static uint64_t fnv(const void * p,size_t n,uint64_t h=0xcbf29ce484222325ull){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){ h^=c[i]; h*=0x100000001B3ull; } return h; }
std::string fpMatrix(const gsMatrix<real_t> & m){ std::ostringstream o; o<<m.rows()<<'x'<<m.cols()<<':'<<std::hex<<fnv(m.data(),sizeof(real_t)*m.size()); return o.str(); }
std::string fpMP(const gsMultiPatch<real_t> & g){ std::ostringstream o; o<<g.nPatches()<<'/'<<g.nInterfaces()<<'/'<<g.nBoundary(); for(size_t p=0;p<g.nPatches();p++) o<<';'<<fpMatrix(g.patch(p).coefs())<<','<<g.patch(p).basis().size(); return o.str(); }
static std::string fpLoads(const gsPointLoads<real_t> & L){ std::ostringstream o; o<<L.numLoads(); for(size_t i=0;i<L.numLoads();i++){ gsMatrix<real_t> a=L[i].point,b=L[i].value; o<<';'<<fpMatrix(a)<<fpMatrix(b)<<L[i].patch<<L[i].parametric; } return o.str(); }
static std::string fpBC(const gsBoundaryConditions<real_t> & b){ std::ostringstream o; o<<b.size(); for(auto it=b.beginAll();it!=b.endAll();++it) for(auto c=it->second.begin();c!=it->second.end();++c) o<<';'<<c->ps.patch<<','<<(int)c->ps.m_index<<','<<c->ctype()<<','<<c->unkComponent()<<','<<(const void*)c->function().get(); return o.str(); }
static std::string fpOpt(const gsOptionList & o){ std::ostringstream s; s<<o; return s.str(); }

std::string Scen::fingerprint() const
{
    std::ostringstream o;
    o<<"geometry:"<<fpMP(mp)<<"\n"; for(int k=0;k<3;k++) o<<"deformed"<<k<<":"<<fpMP(def[k])<<"\n"; o<<"geometryAlt:"<<fpMP(mpAlt)<<"\n";
    o<<"basis:"; for(size_t p=0;p<mb.nBases();p++) o<<mb.basis(p).size()<<','<<mb.basis(p).maxDegree()<<';'; o<<mb.topology().nInterfaces()<<"\n";
    o<<"basisAlt:"; for(size_t p=0;p<mbAlt.nBases();p++) o<<mbAlt.basis(p).size()<<';'; o<<"\n";
    o<<"bc:"<<fpBC(bc)<<"\n"<<"bcAlt:"<<fpBC(bcAlt)<<"\n"<<"bcAlt2:"<<fpBC(bcAlt2)<<"\n";
    o<<"loads:"<<fpLoads(loads)<<"\nloadsAlt:"<<fpLoads(loadsAlt)<<"\n";
    o<<"functions:"<<force->fingerprint()<<thick->fingerprint()<<rho->fingerprint()<<E->fingerprint()<<nu->fingerprint()<<press->fingerprint()<<found->fingerprint()<<"\n";
    for(size_t i=0;i<mats.size();i++) o<<"materialOptions"<<i<<":"<<fpOpt(mats[i]->options())<<"\n";
    for(size_t i=0;i<mats.size();i++) { o<<"materialConfig"<<i<<":"; if(s.mat!=M_COMPOSITE) { o<<mats[i]->hasThickness()<<(const void*)mats[i]->getThickness().get(); if(!s.tft) { o<<mats[i]->numParameters(); for(index_t k=0;k<mats[i]->numParameters();k++) o<<','<<(const void*)mats[i]->getParameter(k).get(); o<<(const void*)mats[i]->getDensity().get(); } } o<<"\n"; }
    return o.str();
}

void Outcome::add(const gsMatrix<real_t> & m){ sz.push_back(m.rows()); sz.push_back(m.cols()); for(index_t j=0;j<m.cols();j++) for(index_t i=0;i<m.rows();i++) v.push_back(m(i,j)); }
void Outcome::add(const gsSparseMatrix<real_t> & m)
{
    sz.push_back(m.rows()); sz.push_back(m.cols());
    gsMatrix<real_t> D=m.toDense();            // the value matters, not the storage
    for(index_t j=0;j<D.cols();j++) for(index_t i=0;i<D.rows();i++) v.push_back(D(i,j));
}
void Outcome::add(const gsMultiPatch<real_t> & g){ sz.push_back(g.nPatches()); for(size_t p=0;p<g.nPatches();p++) add(gsMatrix<real_t>(g.patch(p).coefs())); }

std::string diff(const Outcome & a,const Outcome & b,double tol)
{
    std::ostringstream o; o.precision(12);
    if (a.threw!=b.threw) { o<<"reference "<<(a.threw?"threw "+a.what:std::string("returned"))<<", run "<<(b.threw?"threw "+b.what:std::string("returned")); return o.str(); }
    if (a.status!=b.status) { o<<"status "<<b.status<<" instead of "<<a.status; return o.str(); }
    if (a.threw) return "";
    if (a.sz!=b.sz) { o<<"result has other sizes:"; for(long x:b.sz) o<<' '<<x; o<<" instead of"; for(long x:a.sz) o<<' '<<x; return o.str(); }
    if (a.v.size()!=b.v.size()) { o<<"result has "<<b.v.size()<<" entries instead of "<<a.v.size(); return o.str(); }
    double scale=0; for(double x:a.v) if(std::isfinite(x)) scale=std::max(scale,std::fabs(x));
    size_t bad=0,first=0; double worst=0;
    for(size_t i=0;i<a.v.size();i++) {
        double x=a.v[i],y=b.v[i]; bool nx=!std::isfinite(x),ny=!std::isfinite(y);
        if (nx||ny) { if(nx!=ny){ if(!bad) first=i; bad++; worst=INFINITY; } continue; }
        double e=std::fabs(x-y);
        if (e>tol*std::max(scale,1e-2)) { if(!bad) first=i; bad++; worst=std::max(worst,e); }
    }
    if (!bad) return "";
    o<<bad<<" of "<<a.v.size()<<" values differ, first at "<<first<<": "<<b.v[first]<<" instead of "<<a.v[first]<<", largest difference "<<worst;
    return o.str();
}

const char * opName[O_COUNT]={"assemble","assemble(def)","assembleMatrix(def)","assembleVector(def)","assembleMass","assembleMass(lumped)","assembleFoundation",
 "assemble(sol)","assembleMatrix(sol)","assembleVector(sol)","assembleVector(def,inhomogeneous)","assembleMatrix(MIP)","assemblePressureMatrix(def)","assemblePressureVector(def)","assemblePressureVector",
 "boundaryForce","getArea","getDisplacementNorm","getElasticEnergy","constructSolution","fullSolutionVector","constructSolutionVector","constructStress","principalStretches","principalStresses",
 "deformationNorm","interfaceErrorC0","interfaceErrorG1","interfaceErrorNormal","interfaceErrorGaussCurvature","interfaceErrorMeanCurvature","materialEvaluator","numDofs",
 "assemble(def,residual only)","assemble(def,inhomogeneous)","assembleMatrix(MIP,sol)","assemblePressureMatrix","assemblePressureMatrix(const)","assemblePressureVector(const)","assembleFoundationVector","constructDisplacement","updateMultiPatch","constructStress(ori,def)","boundaryForce(side)"};
std::string Op::text() const { std::ostringstream o; o<<opName[kind]<<"#"<<a<<","<<b; return o.str(); }

bool opApplies(const Spec & s,const Op & op)
{
    const int d=s.dim();
    switch(op.kind){
    case O_FOUNDATION: return s.foundation && d==3;
    case O_FOUND_VEC: return s.foundation && d==3;
    case O_PRESS_MAT_LIN: case O_PRESS_CONST: case O_PRESS_CONST_VEC: case O_PRESS_MAT: case O_PRESS_VEC: case O_PRESS_VEC_LIN: return d==3;
    case O_ENERGY: return d==3 && s.mat!=M_COMPOSITE && !s.tft;
    case O_PSTRETCH: case O_PSTRESS: return s.mat!=M_COMPOSITE && d==3 && !(op.kind==O_PSTRESS && s.tft);
    case O_IFC_C0: case O_IFC_G1: case O_IFC_N: case O_IFC_GC: case O_IFC_MC: return s.npatch>1 && (op.kind==O_IFC_C0 || d==3);
    case O_STRESS: case O_STRESS_ORI: return s.mat!=M_COMPOSITE && d==3;
    case O_BFORCE: return true;
    case O_MATERIAL: return true;
    case O_MIP: case O_MIP_SOL: return s.kind==BENDING && s.mat!=M_COMPOSITE;
    default: return true;
    }
}
Op randomOp(Rng & r,const Spec & s,int group)
{
    for(;;){
        int k;
        if (group==1) { static const int g[]={O_ASSEMBLE,O_ASSEMBLE,O_ASSEMBLE_DEF,O_MATRIX_DEF,O_VECTOR_DEF,O_MASS,O_FOUNDATION,O_ASSEMBLE_SOL,O_MATRIX_SOL,O_VECTOR_SOL,O_VECTOR_INHOM,O_MIP,O_PRESS_MAT,O_PRESS_VEC,O_PRESS_VEC_LIN,O_MASS_LUMPED,O_RESIDUAL,O_ASSEMBLE_INHOM,O_MIP_SOL,O_PRESS_MAT_LIN,O_PRESS_CONST,O_PRESS_CONST_VEC,O_FOUND_VEC}; k=g[r.below(sizeof g/sizeof*g)]; }
        else if (group==2) { static const int g[]={O_BFORCE,O_AREA,O_DNORM,O_ENERGY,O_DEFNORM,O_IFC_C0,O_IFC_G1,O_IFC_N,O_IFC_GC,O_IFC_MC,O_BFORCE1}; k=g[r.below(sizeof g/sizeof*g)]; }
        else k=(int)r.below(O_COUNT);
        Op op(k,(int)r.below(3),(int)r.below(64));
        if (opApplies(s,op)) return op;
    }
}

static int st(ThinShellAssemblerStatus s){ return s==ThinShellAssemblerStatus::Success?0:1; }
Outcome runOp(Assembler & A,const Scen & sc,const Op & op)
{
    Outcome o;
    const gsMultiPatch<real_t> & def=sc.def[op.a%3];
    try {
        switch(op.kind){
        case O_ASSEMBLE:      o.status=st(A.assemble()); if(!o.status){ o.add(A.matrix()); o.add(A.rhs()); } break;
        case O_ASSEMBLE_DEF:  o.status=st(A.assemble(def)); if(!o.status){ o.add(A.matrix()); o.add(A.rhs()); } break;
        case O_MATRIX_DEF:    o.status=st(A.assembleMatrix(def)); if(!o.status) o.add(A.matrix()); break;
        case O_VECTOR_DEF:    o.status=st(A.assembleVector(def)); if(!o.status) o.add(A.rhs()); break;
        case O_MASS:          o.status=st(A.assembleMass()); if(!o.status) { o.add(A.massMatrix()); o.add(A.matrix()); } break;
        case O_MASS_LUMPED:   o.status=st(A.assembleMass(true)); if(!o.status) o.add(A.massMatrix()); break;
        case O_FOUNDATION:    o.status=st(A.assembleFoundation()); if(!o.status) o.add(A.matrix()); break;
        case O_ASSEMBLE_SOL:  o.status=st(A.assemble(sc.solVector(A.numDofs(),op.b,0.01))); if(!o.status){ o.add(A.matrix()); o.add(A.rhs()); } break;
        case O_MATRIX_SOL:    o.status=st(A.assembleMatrix(sc.solVector(A.numDofs(),op.b,0.01))); if(!o.status) o.add(A.matrix()); break;
        case O_VECTOR_SOL:    o.status=st(A.assembleVector(sc.solVector(A.numDofs(),op.b,0.01))); if(!o.status) o.add(A.rhs()); break;
        case O_VECTOR_INHOM:  o.status=st(A.assembleVector(def,false)); if(!o.status) o.add(A.rhs()); break;
        case O_MIP:           { gsMatrix<real_t> upd=sc.solVector(A.numDofs(),op.b,0.005); o.status=st(A.assembleMatrix(def,sc.def[(op.a+1)%3],upd)); if(!o.status) o.add(A.matrix()); } break;
        case O_PRESS_MAT:     if(A.assembleMatrix(def)==ThinShellAssemblerStatus::Success){ o.status=st(A.assemblePressureMatrix(*sc.press,def)); if(!o.status) o.add(A.matrix()); } else o.status=1; break;
        case O_PRESS_VEC:     if(A.assembleVector(def)==ThinShellAssemblerStatus::Success){ o.status=st(A.assemblePressureVector(*sc.press,def)); if(!o.status) o.add(A.rhs()); } else o.status=1; break;
        case O_PRESS_VEC_LIN: if(A.assemble()==ThinShellAssemblerStatus::Success){ o.status=st(A.assemblePressureVector(*sc.press)); if(!o.status) o.add(A.rhs()); } else o.status=1; break;
        case O_BFORCE:        { std::vector<patchSide> ps; ps.push_back(patchSide(0,boundary::west)); if(op.b&1) ps.push_back(patchSide(sc.s.npatch-1,boundary::east)); o.add(A.boundaryForce(def,ps)); } break;
        case O_AREA:          o.add(A.getArea(def)); break;
        case O_DNORM:         o.add(A.getDisplacementNorm(def)); break;
        case O_ENERGY:        o.add(A.getElasticEnergy(def)); break;
        case O_SOLUTION:      o.add(A.constructSolution(sc.solVector(A.numDofs(),op.b,0.1))); o.add(A.constructDisplacement(sc.solVector(A.numDofs(),op.b+1,0.1))); break;
        case O_FULLVEC:       o.add(A.fullSolutionVector(sc.solVector(A.numDofs(),op.b,0.1))); break;
        case O_SOLVEC:        o.add(gsMatrix<real_t>(A.constructSolutionVector(def))); break;
        case O_STRESS:        { static const int types[]={0,1,2,3,4,5,6,7,8,9,10,12,13,14,15,16,17,18,19,81};
                                gsPiecewiseFunction<real_t> f; stress_type::type t=(stress_type::type)types[op.b%20]; A.constructStress(def,f,t);
                                for(int p=0;p<sc.s.npatch;p++){ gsMatrix<real_t> res; f.piece(p).eval_into(sc.points(op.b,3),res); o.add(res);} } break;
        case O_PSTRETCH:      o.add(A.computePrincipalStretches(sc.points(op.b,2),def,0.01*(op.b%3))); break;
        case O_PSTRESS:       o.add(A.computePrincipalStresses(sc.points(op.b,2),def,0.01*(op.b%3))); break;
        case O_DEFNORM:       o.add(A.deformationNorm(def,sc.mp)); break;
        case O_IFC_C0:        o.add(A.interfaceErrorC0(def,sc.mp.topology().interfaces())); break;
        case O_IFC_G1:        o.add(A.interfaceErrorG1(def,sc.mp.topology().interfaces())); break;
        case O_IFC_N:         o.add(A.interfaceErrorNormal(def,sc.mp.topology().interfaces())); break;
        case O_IFC_GC:        o.add(A.interfaceErrorGaussCurvature(def,sc.mp.topology().interfaces())); break;
        case O_IFC_MC:        o.add(A.interfaceErrorMeanCurvature(def,sc.mp.topology().interfaces())); break;
        case O_MATERIAL:      { int p=op.b%sc.s.npatch; gsMatrix<real_t> res;
                                if ((op.b>>2)&1) { gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> f(A.materials(),&sc.mp,&def); f.piece(p).eval_into(sc.points(op.b,3),res); }
                                else             { gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixA> f(A.materials(),&sc.mp,&def); f.piece(p).eval_into(sc.points(op.b,3),res); }
                                o.add(res); } break;
        case O_RESIDUAL:      o.status=st(A.assemble(def,false,op.b&1)); if(!o.status) o.add(A.rhs()); break;
        case O_ASSEMBLE_INHOM:o.status=st(A.assemble(def,true,false)); if(!o.status){ o.add(A.matrix()); o.add(A.rhs()); } break;
        case O_MIP_SOL:       o.status=st(A.assembleMatrix(sc.solVector(A.numDofs(),op.b,0.01),sc.solVector(A.numDofs(),op.b+1,0.008))); if(!o.status) o.add(A.matrix()); break;
        case O_PRESS_MAT_LIN: if(A.assemble()==ThinShellAssemblerStatus::Success){ o.status=st(A.assemblePressureMatrix(*sc.press)); if(!o.status) o.add(A.matrix()); } else o.status=1; break;
        case O_PRESS_CONST:   if(A.assembleMatrix(def)==ThinShellAssemblerStatus::Success){ o.status=st(op.b&1?A.assemblePressureMatrix(0.7):A.assemblePressureMatrix(0.7,def)); if(!o.status) o.add(A.matrix()); } else o.status=1; break;
        case O_PRESS_CONST_VEC: if(A.assembleVector(def)==ThinShellAssemblerStatus::Success){ o.status=st(op.b&1?A.assemblePressureVector(0.7):A.assemblePressureVector(0.7,def)); if(!o.status) o.add(A.rhs()); } else o.status=1; break;
        case O_FOUND_VEC:     if(A.assembleVector(def)==ThinShellAssemblerStatus::Success){ o.status=st(sc.s.kind==BENDING?static_cast<gsThinShellAssembler<3,real_t,true>&>(A).assembleFoundationVector(*sc.found,def):static_cast<gsThinShellAssembler<3,real_t,false>&>(A).assembleFoundationVector(*sc.found,def)); if(!o.status) o.add(A.rhs()); } else o.status=1; break;
        case O_DISPL:         { gsMultiPatch<real_t> g,h; A.constructDisplacement(sc.solVector(A.numDofs(),op.b,0.1),g); A.constructSolution(sc.solVector(A.numDofs(),op.b,0.1),h); o.add(g); o.add(h); o.add(A.constructMultiPatch(sc.solVector(A.numDofs(),op.b,0.1))); } break;
        case O_UPDATE_MP:     { gsMultiPatch<real_t> g=def; A.updateMultiPatch(sc.solVector(A.numDofs(),op.b,0.1),g); o.add(g); } break;
        case O_STRESS_ORI:    { static const int types[]={0,1,2,3,4,5,6,7,8,9,10,12,13,14,15,16,17,18,19,81}; stress_type::type t=(stress_type::type)types[op.b%20];
                                gsPiecewiseFunction<real_t> f; const gsMultiPatch<real_t> & ori=sc.mpAlt; if(sc.s.kind==BENDING) static_cast<gsThinShellAssembler<3,real_t,true>&>(A).constructStress(ori,def,f,t); else static_cast<gsThinShellAssembler<3,real_t,false>&>(A).constructStress(ori,def,f,t);
                                for(int p=0;p<sc.s.npatch;p++){ gsMatrix<real_t> res; f.piece(p).eval_into(sc.points(op.b,3),res); o.add(res);} } break;
        case O_BFORCE1:       o.add(A.boundaryForce(def,patchSide(op.b%sc.s.npatch,(op.b&1)?boundary::south:boundary::east))); break;
        case O_NDOFS:         o.add(A.numDofs()); o.add(A.getMapper().freeSize()); break;
        }
    }
    catch(const std::exception & e){ o.threw=true; o.what=e.what(); o.v.clear(); o.sz.clear(); }
    catch(...){ o.threw=true; o.what="non-standard exception"; o.v.clear(); o.sz.clear(); }
    if(!o.threw && o.status>=0 && st(A.status())!=o.status) o.note="the status query contradicts the reported status";
    return o;
}

// ------------------------------------------------------------------ material evaluations
static const char * meNames[ME_COUNT]={"density","thickness","parameters","pstretch","pstretchDir","pstress_into","pstressDir_into","transform_into",
 "spec2cov","spec2con","cov2cart","con2cart","pstretchTransform","pstressTransform","deformation","matrixA","matrixB","matrixD","vectorN","vectorM","CauchyVectorN","pstress","pstressDir","eval3D_pstretch","eval3D_pstretchDir","pstrain","strain","stress","CauchyStress","tensionfield"};
const char * matEvalName(int k){ return meNames[k]; }
bool matEvalApplies(const Spec & s,int k)
{
    if (s.mat==M_COMPOSITE) return k==0||k==15||k==16||k==17||k==18||k==19;
    if (s.tft) return k==0||k==1||k==15||k==18||k==23||k==24||k==26||k==27||k==29||k==25;
    if (k==29 || (k>=3 && k<=7) || k==22) return false;   // not implemented for these laws
    if (s.mat==M_SVK) return k!=2;
    return k!=2;
}
gsMatrix<real_t> matEval(const Material_t & m,int k,int p,const gsMatrix<real_t> & u,const gsMatrix<real_t> & z)
{
    gsMatrix<real_t> r; gsMatrix<real_t> z1=z.topRows(1);
    switch(k){
    case 0: m.density_into(p,u,r); break;
    case 1: m.thickness_into(p,u,r); break;
    case 2: m.parameters_into(p,u,r); break;
    case 3: m.pstretch_into(p,u,r); break;
    case 4: m.pstretchDir_into(p,u,r); break;
    case 5: m.pstress_into(p,u,r); break;
    case 6: m.pstressDir_into(p,u,r); break;
    case 7: m.transform_into(p,u,r); break;
    case 8: r=m.eval3D_spec2cov(p,u,z1); break;
    case 9: r=m.eval3D_spec2con(p,u,z1); break;
    case 10: r=m.eval3D_cov2cart(p,u,z1); break;
    case 11: r=m.eval3D_con2cart(p,u,z1); break;
    case 12: r=m.eval3D_pstretchTransform(p,u,z1); break;
    case 13: r=m.eval3D_pstressTransform(p,u,z1); break;
    case 14: r=m.eval3D_deformation(p,u,z); break;
    case 15: r=m.eval3D_matrix(p,u,z,MaterialOutput::MatrixA); break;
    case 16: r=m.eval3D_matrix(p,u,z,MaterialOutput::MatrixB); break;
    case 17: r=m.eval3D_matrix(p,u,z,MaterialOutput::MatrixD); break;
    case 18: r=m.eval3D_vector(p,u,z,MaterialOutput::VectorN); break;
    case 19: r=m.eval3D_vector(p,u,z,MaterialOutput::VectorM); break;
    case 20: r=m.eval3D_CauchyVector(p,u,z,MaterialOutput::CauchyVectorN); break;
    case 21: r=m.eval3D_pstress(p,u,z,MaterialOutput::PStressN); break;
    case 22: r=m.eval3D_pstressDir(p,u,z,MaterialOutput::PStressDir); break;
    case 23: r=m.eval3D_pstretch(p,u,z); break;
    case 24: r=m.eval3D_pstretchDir(p,u,z); break;
    case 25: r=m.eval3D_pstrain(p,u,z); break;
    case 26: r=m.eval3D_strain(p,u,z); break;
    case 27: r=m.eval3D_stress(p,u,z,MaterialOutput::Generic); break;
    case 28: r=m.eval3D_CauchyStress(p,u,z,MaterialOutput::Generic); break;
    case 29: r=m.eval3D_tensionfield(p,u,z,MaterialOutput::TensionField); break;
    }
    return r;
}
