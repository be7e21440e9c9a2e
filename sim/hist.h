// Histories: steps on a pool of objects, the model of their configuration, and the world
// the steps act on.
#pragma once
#include "scen.h"
#include "dwr.h"
#include <set>

struct MatCfg { int th,E,rho,ng; MatCfg():th(0),E(0),rho(0),ng(0){} bool operator==(const MatCfg&o)const{return th==o.th&&E==o.E&&rho==o.rho&&ng==o.ng;} };
struct ACfg {                        // configuration of an assembler
    bool alive,own; int geo,basis,space,bc,press,found,loads,opt,coup; std::vector<MatCfg> mats;   // mats: only if own
    ACfg():alive(false),own(false),geo(0),basis(0),space(0),bc(0),press(0),found(0),loads(0),opt(0),coup(0){}
};
struct DCfg { bool alive; int geo,bc,press,found,loads,opt,goal,comp,bH; DCfg():alive(false),geo(0),bc(0),press(0),found(0),loads(0),opt(0),goal(0),comp(9),bH(0){} };

enum StepType { T_NEW=0,T_OP,T_CFG,T_COPY,T_DEL, T_DNEW,T_DOP,T_DCFG,T_DCOPY,T_DDEL, T_MATCFG,T_MAT,T_EV,T_CLONE,T_MDEL,T_GEOMUT, T_COUNT };
enum CfgWhat { K_PRESS=0,K_FOUND,K_LOADS,K_BC,K_GEO,K_BASIS,K_OPT,K_OPTREF,K_COUP,K_CONT,K_SPACE, K_COUNT };
enum DCfgWhat { DK_LOADS=0,DK_BC,DK_GEO,DK_OPT,DK_GOAL,DK_BASISH,DK_PRESS,DK_FOUND, DK_COUNT };
enum { NA=3, ND=2, NM=6 };           // slots; material slots: the caller's materials first, then clones

struct Step {
    int t,slot,a,b,c; 
    int fault,mode; uint64_t frac; long at;      // fault: seam, -1 none
    Step(int t_=0,int s=0,int a_=0,int b_=0,int c_=0):t(t_),slot(s),a(a_),b(b_),c(c_),fault(-1),mode(0),frac(0),at(0){}
    std::string text() const;
    bool changes() const { return t!=T_OP && t!=T_DOP && t!=T_MAT && t!=T_EV; }   // changes configuration or the pool
};
struct Case { std::string prop; uint64_t seed; Spec spec; bool useDwr; std::vector<Step> steps; std::set<int> dropped;
    bool checks(const Step & s) const; };
Case genCase(const std::string & prop,uint64_t seed);

struct RefKey { int type; ACfg a; DCfg d; std::vector<MatCfg> mats; int gv[5]; Step s; std::string text() const; };

struct Model {                       // the executable specification of the configuration
    const Spec & s; ACfg A[NA]; DCfg D[ND]; std::vector<MatCfg> M; bool mAlive[NM]; int nm; int gv[5];   // gv: how often each geometry of the caller was changed in place
    explicit Model(const Spec & sp);
    bool key(const Step & st,RefKey & k) const;     // what a fresh object must look like; false: nothing to compare
    bool effectKey(const Step & st,uint64_t pick,RefKey & k,std::string & what) const; // a configuration whose result has to be different
    bool faultKey(const Step & st,RefKey & k) const;// the step on a fresh object, to place a fault in it
    void apply(const Step & st,bool fired);         // fired: a fault was delivered in the step
    static bool valid(const Case & c);              // a failed change of the configuration is repeated at once
    ACfg initial() const; DCfg dinitial() const;
};

struct World {
    Scen sc; gsMappedBasis<2,real_t> mapped; std::unique_ptr<DScen> ds; Spec spec;     // mapped: the functions of the basis, each mapped to itself
    std::shared_ptr<Assembler> A[NA]; std::shared_ptr<Dwr> D[ND];
    std::vector<std::shared_ptr<Material_t> > clones;    // material slots nm..
    std::shared_ptr<gsMaterialMatrixContainer<real_t> > ownc[NA];
    int nm; gsMultiBasis<real_t> mbH2;
    const gsFunctionSet<real_t> & spaceOf(int v) const { if(v==3) return mapped; return v==2?sc.mbAlt:sc.mb; }
    World(const Spec & s,bool dwr);
    ~World();
    void applyMats(const std::vector<MatCfg> & m);
    void setMat(Material_t & m,int idx,const MatCfg & c,int what=-1);
    std::shared_ptr<Assembler> build(const ACfg & c);
    std::shared_ptr<Dwr> buildD(const DCfg & c);
    void fresh(const RefKey & k); Outcome runFresh(const RefKey & k);
    Outcome run(const Step & s);                          // catches everything
    std::string fingerprint(const Step & s) const;
private:
    Material_t * mat(int slot) const;
    Outcome evalMat(Material_t & m,const Step & s); Outcome evalEv(const Step & s,Material_t * only);
    void cfg(Assembler & a,int what,int val); void dcfg(Dwr & d,int what,int val);
    World(const World&); World & operator=(const World&);
};
