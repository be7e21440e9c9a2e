// Operations on the goal-oriented error estimator (gsThinShellAssemblerDWR).
#pragma once
#include "scen.h"
typedef gsThinShellAssemblerDWRBase<real_t> Dwr;
enum DOpKind { D_ASM=0, D_MAT_LIN, D_MAT_DEF, D_MASS, D_PRIMAL, D_PRIMAL_DEF, D_DUAL, D_DUAL_DEF, D_DUAL_BND, D_DUAL_PTS,
    D_GOAL, D_GOAL_BND, D_GOAL_PTS, D_ERR, D_ERR_DEF, D_ERR_EL, D_ERR_EL_DEF, D_SQ, D_SQ_DEF, D_SQ_EL, D_SQ_EL_DEF, D_EIG, D_EIG_EL, D_EIG_DEF, D_EIG_EL_DEF,
    D_NORM, D_NORM_DEF, D_DEFNORM, D_SOL, D_SOLVEC, D_NDOFS, D_COUNT };
extern const char * dopName[D_COUNT];
struct DOp { int kind,a,b; DOp(int k=0,int a_=0,int b_=0):kind(k),a(a_),b(b_){} std::string text() const; };
struct DScen {               // fields the estimator is applied to, on top of a scenario
    const Scen & sc; gsMultiBasis<real_t> mbH;
    gsMultiPatch<real_t> primal[2], dualL[2], dualH[2];
    gsBoxTopology::bContainer bnds;
    explicit DScen(const Scen & s);
    std::shared_ptr<Dwr> makeBare() const;
    void configure(Dwr & d) const;
    std::shared_ptr<Dwr> make() const;
    std::string fingerprint() const;
};
bool dopApplies(const Spec & s,const DOp & op);
DOp  randomDOp(sim::Rng & r,const Spec & s,int group=0);   // group 1: estimates and functionals only
Outcome runDOp(Dwr & D,const DScen & ds,const DOp & op);
