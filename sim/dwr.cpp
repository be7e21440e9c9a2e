#include "dwr.h"
#include <sstream>
using sim::Rng;
const char * dopName[D_COUNT]={"assemble","assembleMatrix","assembleMatrix(def)","assembleMass","assemblePrimal","assemblePrimal(def)","assembleDual","assembleDual(def)","assembleDual(boundaries)","assembleDual(points)",
 "computeGoal","computeGoal(boundaries)","computeGoal(points)","computeError","computeError(def)","computeErrorElements","computeErrorElements(def)","computeSquaredError","computeSquaredError(def)","computeSquaredErrorElements","computeSquaredErrorElements(def)",
 "computeErrorEig","computeErrorEigElements","computeErrorEig(def)","computeErrorEigElements(def)","matrixNorm","matrixNorm(def)","deformationNorm","constructSolution","constructSolutionVector","numDofs"};
std::string DOp::text() const { std::ostringstream o; o<<"dwr."<<dopName[kind]<<"#"<<a<<","<<b; return o.str(); }

static gsMultiPatch<real_t> field(const gsMultiPatch<real_t> & topo,const gsMultiBasis<real_t> & mb,int d,double amp,uint64_t seed)
{
    Rng r(seed*53+3); gsMultiPatch<real_t> f;
    for(size_t p=0;p<mb.nBases();p++){ gsMatrix<real_t> C(mb.basis(p).size(),d); for(index_t i=0;i<C.rows();i++) for(int j=0;j<d;j++) C(i,j)=r.range(-amp,amp); f.addPatch(mb.basis(p).makeGeometry(give(C))); }
    f.computeTopology(); (void)topo; return f;
}
DScen::DScen(const Scen & s):sc(s)
{
    mbH=sc.mb; if(sc.s.seed%2) mbH.degreeElevate(1); else mbH.uniformRefine();
    for(int k=0;k<2;k++){ primal[k]=field(sc.mp,sc.mb,sc.d,0.02,sc.s.seed*7+k); dualL[k]=field(sc.mp,sc.mb,sc.d,1.0,sc.s.seed*7+2+k); dualH[k]=field(sc.mp,mbH,sc.d,1.0,sc.s.seed*7+4+k); }
    bnds.push_back(patchSide(0,boundary::south)); bnds.push_back(patchSide(sc.s.npatch-1,boundary::east));
}
std::shared_ptr<Dwr> DScen::makeBare() const
{
    Material_t * m=sc.mats[0].get(); const Spec & s=sc.s;
    if(s.kind==BENDING)  return std::shared_ptr<Dwr>(new gsThinShellAssemblerDWR<3,real_t,true >(sc.mp,sc.mb,mbH,sc.bc,*sc.force,m));
    if(s.kind==MEMBRANE) return std::shared_ptr<Dwr>(new gsThinShellAssemblerDWR<3,real_t,false>(sc.mp,sc.mb,mbH,sc.bc,*sc.force,m));
    return std::shared_ptr<Dwr>(new gsThinShellAssemblerDWR<2,real_t,false>(sc.mp,sc.mb,mbH,sc.bc,*sc.force,m));
}
void DScen::configure(Dwr & D) const
{
    for(int k=0;k<2;k++){ gsOptionList & o=k?D.optionsH():D.optionsL(); o.setInt("ExprAssembler.quB",0); o.setReal("ExprAssembler.quA",1.0); o.setReal("WeakDirichlet",20); o.setReal("WeakClamped",15); }
    if(sc.s.pressure) D.setPressure(*sc.press);
    if(sc.s.foundation && sc.d==3) D.setFoundation(*sc.found);
    if(sc.s.ploads) D.setPointLoads(sc.loads);
    static const GoalFunction g[]={GoalFunction::Displacement,GoalFunction::Stretch,GoalFunction::PStrain,GoalFunction::PStress,GoalFunction::MembraneStrain,GoalFunction::MembraneStress,GoalFunction::MembraneForce,GoalFunction::FlexuralStrain,GoalFunction::FlexuralStress,GoalFunction::FlexuralMoment};
    int n=sc.s.kind==BENDING?10:7; if(sc.d==2) n=1;
    int k=(int)(sc.s.seed/2%n); D.setGoal(g[k],9);
    if((sc.s.seed/20)%2 && sc.d==3) D.setGoal(g[k],(short_t)(sc.s.seed%2));
}
std::shared_ptr<Dwr> DScen::make() const { std::shared_ptr<Dwr> D=makeBare(); configure(*D); return D; }
std::string DScen::fingerprint() const { std::ostringstream o; for(int k=0;k<2;k++) o<<"primal"<<k<<":"<<fpMP(primal[k])<<"\ndualL"<<k<<":"<<fpMP(dualL[k])<<"\ndualH"<<k<<":"<<fpMP(dualH[k])<<"\n"; o<<"basisH:"; for(size_t p=0;p<mbH.nBases();p++) o<<mbH.basis(p).size()<<';'; o<<"\n"; return o.str(); }

bool dopApplies(const Spec & s,const DOp & op)
{
    bool b=s.kind==BENDING, plain=s.mat!=M_COMPOSITE && !s.tft;
    switch(op.kind){
    case D_DUAL: case D_DUAL_DEF: case D_DUAL_BND: case D_DUAL_PTS: case D_GOAL: case D_GOAL_BND: case D_GOAL_PTS: return plain;
    case D_EIG: case D_EIG_EL: case D_EIG_DEF: case D_EIG_EL_DEF: case D_NORM: case D_NORM_DEF: return b && plain;
    default: return true; }
}
DOp randomDOp(Rng & r,const Spec & s,int group)
{
    for(;;){ int k=group==1?D_GOAL+(int)r.below(D_DEFNORM-D_GOAL+1):(int)r.below(D_COUNT); DOp op(k,(int)r.below(3),(int)r.below(64)); if(dopApplies(s,op)) return op; }
}
static int st(ThinShellAssemblerStatus s){ return s==ThinShellAssemblerStatus::Success?0:1; }
static void addv(Outcome & o,const std::vector<real_t> & v){ o.add((double)v.size()); for(size_t i=0;i<v.size();i++) o.add(v[i]); }
Outcome runDOp(Dwr & D,const DScen & ds,const DOp & op)
{
    Outcome o; const Scen & sc=ds.sc; const gsMultiPatch<real_t> & def=sc.def[op.a%3]; int k=op.b&1; bool H=(op.b>>1)&1, wl=(op.b>>2)&1;
    const gsMultiPatch<real_t> & pr=ds.primal[k],& zL=ds.dualL[k],& zH=ds.dualH[(op.b>>3)&1];
    gsMatrix<real_t> pts=sc.points(op.b,2);
    try{
        switch(op.kind){
        case D_ASM:        o.status=st(H?D.assembleH():D.assembleL()); if(!o.status){ o.add(H?D.matrixH():D.matrixL()); o.add(gsMatrix<real_t>(H?D.primalH():D.primalL())); } break;
        case D_MAT_LIN:    o.status=st(H?D.assembleMatrixH():D.assembleMatrixL()); if(!o.status) o.add(H?D.matrixH():D.matrixL()); break;
        case D_MAT_DEF:    o.status=st(H?D.assembleMatrixH(def):D.assembleMatrixL(def)); if(!o.status) o.add(H?D.matrixH():D.matrixL()); break;
        case D_MASS:       o.status=st(H?D.assembleMassH():D.assembleMassL()); if(!o.status) o.add(H?D.massH():D.massL()); break;
        case D_PRIMAL:     o.status=st(H?D.assemblePrimalH():D.assemblePrimalL()); if(!o.status) o.add(gsMatrix<real_t>(H?D.primalH():D.primalL())); break;
        case D_PRIMAL_DEF: o.status=st(H?D.assemblePrimalH(def):D.assemblePrimalL(def)); if(!o.status) o.add(gsMatrix<real_t>(H?D.primalH():D.primalL())); break;
        case D_DUAL:       o.status=st(H?D.assembleDualH(pr):D.assembleDualL(pr)); if(!o.status) o.add(gsMatrix<real_t>(H?D.dualH():D.dualL())); break;
        case D_DUAL_DEF:   o.status=st(H?D.assembleDualH(pr,def):D.assembleDualL(pr,def)); if(!o.status) o.add(gsMatrix<real_t>(H?D.dualH():D.dualL())); break;
        case D_DUAL_BND:   o.status=st(H?D.assembleDualH(ds.bnds,pr,def):D.assembleDualL(ds.bnds,pr,def)); if(!o.status) o.add(gsMatrix<real_t>(H?D.dualH():D.dualL())); break;
        case D_DUAL_PTS:   o.status=st(H?D.assembleDualH(pts,pr,def):D.assembleDualL(pts,pr,def)); if(!o.status) o.add(gsMatrix<real_t>(H?D.dualH():D.dualL())); break;
        case D_GOAL:       o.add(D.computeGoal(def)); break;
        case D_GOAL_BND:   o.add(D.computeGoal(ds.bnds,def)); break;
        case D_GOAL_PTS:   o.add(D.computeGoal(pts,def)); break;
        case D_ERR:        o.add(D.computeError(zL,zH,wl)); break;
        case D_ERR_DEF:    o.add(D.computeError(zL,zH,def,wl)); break;
        case D_ERR_EL:     addv(o,D.computeErrorElements(zL,zH,wl)); break;
        case D_ERR_EL_DEF: addv(o,D.computeErrorElements(zL,zH,def,wl)); break;
        case D_SQ:         o.add(D.computeSquaredError(zL,zH,wl)); break;
        case D_SQ_DEF:     o.add(D.computeSquaredError(zL,zH,def,wl)); break;
        case D_SQ_EL:      addv(o,D.computeSquaredErrorElements(zL,zH,wl)); break;
        case D_SQ_EL_DEF:  addv(o,D.computeSquaredErrorElements(zL,zH,def,wl)); break;
        case D_EIG:        o.add(D.computeErrorEig(1.1,1.2,1.3,zL,zH,pr)); break;
        case D_EIG_EL:     addv(o,D.computeErrorEigElements(1.1,1.2,1.3,zL,zH,pr)); break;
        case D_EIG_DEF:    o.add(D.computeErrorEig(1.1,1.2,1.3,zL,zH,pr,def)); break;
        case D_EIG_EL_DEF: addv(o,D.computeErrorEigElements(1.1,1.2,1.3,zL,zH,pr,def)); break;
        case D_NORM:       o.add(D.matrixNorm(pr,zL)); break;
        case D_NORM_DEF:   o.add(D.matrixNorm(pr,zL,def)); break;
        case D_DEFNORM:    o.add(D.deformationNorm(def,sc.mp)); break;
        case D_SOL:        { index_t n=H?D.numDofsH():D.numDofsL(); gsMatrix<real_t> v=sc.solVector(n,op.b,0.1); o.add(H?D.constructSolutionH(v):D.constructSolutionL(v)); o.add(H?D.constructDisplacementH(v):D.constructDisplacementL(v)); gsMultiPatch<real_t> g; if(H) D.constructMultiPatchH(v,g); else D.constructMultiPatchL(v,g); o.add(g); } break;
        case D_SOLVEC:     o.add(gsMatrix<real_t>(D.constructSolutionVectorL(def))); break;
        case D_NDOFS:      o.add(D.numDofsL()); o.add(D.numDofsH()); break;
        }
    }
    catch(const std::exception & e){ o.threw=true; o.what=e.what(); o.v.clear(); }
    catch(...){ o.threw=true; o.what="non-standard exception"; o.v.clear(); }
    return o;
}
