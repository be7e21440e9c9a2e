#include "hist.h"
#include <sstream>
#include <cmath>
using sim::Rng;

static const char * cfgName[K_COUNT]={"setPressure","setFoundation","setPointLoads","updateBCs","setGeometry","setBasis","setOptions","options()","coupling","continuity","setSpaceBasis"};
static const char * dcfgName[DK_COUNT]={"setPointLoads","updateBCs","setUndeformed","setOptions","setGoal","setBasisH","setPressure","setFoundation"};
static const char * copyName[]={"copy-construct","copy-assign","move-construct","move-assign","self-assign"};
static const char * evName[]={"MatrixA","MatrixB","MatrixD","VectorN","VectorM","Density","Stretch","StretchDir","PStressN","Strain","Stress","CauchyVectorN","PStrainN","Thickness"};
enum { NEV=14 };
std::string Step::text() const
{
    std::ostringstream o;
    switch(t){
    case T_NEW: o<<"A"<<slot<<"=new"<<(a?"(own materials)":""); break;
    case T_OP: o<<"A"<<slot<<"."<<Op(a,b,c).text(); break;
    case T_CFG: o<<"A"<<slot<<"."<<cfgName[a]<<"("<<b<<")"; break;
    case T_COPY: o<<"A"<<slot<<" "<<copyName[b]<<" A"<<a; break;
    case T_DEL: o<<"delete A"<<slot; break;
    case T_DNEW: o<<"D"<<slot<<"=new"; break;
    case T_DOP: o<<"D"<<slot<<"."<<DOp(a,b,c).text(); break;
    case T_DCFG: o<<"D"<<slot<<"."<<dcfgName[a]<<"("<<b<<")"; break;
    case T_DCOPY: o<<"D"<<slot<<" "<<copyName[b]<<" D"<<a; break;
    case T_DDEL: o<<"delete D"<<slot; break;
    case T_MATCFG: { static const char*w[]={"setThickness","setParameter","setDensity","NumGauss"}; o<<"M"<<slot<<"."<<w[a]<<"("<<b<<")"; } break;
    case T_MAT: o<<"M"<<slot<<"."<<matEvalName(a)<<" patch "<<b%8<<" geometry "<<b/8<<" points "<<c; break;
    case T_EV: o<<"evaluator "<<evName[a]<<((c>>8)&1?"/z":"")<<" patch "<<b%8<<" geometry "<<b/8<<" points "<<(c&255); break;
    case T_CLONE: o<<"M"<<slot<<"=M"<<a<<".clone()"; break;
    case T_MDEL: o<<"delete M"<<slot; break;
    case T_GEOMUT: { static const char*w[]={"geometry","geometryAlt","deformed0","deformed1","deformed2"}; o<<"change "<<w[slot]<<" in place"; } break;
    }
    if(fault>=0){ o<<" !"<<seamName[fault]<<"@"<<at<<"/"<<mode; }
    return o.str();
}
static void tx(std::ostringstream&o,const std::vector<MatCfg>&v){ for(auto&m:v) o<<"["<<m.th<<m.E<<m.rho<<m.ng<<"]"; }
std::string RefKey::text() const
{
    std::ostringstream o; Step q=s; q.fault=-1; q.slot=(type==T_MAT?s.slot:0); o<<type<<"|"<<q.text()<<"|"<<s.a<<","<<s.b<<","<<s.c<<"|";
    if(type==T_OP||type==T_CFG||type==T_COPY){ o<<a.own<<a.geo<<a.basis<<a.space<<a.bc<<a.press<<a.found<<a.loads<<a.opt<<a.coup; }
    if(type==T_DOP||type==T_DCFG||type==T_DCOPY) o<<d.geo<<d.bc<<d.press<<d.found<<d.loads<<d.opt<<d.goal<<"_"<<d.comp<<d.bH;
    tx(o,mats); for(int i=0;i<5;i++) o<<(i?",":"|")<<gv[i]; return o.str();
}

// ------------------------------------------------------------------ model
Model::Model(const Spec & sp):s(sp){ nm=s.container?s.npatch:1; M.resize(NM); for(int i=0;i<5;i++) gv[i]=0; for(int i=0;i<NM;i++) mAlive[i]=i<nm; }
ACfg Model::initial() const { ACfg c; c.alive=true; c.press=s.pressure&&s.dim()==3?1:0; c.found=s.foundation&&s.dim()==3?1:0; c.loads=s.ploads?1:0; c.coup=s.coupling; return c; }
DCfg Model::dinitial() const { DCfg c; c.alive=true; c.press=s.pressure?1:0; c.found=s.foundation&&s.dim()==3?1:0; c.loads=s.ploads?1:0; int n=s.kind==BENDING?10:7; if(s.dim()==2) n=1; c.goal=(int)(s.seed/2%n); c.comp=((s.seed/20)%2&&s.dim()==3)?(int)(s.seed%2):9; return c; }
static bool opOnCfg(const ACfg & c,int kind)
{   // operations that need the geometry and the basis to have the same size
    if((c.space?c.space==2:c.basis==1) || c.basis==1) switch(kind){ case O_DISPL: case O_UPDATE_MP: case O_MIP_SOL: case O_SOLVEC: case O_SOLUTION: case O_FULLVEC: case O_ASSEMBLE_SOL: case O_MATRIX_SOL: case O_VECTOR_SOL: case O_MIP: return false; }
    if((kind==O_FOUNDATION||kind==O_FOUND_VEC) && !c.found) return false;
    return true;
}
static bool dopOnCfg(const DCfg & c,int kind){ if(c.bH) switch(kind){ case D_SOL: return false; } return true; }
bool Model::key(const Step & st,RefKey & k) const
{
    k.s=st; k.s.fault=-1; k.type=st.t; k.mats.assign(M.begin(),M.begin()+nm); for(int i=0;i<5;i++) k.gv[i]=gv[i];
    if(st.t==T_OP){ if(!A[st.slot].alive||!opOnCfg(A[st.slot],st.a)) return false; k.a=A[st.slot]; if(k.a.own){ k.mats=k.a.mats; } return true; }
    if(st.t==T_DOP){ if(!D[st.slot].alive||!dopOnCfg(D[st.slot],st.a)) return false; k.d=D[st.slot]; return true; }
    if(st.t==T_MAT){ if(!mAlive[st.slot]) return false; if(st.slot>=nm) k.mats.assign(1,M[st.slot]); return true; }
    if(st.t==T_EV) { return true; }
    return false;
}
// A setting that acts on an operation must change its result.  Only pairs for which that follows
// from the meaning of the setting are listed.
bool Model::effectKey(const Step & st,uint64_t pick,RefKey & k,std::string & what) const
{
    if(!key(st,k)) return false; const bool three=s.dim()==3;
    if(st.t==T_OP){
        const int o=st.a; const bool lin=o==O_ASSEMBLE, rhs=lin||o==O_ASSEMBLE_DEF||o==O_VECTOR_DEF||o==O_RESIDUAL, mat=lin||o==O_ASSEMBLE_DEF||o==O_MATRIX_DEF;
        ACfg & c=k.a; const int w=(int)(pick%9);
        switch(w){
        case 0: if(rhs&&c.press&&three){ c.press=3-c.press; what="pressure"; return true; } break;
        case 1: if(mat&&c.found&&three){ c.found=3-c.found; what="foundation"; return true; } break;
        case 2: if(rhs){ c.loads=c.loads==2?1:2; what="point loads"; return true; } break;
        case 3: if(lin){ c.bc=(c.bc+1+(int)(pick/9%2))%3; what="boundary conditions"; return true; } break;
        case 4: if((lin||o==O_MASS)&&!s.physLoads){ c.geo=1-c.geo; what="geometry"; return true; } break;
        case 5: if(c.space==0&&(lin||o==O_NDOFS||o==O_MASS)){ c.basis=1-c.basis; what="basis"; return true; } if(c.space&&(o==O_NDOFS||o==O_MASS)){ c.space=c.space==2?1:2; what="basis of the space"; return true; } break;
        case 6: if(mat&&c.opt<2&&(c.coup==1||c.coup==2)){ c.opt=1-c.opt; what="options"; return true; } break;
        case 7: if(mat||o==O_NDOFS){ if(c.coup==0||c.coup==3){ if(s.npatch<2) break; c.coup=3-c.coup; what="coupling"; return true; } if(s.kind==BENDING&&mat){ c.coup=3-c.coup; what="coupling"; return true; } } break;
        case 8: { if(s.mat==M_COMPOSITE||s.tft) break; size_t i=(pick/9)%k.mats.size(); MatCfg & m=k.mats[i]; int z=(int)(pick/90%2);
                  if(o==O_MASS){ if(z) m.rho=(m.rho+1)%3; else m.th=(m.th+1)%3; what="density or thickness of a material"; return true; }
                  if(mat){ if(z&&s.mat!=M_OG&&s.matAlt!=M_OG) m.E=(m.E+1)%3; else m.th=(m.th+1)%3; what="stiffness or thickness of a material"; return true; } } break;
        }
    }
    if(st.t==T_DOP){
        DCfg & c=k.d; const int o=st.a;
        switch(pick%5){
        case 4: if((o==D_ASM||o==D_PRIMAL)&&s.dim()==3){ c.press=c.press==2?1:2; what="pressure of the estimator"; return true; } break;
        case 0: if(o==D_ASM||o==D_PRIMAL){ c.loads=c.loads==2?1:2; what="point loads of the estimator"; return true; } break;
        case 1: if(o==D_ASM){ c.bc=(c.bc+1+(int)(pick/9%2))%3; what="boundary conditions of the estimator"; return true; } break;
        case 2: if((o==D_ASM||o==D_MASS||o==D_MAT_LIN)&&!s.physLoads){ c.geo=1-c.geo; what="geometry of the estimator"; return true; } break;
        case 3: if(o==D_NDOFS||(((st.c>>1)&1)&&(o==D_ASM||o==D_MASS||o==D_MAT_LIN))){ c.bH=1-c.bH; what="enriched basis of the estimator"; return true; } break;
        }
    }
    return false;
}
bool Model::faultKey(const Step & st,RefKey & k) const
{
    if(key(st,k)) return true;
    switch(st.t){
    case T_NEW: k.a=initial(); return true; case T_DNEW: k.d=dinitial(); return true;
    case T_CFG: if(!A[st.slot].alive) return false; k.a=A[st.slot]; if(k.a.own) k.mats=k.a.mats; return true;
    case T_COPY: if(st.b==4||st.a==st.slot||!A[st.a].alive) return false; k.a=A[st.a]; if(k.a.own) k.mats=k.a.mats; return true;
    case T_DCFG: if(!D[st.slot].alive) return false; k.d=D[st.slot]; return true;
    case T_DCOPY: if(st.b==4||st.a==st.slot||!D[st.a].alive) return false; k.d=D[st.a]; return true; }
    return false;
}
bool Model::valid(const Case & c)
{
    for(size_t i=0;i<c.steps.size();i++){ const Step & s=c.steps[i]; if(c.dropped.count((int)i)||s.fault<0||(s.t!=T_CFG&&s.t!=T_DCFG)) continue;
        if(i+1>=c.steps.size()||c.dropped.count((int)i+1)) return false; }
    Model m(c.spec);
    for(size_t i=0;i<c.steps.size();i++){ const Step & s=c.steps[i]; if(c.dropped.count((int)i)) continue; RefKey k;
        if(s.t==T_OP&&m.A[s.slot].alive&&!m.key(s,k)) return false; if(s.t==T_DOP&&m.D[s.slot].alive&&!m.key(s,k)) return false; m.apply(s,s.fault>=0&&s.at>0); }
    return true;
}
void Model::apply(const Step & q,bool fired)
{
    if(fired && (q.t==T_NEW||q.t==T_DNEW)){ if(q.t==T_NEW) A[q.slot]=ACfg(); else D[q.slot]=DCfg(); return; }   // there is no object
    if(fired && (q.t==T_COPY||q.t==T_DCOPY)){ if(q.t==T_COPY&&(q.b==2||q.b==3)) A[q.a]=ACfg(); return; }
    switch(q.t){
    case T_NEW: A[q.slot]=initial(); A[q.slot].own=q.a; if(q.a) A[q.slot].mats.assign(M.begin(),M.begin()+nm); break;
    case T_CFG: { ACfg&c=A[q.slot]; if(!c.alive) break; switch(q.a){ case K_PRESS:c.press=q.b;break; case K_FOUND:c.found=q.b;break; case K_LOADS:c.loads=q.b;break; case K_BC:c.bc=q.b;break; case K_GEO:c.geo=q.b;break; case K_BASIS:c.basis=q.b;break; case K_OPT: case K_OPTREF:c.opt=q.b;break; case K_COUP: case K_CONT:c.coup=q.b;break; case K_SPACE:c.space=q.b;break; } } break;
    case T_COPY: { if(q.b==4) break; if(!A[q.a].alive||q.a==q.slot) break; A[q.slot]=A[q.a]; if(q.b>=2) A[q.a]=ACfg(); } break;
    case T_DEL: A[q.slot]=ACfg(); break;
    case T_DNEW: D[q.slot]=dinitial(); break;
    case T_DCFG: { DCfg&c=D[q.slot]; if(!c.alive) break; switch(q.a){ case DK_LOADS:c.loads=q.b;break; case DK_BC:c.bc=q.b;break; case DK_GEO:c.geo=q.b;break; case DK_OPT:c.opt=q.b;break; case DK_GOAL:c.goal=q.b/16;c.comp=q.b%16;break; case DK_BASISH:c.bH=q.b;break; case DK_PRESS:c.press=q.b;break; case DK_FOUND:c.found=q.b;break; } } break;
    case T_DCOPY: if(q.b==4||!D[q.a].alive||q.a==q.slot) break; D[q.slot]=D[q.a]; break;
    case T_DDEL: D[q.slot]=DCfg(); break;
    case T_MATCFG: { MatCfg&m=M[q.slot]; if(!mAlive[q.slot]) break; switch(q.a){ case 0:m.th=q.b;break; case 1:m.E=q.b;break; case 2:m.rho=q.b;break; case 3:m.ng=q.b;break; } } break;
    case T_CLONE: if(mAlive[q.a]&&q.slot>=nm&&q.slot!=q.a){ M[q.slot]=M[q.a]; mAlive[q.slot]=true; } break;
    case T_MDEL: if(q.slot>=nm) mAlive[q.slot]=false; break;
    case T_GEOMUT: gv[q.slot]++; break;
    }
}

// ------------------------------------------------------------------ world
World::World(const Spec & s,bool dwr):sc(s),spec(s){ { index_t n=0; for(size_t p=0;p<sc.mb.nBases();p++) n+=sc.mb.basis(p).size(); gsSparseMatrix<real_t> I(n,n); I.setIdentity(); mapped.init(sc.mb,I); } nm=s.container?s.npatch:1; clones.resize(NM); if(dwr){ ds.reset(new DScen(sc)); mbH2=ds->mbH; mbH2.uniformRefine(); } }
World::~World(){ for(auto&a:A) a.reset(); for(auto&d:D) d.reset(); }
Material_t * World::mat(int slot) const { return slot<nm?sc.mats[slot].get():clones[slot].get(); }
static UFun & scaled(const UFun & ){ static UFun u; return u; }
void World::setMat(Material_t & m,int idx,const MatCfg & c,int what)
{
    (void)scaled; bool odd=idx%2; const int d=sc.d;
    // the functions the caller hands over are temporaries: the material must keep what it needs
    if(what<0||what==0){ double f[3]={1,1.4,0.7}; if(what==0||c.th){ const UFun & b=odd?*sc.thick2:*sc.thick; UFun u(d,{0.05*f[c.th]*(odd?1.5:1)},0.1,S_THICK,spec.seed+700+c.th); if(c.th) m.setThickness(u); else m.setThickness(b); } }
    if(what<0||what==1){ double f[3]={1,1.6,2.3}; if(what==1||c.E){ const UFun & b=odd?*sc.E2:*sc.E; UFun u(d,{2.0*f[c.E]},0.1,S_PAR,spec.seed+710+c.E); if(c.E) m.setParameter(0,u); else m.setParameter(0,b); } }
    if(what<0||what==2){ if(what==2||c.rho){ UFun u(d,{1.0+0.8*c.rho},0.2,S_RHO,spec.seed+720+c.rho); if(c.rho) m.setDensity(u); else m.setDensity(*sc.rho); } }
    if(what<0||what==3){ if(what==3||c.ng) m.options().setInt("NumGauss",spec.ngauss+1+c.ng); }
}
void World::applyMats(const std::vector<MatCfg> & v){ for(size_t i=0;i<v.size()&&i<sc.mats.size();i++) if(!(v[i]==MatCfg())) setMat(*sc.mats[i],(int)i,v[i]); }

static const gsMultiPatch<real_t> & geoOf(const Scen & sc,int g){ return g?sc.mpAlt:sc.mp; }
static void setOpts(gsOptionList & o,int v,const Spec & s)
{
    double pen[3]={10,30,10},wd[3]={20,40,20},wc[3]={15,25,15};
    o.setInt("ExprAssembler.quB",v==2?1:0); o.setReal("ExprAssembler.quA",s.deg>2?0.7:1.0);
    o.setReal("IfcPenalty",pen[v]); o.setReal("WeakDirichlet",wd[v]); o.setReal("WeakClamped",wc[v]);
}
static gsOptionList optList(int v,const Spec & s)
{
    gsOptionList o; double pen[3]={10,30,10},wd[3]={20,40,20},wc[3]={15,25,15};
    o.addInt("ExprAssembler.quB","",v==2?1:0); o.addReal("ExprAssembler.quA","",s.deg>2?0.7:1.0);
    o.addReal("IfcPenalty","",pen[v]); o.addReal("WeakDirichlet","",wd[v]); o.addReal("WeakClamped","",wc[v]); return o;
}
static void setCoupling(Assembler & a,const Scen & sc,int c)
{
    const gsBoxTopology::ifContainer all=sc.mp.topology().interfaces(),none;
    if(c==1){ a.addWeakC0(all); a.addWeakC1(none); } else if(c==2){ a.addWeakC0(all); a.addWeakC1(all); } else return;
    a.initInterfaces();
}
void World::cfg(Assembler & a,int what,int val)
{
    static const gsPointLoads<real_t> noloads;
    switch(what){
    case K_PRESS: a.setPressure(val==2?*sc.pressAlt:*sc.press); break;
    case K_FOUND: a.setFoundation(val==2?*sc.foundAlt:*sc.found); break;
    case K_LOADS: a.setPointLoads(val==0?noloads:val==1?sc.loads:sc.loadsAlt); break;
    case K_BC: a.updateBCs(sc.bcOf(val)); break;
    case K_GEO: if(val) a.setUndeformed(sc.mpAlt); else a.setGeometry(sc.mp); break;
    case K_BASIS: a.setBasis(val?sc.mbAlt:sc.mb); break;
    case K_OPT: { gsOptionList o=optList(val,spec); a.setOptions(o); } break;
    case K_OPTREF: setOpts(a.options(),val,spec); break;
    case K_COUP: setCoupling(a,sc,val); break;
    case K_CONT: { gsOptionList o; o.addInt("Continuity","",val==3?0:-1); a.setOptions(o); } break;
    case K_SPACE: a.setSpaceBasis(spaceOf(val)); break;
    }
}
void World::dcfg(Dwr & D,int what,int val)
{
    static const gsPointLoads<real_t> noloads;
    static const GoalFunction g[]={GoalFunction::Displacement,GoalFunction::Stretch,GoalFunction::PStrain,GoalFunction::PStress,GoalFunction::MembraneStrain,GoalFunction::MembraneStress,GoalFunction::MembraneForce,GoalFunction::FlexuralStrain,GoalFunction::FlexuralStress,GoalFunction::FlexuralMoment};
    switch(what){
    case DK_LOADS: D.setPointLoads(val==0?noloads:val==1?sc.loads:sc.loadsAlt); break;
    case DK_BC: D.updateBCs(sc.bcOf(val)); break;
    case DK_GEO: D.setUndeformed(val?sc.mpAlt:sc.mp); break;
    case DK_OPT: { gsOptionList o=optList(val,spec); D.setOptions(o); } break;
    case DK_GOAL: D.setGoal(g[val/16],(short_t)(val%16)); break;
    case DK_BASISH: D.setBasisH(val?mbH2:ds->mbH); break;
    case DK_PRESS: D.setPressure(val==2?*sc.pressAlt:*sc.press); break;
    case DK_FOUND: D.setFoundation(val==2?*sc.foundAlt:*sc.found); break;
    }
}
template<class S> static std::shared_ptr<Assembler> mk(const Scen & sc,const ACfg & c,const gsMaterialMatrixContainer<real_t> * own)
{
    const gsMultiPatch<real_t> & g=geoOf(sc,c.geo); const gsMultiBasis<real_t> & b=c.basis?sc.mbAlt:sc.mb; const gsBoundaryConditions<real_t> & bc=sc.bcOf(c.bc);
    if(own) return std::shared_ptr<Assembler>(new S(g,b,bc,*sc.force,*own));
    if(sc.s.container) return std::shared_ptr<Assembler>(new S(g,b,bc,*sc.force,sc.cont));
    return std::shared_ptr<Assembler>(new S(g,b,bc,*sc.force,sc.mats[0].get()));
}
static std::shared_ptr<Assembler> mkA(const Scen & sc,const ACfg & c,const gsMaterialMatrixContainer<real_t> * own)
{
    if(sc.s.kind==BENDING)  return mk<gsThinShellAssembler<3,real_t,true > >(sc,c,own);
    if(sc.s.kind==MEMBRANE) return mk<gsThinShellAssembler<3,real_t,false> >(sc,c,own);
    return mk<gsThinShellAssembler<2,real_t,false> >(sc,c,own);
}
static void configureA(World & w,Assembler & a,const ACfg & c,void (World::*)(Assembler&,int,int))
{
    setOpts(a.options(),c.opt,w.spec);
    if(c.coup==3){ gsOptionList o; o.addInt("Continuity","",0); a.setOptions(o); }
    setCoupling(a,w.sc,c.coup);
    if(c.space) a.setSpaceBasis(w.spaceOf(c.space));
    if(c.press) a.setPressure(c.press==2?*w.sc.pressAlt:*w.sc.press);
    if(c.found) a.setFoundation(c.found==2?*w.sc.foundAlt:*w.sc.found);
    if(c.loads) a.setPointLoads(c.loads==1?w.sc.loads:w.sc.loadsAlt);
}
std::shared_ptr<Assembler> World::build(const ACfg & c)
{
    std::shared_ptr<Assembler> a;
    if(c.own){ gsMaterialMatrixContainer<real_t> k; for(int p=0;p<spec.npatch;p++) k.add(*sc.mats[spec.container?p:0]); a=mkA(sc,c,&k); }
    else a=mkA(sc,c,nullptr);
    configureA(*this,*a,c,nullptr); return a;
}
std::shared_ptr<Dwr> World::buildD(const DCfg & c)
{
    Material_t * m=sc.mats[0].get(); const gsMultiPatch<real_t> & g=geoOf(sc,c.geo); const gsMultiBasis<real_t> & bH=c.bH?mbH2:ds->mbH; const gsBoundaryConditions<real_t> & bc=sc.bcOf(c.bc); std::shared_ptr<Dwr> D;
    if(spec.kind==BENDING)  D.reset(new gsThinShellAssemblerDWR<3,real_t,true >(g,sc.mb,bH,bc,*sc.force,m));
    else if(spec.kind==MEMBRANE) D.reset(new gsThinShellAssemblerDWR<3,real_t,false>(g,sc.mb,bH,bc,*sc.force,m));
    else D.reset(new gsThinShellAssemblerDWR<2,real_t,false>(g,sc.mb,bH,bc,*sc.force,m));
    setOpts(D->optionsL(),c.opt,spec); setOpts(D->optionsH(),c.opt,spec);
    if(c.press) D->setPressure(c.press==2?*sc.pressAlt:*sc.press);
    if(c.found) D->setFoundation(c.found==2?*sc.foundAlt:*sc.found);
    if(c.loads) D->setPointLoads(c.loads==1?sc.loads:sc.loadsAlt);
    dcfg(*D,DK_GOAL,c.goal*16+c.comp);
    return D;
}
void World::fresh(const RefKey & k)
{
    for(int g=0;g<5;g++) for(int n=0;n<k.gv[g];n++) sc.mutate(g);
    if(k.type==T_OP||k.type==T_CFG){ ACfg c=k.a; c.own=false; A[0]=build(c); }
    if(k.type==T_DOP||k.type==T_DCFG) D[0]=buildD(k.d);
    if(k.type==T_COPY){ ACfg c=k.a; c.own=false; A[k.s.a]=build(c); }
    if(k.type==T_DCOPY) D[k.s.a]=buildD(k.d);
}
Outcome World::runFresh(const RefKey & k)
{
    Step s=k.s; if(k.type==T_OP||k.type==T_DOP||k.type==T_CFG||k.type==T_DCFG) s.slot=0;
    if(k.type==T_MAT && s.slot>=nm){   // a clone: evaluated on a fresh original with the clone's settings
        std::shared_ptr<Material_t> m; Outcome o; int src=0; try { m=sc.makeMaterial(src,sc.mp); MatCfg c=k.mats[0]; if(!(c==MatCfg())) setMat(*m,src,c); } catch(...) { o.threw=true; return o; } return evalMat(*m,s); }
    return run(s);
}
static gsMatrix<real_t> heights(uint64_t seed,int n){ Rng r(seed*91+3); int h=1+(int)r.below(2); gsMatrix<real_t> z(h,n); for(int i=0;i<h;i++) for(int j=0;j<n;j++) z(i,j)=r.range(-0.02,0.02); return z; }
Outcome World::evalMat(Material_t & m,const Step & s)
{
    Outcome o; int patch=s.b%8,g=s.b/8; gsMatrix<real_t> u=sc.points(s.c,1+s.c%3),r;
    const gsMultiPatch<real_t> * und=(g&4)?&sc.mpAlt:&sc.mp,* def=&sc.def[(g&3)%3];
    try { m.setUndeformed(und); m.setDeformed(def); r=matEval(m,s.a,patch,u,heights(s.c,u.cols())); o.add(r); }
    catch(const std::exception&e){ o.threw=true; o.what=e.what(); } catch(...){ o.threw=true; o.what="non-standard exception"; }
    return o;
}
template<enum MaterialOutput out> static void ev(bool z,const gsMaterialMatrixContainer<real_t>&c,const gsMultiPatch<real_t>&a,const gsMultiPatch<real_t>&b,int patch,const gsMatrix<real_t>&u,double zz,gsMatrix<real_t>&r)
{
    if(z){ gsMatrix<real_t> zm(1,1); zm(0,0)=zz; gsMaterialMatrixEval<real_t,out> f(c,&a,&b,zm); f.piece(patch).eval_into(u,r); }
    else { gsMaterialMatrixIntegrate<real_t,out> f(c,&a,&b); f.piece(patch).eval_into(u,r); }
}
template<enum MaterialOutput out> static void evZ(const gsMaterialMatrixContainer<real_t>&c,const gsMultiPatch<real_t>&a,const gsMultiPatch<real_t>&b,int patch,const gsMatrix<real_t>&u,double zz,gsMatrix<real_t>&r)
{ gsMatrix<real_t> zm(1,1); zm(0,0)=zz; gsMaterialMatrixEval<real_t,out> f(c,&a,&b,zm); f.piece(patch).eval_into(u,r); }
static bool evApplies(const Spec & s,int k,bool z)
{
    if(s.mat==M_COMPOSITE) return k<=5 && !z && (s.kind==BENDING||k==0||k==3||k==5);
    if(s.tft) return (k==0||k==3||k==5) && !z;
    if(s.kind!=BENDING && !z && (k==1||k==2||k==4)) return true;
    if(k>=6 && k!=13 && !z) return false;
    if(k==5||k==13) return !z && k==5;
    return true;
}
Outcome World::evalEv(const Step & s,Material_t *)
{
    Outcome o; int patch=s.b%8,g=s.b/8; bool z=(s.c>>8)&1; int pc=s.c&255; gsMatrix<real_t> u=sc.points(pc,1+pc%3),r; double zz=0.005*(pc%4);
    const gsMultiPatch<real_t> & a=(g&4)?sc.mpAlt:sc.mp,& b=sc.def[(g&3)%3];
    try {
        gsMaterialMatrixContainer<real_t> c; for(int p=0;p<spec.npatch;p++) c.add(sc.mats[spec.container?p:0].get());
        switch(s.a){
        case 0: ev<MaterialOutput::MatrixA>(z,c,a,b,patch,u,zz,r); break; case 1: ev<MaterialOutput::MatrixB>(z,c,a,b,patch,u,zz,r); break; case 2: ev<MaterialOutput::MatrixD>(z,c,a,b,patch,u,zz,r); break;
        case 3: ev<MaterialOutput::VectorN>(z,c,a,b,patch,u,zz,r); break; case 4: ev<MaterialOutput::VectorM>(z,c,a,b,patch,u,zz,r); break; case 5: ev<MaterialOutput::Density>(false,c,a,b,patch,u,zz,r); break;
        case 6: evZ<MaterialOutput::Stretch>(c,a,b,patch,u,zz,r); break; case 7: evZ<MaterialOutput::StretchDir>(c,a,b,patch,u,zz,r); break; case 8: evZ<MaterialOutput::PStressN>(c,a,b,patch,u,zz,r); break;
        case 9: evZ<MaterialOutput::Strain>(c,a,b,patch,u,zz,r); break; case 10: evZ<MaterialOutput::Stress>(c,a,b,patch,u,zz,r); break; case 11: evZ<MaterialOutput::CauchyVectorN>(c,a,b,patch,u,zz,r); break;
        case 12: evZ<MaterialOutput::PStrainN>(c,a,b,patch,u,zz,r); break; default: break; }
        o.add(r);
    } catch(const std::exception&e){ o.threw=true; o.what=e.what(); } catch(...){ o.threw=true; o.what="non-standard exception"; }
    return o;
}
template<class S> static void cp(std::shared_ptr<Assembler> & dst,std::shared_ptr<Assembler> & src,int mode)
{
    S & s=static_cast<S&>(*src); std::shared_ptr<Assembler> hold; if(mode==2||mode==3){ hold=src; src.reset(); }   // nothing uses an object it moved from
    switch(mode){
    case 0: dst.reset(new S(static_cast<const S&>(s))); break;
    case 1: if(dst) static_cast<S&>(*dst)=static_cast<const S&>(s); else dst.reset(new S(static_cast<const S&>(s))); break;
    case 2: dst.reset(new S(std::move(s))); break;
    case 3: if(dst) static_cast<S&>(*dst)=std::move(s); else dst.reset(new S(std::move(s))); break;
    case 4: { S & alias=s; s=static_cast<const S&>(alias); } break;
    }
}
template<class S> static void cpD(std::shared_ptr<Dwr> & dst,std::shared_ptr<Dwr> & src,int mode)
{
    S & s=dynamic_cast<S&>(*src);
    switch(mode){ case 0: case 2: dst.reset(new S(static_cast<const S&>(s))); break; case 1: case 3: if(dst) dynamic_cast<S&>(*dst)=static_cast<const S&>(s); else dst.reset(new S(static_cast<const S&>(s))); break; case 4: { S & alias=s; s=static_cast<const S&>(alias); } break; }
}
Outcome World::run(const Step & s)
{
    Outcome o;
    if(s.t==T_OP){ if(!A[s.slot]) return o; o=runOp(*A[s.slot],sc,Op(s.a,s.b,s.c)); return o; }
    if(s.t==T_DOP){ if(!D[s.slot]) return o; return runDOp(*D[s.slot],*ds,DOp(s.a,s.b,s.c)); }
    if(s.t==T_MAT){ Material_t * m=mat(s.slot); if(!m) return o; return evalMat(*m,s); }
    if(s.t==T_EV) return evalEv(s,nullptr);
    try {
        switch(s.t){
        case T_NEW: { A[s.slot].reset(); Model m(spec); ACfg c=m.initial(); c.own=s.a!=0; A[s.slot]=build(c); } break;
        case T_CFG: if(A[s.slot]) cfg(*A[s.slot],s.a,s.b); break;
        case T_COPY: { if(s.b==4){ if(!A[s.slot]) break; if(spec.kind==BENDING) cp<gsThinShellAssembler<3,real_t,true> >(A[s.slot],A[s.slot],4); else if(spec.kind==MEMBRANE) cp<gsThinShellAssembler<3,real_t,false> >(A[s.slot],A[s.slot],4); else cp<gsThinShellAssembler<2,real_t,false> >(A[s.slot],A[s.slot],4); break; }
            if(!A[s.a]||s.a==s.slot) break;
            if(spec.kind==BENDING) cp<gsThinShellAssembler<3,real_t,true> >(A[s.slot],A[s.a],s.b); else if(spec.kind==MEMBRANE) cp<gsThinShellAssembler<3,real_t,false> >(A[s.slot],A[s.a],s.b); else cp<gsThinShellAssembler<2,real_t,false> >(A[s.slot],A[s.a],s.b); } break;
        case T_DEL: A[s.slot].reset(); break;
        case T_DNEW: { D[s.slot].reset(); Model m(spec); D[s.slot]=buildD(m.dinitial()); } break;
        case T_DCFG: if(D[s.slot]) dcfg(*D[s.slot],s.a,s.b); break;
        case T_DCOPY: { int src=s.b==4?s.slot:s.a; if(!D[src]||(s.b!=4&&s.a==s.slot)) break;
            if(spec.kind==BENDING) cpD<gsThinShellAssemblerDWR<3,real_t,true> >(D[s.slot],D[src],s.b); else if(spec.kind==MEMBRANE) cpD<gsThinShellAssemblerDWR<3,real_t,false> >(D[s.slot],D[src],s.b); else cpD<gsThinShellAssemblerDWR<2,real_t,false> >(D[s.slot],D[src],s.b); } break;
        case T_DDEL: D[s.slot].reset(); break;
        case T_MATCFG: { Material_t*m=mat(s.slot); if(!m) break; MatCfg c; c.th=c.E=c.rho=c.ng=s.b; setMat(*m,s.slot<nm?s.slot:0,c,s.a); } break;
        case T_CLONE: { Material_t*m=mat(s.a); if(!m||s.slot<nm||s.slot==s.a) break; clones[s.slot].reset(m->clone().release()); } break;
        case T_MDEL: if(s.slot>=nm) clones[s.slot].reset(); break;
        case T_GEOMUT: sc.mutate(s.slot); break;
        }
    } catch(const std::exception&e){ o.threw=true; o.what=e.what(); } catch(...){ o.threw=true; o.what="non-standard exception"; }
    return o;
}
std::string World::fingerprint(const Step & s) const
{
    std::ostringstream o; o<<sc.fingerprint(); if(ds) o<<ds->fingerprint();
    for(int i=0;i<NA;i++) if(A[i]){ Assembler & a=*A[i]; o<<"A"<<i<<".options:"; std::ostringstream t; t<<a.options(); std::string x=t.str(); for(char&c:x) if(c=='\n') c=' '; o<<x<<"\nA"<<i<<".geometry:"<<fpMP(a.geometry())<<"\nA"<<i<<".basis:"; for(size_t p=0;p<a.basis().nBases();p++) o<<a.basis().basis(p).size()<<','; o<<"\nA"<<i<<".materials:"<<a.materials().size()<<"\n"; }
    (void)s; std::string r=o.str(); return r;
}

// ------------------------------------------------------------------ generator
bool Case::checks(const Step & s) const
{
    if(prop=="F03"||prop=="M01") return false;
    if(prop=="F01") return s.fault>=0;
    if(prop=="F02") return s.fault<0;
    return true;
}
static void arm(Rng & r,Step & s){ s.fault=(int)r.below(S_BC+1); s.mode=(int)r.below(3); s.frac=r.next()>>8; if(r.chance(0.2)) s.frac=r.below(3); }
static Step rop(Rng & r,const Case & c,int slot,int group){ Op o=randomOp(r,c.spec,group); return Step(T_OP,slot,o.kind,o.a,o.b); }
static Step rdop(Rng & r,const Case & c,int slot,int group){ DOp o=randomDOp(r,c.spec,group); return Step(T_DOP,slot,o.kind,o.a,o.b); }
static Step rcfg(Rng & r,const Spec & s,int slot)
{
    for(;;) switch(r.below(K_COUNT)){
    case K_PRESS: if(s.dim()==3) return Step(T_CFG,slot,K_PRESS,1+(int)r.below(2)); break;
    case K_FOUND: if(s.dim()==3) return Step(T_CFG,slot,K_FOUND,1+(int)r.below(2)); break;
    case K_LOADS: return Step(T_CFG,slot,K_LOADS,(int)r.below(3));
    case K_BC: return Step(T_CFG,slot,K_BC,(int)r.below(3));
    case K_GEO: if(!s.physLoads) return Step(T_CFG,slot,K_GEO,(int)r.below(2)); break;
    case K_BASIS: return Step(T_CFG,slot,K_BASIS,(int)r.below(2));
    case K_OPT: return Step(T_CFG,slot,K_OPT,(int)r.below(3));
    case K_OPTREF: return Step(T_CFG,slot,K_OPTREF,(int)r.below(3));
    case K_COUP: if(s.npatch>1&&(s.coupling==1||s.coupling==2)) return Step(T_CFG,slot,K_COUP,1+(int)r.below(2)); break;
    case K_CONT: if(s.npatch>1&&(s.coupling==0||s.coupling==3)) return Step(T_CFG,slot,K_CONT,r.chance(0.5)?3:0); break;
    case K_SPACE: return Step(T_CFG,slot,K_SPACE,1+(int)r.below(3));
    }
}
static Step rdcfg(Rng & r,const Spec & s,int slot)
{
    for(;;) switch(r.below(DK_COUNT)){
    case DK_LOADS: return Step(T_DCFG,slot,DK_LOADS,(int)r.below(3));
    case DK_BC: return Step(T_DCFG,slot,DK_BC,(int)r.below(3));
    case DK_GEO: if(!s.physLoads) return Step(T_DCFG,slot,DK_GEO,(int)r.below(2)); break;
    case DK_OPT: return Step(T_DCFG,slot,DK_OPT,(int)r.below(3));
    case DK_GOAL: { int n=s.kind==BENDING?10:7; if(s.dim()==2) n=1; return Step(T_DCFG,slot,DK_GOAL,(int)r.below(n)*16+(s.dim()==3&&r.chance(0.4)?(int)r.below(2):9)); }
    case DK_BASISH: return Step(T_DCFG,slot,DK_BASISH,(int)r.below(2));
    case DK_PRESS: if(s.dim()==3) return Step(T_DCFG,slot,DK_PRESS,1+(int)r.below(2)); break;
    case DK_FOUND: if(s.dim()==3) return Step(T_DCFG,slot,DK_FOUND,1+(int)r.below(2)); break;
    }
}
static bool matCfgOk(const Spec & s){ return s.mat!=M_COMPOSITE && !s.tft; }
static Step rmatcfg(Rng & r,const Spec &,int slot){ return Step(T_MATCFG,slot,(int)r.below(4),(int)r.below(3)); }
static Step rmat(Rng & r,const Spec & s,int slot,int nm){ int k; do k=(int)r.below(ME_COUNT); while(!matEvalApplies(s,k)); int p=s.container&&slot<nm?slot:(int)r.below(s.npatch); return Step(T_MAT,slot,k,p+8*(int)(r.below(3)+(r.chance(0.4)?4:0)),(int)r.below(200)); }
static Step rev(Rng & r,const Spec & s){ int k; bool z; do { k=(int)r.below(NEV-1); z=k>=6||r.chance(0.3); if(k==5) z=false; } while(!evApplies(s,k,z)); return Step(T_EV,0,k,(int)r.below(s.npatch)+8*(int)(r.below(3)+(r.chance(0.4)?4:0)),(int)r.below(200)+(z?256:0)); }

Case genCase(const std::string & prop,uint64_t seed)
{
    Case c; c.prop=prop; c.seed=seed; Rng r(seed*8101+prop[0]*131+prop[2]*7);
    SpecOpts o; o.maxElem=2; o.maxPatch=r.chance(0.85)?2:3; o.maxDeg=r.chance(0.85)?2:3;
    c.spec=makeSpec(seed*13+prop[0]*3+prop[2],o);
    bool matOnly=prop=="H04"; c.useDwr=!matOnly && r.chance(prop=="H03"?0.25:0.35);
    std::vector<Step> & S=c.steps; const Spec & s=c.spec; int nm=s.container?s.npatch:1; int n;
    auto anyOp=[&](int slot){ if(r.chance(0.12)) S.push_back(Step(T_GEOMUT,2+(int)r.below(3))); if(c.useDwr && r.chance(0.5)) return rdop(r,c,0,0); return rop(r,c,slot,r.chance(0.5)?1:0); };
    if(prop=="H01"){
        S.push_back(Step(T_NEW,0)); int na=1; if(r.chance(0.3)){ S.push_back(Step(T_NEW,1)); na=2; if(r.chance(0.7)) S.push_back(rcfg(r,s,1)); } if(c.useDwr) S.push_back(Step(T_DNEW,0));
        n=4+(int)r.below(5); for(int i=0;i<n;i++){ if(r.chance(0.08)) S.push_back(rev(r,s)); S.push_back(anyOp((int)r.below(na))); }
    } else if(prop=="H02"){
        S.push_back(Step(T_NEW,0)); if(c.useDwr) S.push_back(Step(T_DNEW,0)); n=3+(int)r.below(4);
        for(int i=0;i<n;i++){ int k=(int)r.below(3)+(i==0); for(int j=0;j<k;j++){ if(matCfgOk(s)&&r.chance(0.15)) S.push_back(rmatcfg(r,s,(int)r.below(nm))); else if(c.useDwr&&r.chance(0.5)) S.push_back(rdcfg(r,s,0)); else S.push_back(rcfg(r,s,0)); } S.push_back(anyOp(0)); }
    } else if(prop=="H03"){
        S.push_back(Step(T_NEW,0,r.chance(0.4))); if(c.useDwr) S.push_back(Step(T_DNEW,0)); n=7+(int)r.below(6); bool two=false,twoD=false; int ncl=0;
        for(int i=0;i<n;i++){ double u=r.unit();
            if(u<0.25||(!two&&i==2)){ int d=1+(int)r.below(2); if(c.useDwr&&r.chance(0.4)){ S.push_back(Step(T_DCOPY,1,0,r.chance(0.15)?4:(int)r.below(2))); twoD=true; } else { int src=two&&r.chance(0.3)?d==1?2:1:0; S.push_back(Step(T_COPY,d,src,r.chance(0.1)?4:(int)r.below(4))); two=true; } }
            else if(u<0.35) S.push_back(rcfg(r,s,(int)r.below(3)));
            else if(u<0.42) S.push_back(c.useDwr&&r.chance(0.5)?Step(T_DDEL,0):Step(T_DEL,(int)r.below(3)));
            else if(u<0.50&&nm+ncl<NM){ S.push_back(Step(T_CLONE,nm+ncl,0)); ncl++; }
            else if(u<0.58&&matCfgOk(s)) S.push_back(rmatcfg(r,s,ncl&&r.chance(0.5)?nm:0));
            else if(u<0.68&&ncl) S.push_back(rmat(r,s,nm+(int)r.below(ncl),nm));
            else if(twoD&&u<0.8) S.push_back(rdop(r,c,(int)r.below(2),0));
            else { Step q=rop(r,c,(int)r.below(3),r.chance(0.6)?1:0); if(r.chance(0.12)) arm(r,q); S.push_back(q); } }
        for(int i=0;i<3;i++) S.push_back(rop(r,c,i,1)); if(twoD) S.push_back(rdop(r,c,1,0)); for(int i=0;i<ncl;i++) S.push_back(rmat(r,s,nm+i,nm));
    } else if(prop=="H04"){
        n=10+(int)r.below(20); int ncl=0; for(int i=0;i<n;i++){ double u=r.unit(); Step q;
            if(u<0.05&&nm+ncl<NM){ S.push_back(Step(T_CLONE,nm+ncl,0)); ncl++; continue; }
            if(u<0.12){ S.push_back(Step(T_GEOMUT,(int)r.below(5))); if(r.chance(0.7)&&S.size()>1){ for(int j=(int)S.size()-2;j>=0;j--) if(S[j].t==T_MAT||S[j].t==T_EV){ q=S[j]; q.fault=-1; q.at=0; S.push_back(q); break; } } continue; }   // often the very same evaluation again
            if(u<0.6) q=rmat(r,s,ncl&&r.chance(0.3)?nm+(int)r.below(ncl):(int)r.below(nm),nm); else q=rev(r,s);
            if(r.chance(0.15)) arm(r,q); S.push_back(q); }
    } else if(prop=="F01"||prop=="F02"||prop=="F03"){
        if(prop!="F01"&&r.chance(0.15)){ Step q(T_NEW,0); arm(r,q); S.push_back(q); }
        S.push_back(Step(T_NEW,0)); if(c.useDwr){ if(prop!="F01"&&r.chance(0.15)){ Step q(T_DNEW,0); arm(r,q); S.push_back(q); } S.push_back(Step(T_DNEW,0)); } n=2+(int)r.below(4);
        for(int i=0;i<n;i++){ Step q=anyOp(0); double u=r.unit(); 
            if(prop=="F02"&&r.chance(0.25)){ Step k=c.useDwr&&r.chance(0.4)?rdcfg(r,s,0):rcfg(r,s,0); arm(r,k); S.push_back(k); k.fault=-1; k.at=0; S.push_back(k); }
            if(prop=="F01"){ if(q.t==T_OP&&r.chance(0.5)) q=rop(r,c,0,1); if(u<0.75) arm(r,q); S.push_back(q); }
            else if(prop=="F02"){ arm(r,q); S.push_back(q); if(r.chance(0.3)){ Step q2=q; arm(r,q2); S.push_back(q2); } S.push_back(r.chance(0.4)?[&]{ Step t=q; t.fault=-1; t.at=0; return t; }():anyOp(0)); if(r.chance(0.3)) S.push_back(anyOp(0)); }
            else { if(u<0.5) arm(r,q); S.push_back(q); if(r.chance(0.2)) { Step e=rev(r,s); if(r.chance(0.4)) arm(r,e); S.push_back(e); } } }
    } else if(prop=="M01"){
        { Step q(T_NEW,0,r.chance(0.3)); if(r.chance(0.15)){ arm(r,q); S.push_back(q); q.fault=-1; } S.push_back(q); } if(c.useDwr){ Step q(T_DNEW,0); if(r.chance(0.3)){ arm(r,q); S.push_back(q); q.fault=-1; } S.push_back(q); } n=4+(int)r.below(8); int ncl=0;
        for(int i=0;i<n;i++){ double u=r.unit(); Step q;
            if(u<0.45) q=anyOp((int)r.below(2)); else if(u<0.55) q=c.useDwr&&r.chance(0.5)?rdcfg(r,s,0):rcfg(r,s,0);
            else if(u<0.67) q=c.useDwr&&r.chance(0.4)?Step(T_DCOPY,1,0,r.chance(0.15)?4:(int)r.below(2)):Step(T_COPY,1+(int)r.below(2),0,r.chance(0.1)?4:(int)r.below(4));
            else if(u<0.72) q=Step(T_DEL,(int)r.below(3)); else if(u<0.75) q=Step(T_NEW,(int)r.below(2),r.chance(0.3));
            else if(u<0.80&&nm+ncl<NM){ q=Step(T_CLONE,nm+ncl,0); ncl++; } else if(u<0.87) q=rmat(r,s,ncl&&r.chance(0.5)?nm+(int)r.below(ncl):(int)r.below(nm),nm); else if(u<0.95) q=rev(r,s); else if(matCfgOk(s)) q=rmatcfg(r,s,(int)r.below(nm)); else q=rev(r,s);
            if((q.t==T_OP||q.t==T_DOP||q.t==T_MAT||q.t==T_EV||q.t==T_NEW||q.t==T_CFG||q.t==T_DCFG||q.t==T_COPY||q.t==T_DCOPY)&&r.chance(0.5)) arm(r,q); S.push_back(q); if(q.fault>=0&&(q.t==T_CFG||q.t==T_DCFG)){ q.fault=-1; S.push_back(q); } }
    }
    return c;
}
