// Scenario generator shared by the simulations: a seed determines a shell problem
// (geometry, basis, boundary conditions, loads, coupling, material) built only through
// the module's public interface, plus the operations a caller can perform on it.
#pragma once
#include <gismo.h>
#include <gsKLShell/gsKLShell.h>
#include "simrng.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace gismo;
typedef gsThinShellAssemblerBase<real_t> Assembler;
typedef gsMaterialMatrixBase<real_t>     Material_t;

// ------------------------------------------------------------------ fault seam
// Every user-supplied function is a seam: the simulator decides which call fails.
enum Seam { S_FORCE=0, S_THICK, S_RHO, S_PAR, S_PRESS, S_FOUND, S_BC, S_GOAL, S_COUNT };
extern const char * seamName[S_COUNT];
struct FaultPlan {
    long  calls[S_COUNT];      // calls seen since the plan was armed
    long  failAt[S_COUNT];     // fail the n-th call (1-based), 0 = never
    long  fired[S_COUNT];      // how often a fault was delivered
    int   mode;                // 0 throw std::runtime_error, 1 throw an int, 2 throw std::bad_alloc
    void clear();
    FaultPlan(){ clear(); }
};
extern FaultPlan g_fault;
extern bool      g_faultsOn;   // off in the OpenMP build

// smooth user function R^dd -> R^td
class UFun : public gsFunction<real_t>
{
public:
    UFun() : m_dd(2), m_td(1), m_seam(S_FORCE), m_amp(0) {}
    UFun(short_t dd, const std::vector<double> & base, double amp, int seam, uint64_t seed);
    GISMO_CLONE_FUNCTION(UFun)
    short_t domainDim() const { return m_dd; }
    short_t targetDim() const { return m_td; }
    const gsFunction<real_t> & piece(const index_t) const { return *this; }
    void eval_into(const gsMatrix<real_t> & u, gsMatrix<real_t> & result) const;
    std::string fingerprint() const;
private:
    short_t m_dd, m_td; int m_seam; double m_amp; std::vector<double> m_base, m_dir;
};

// ------------------------------------------------------------------ specification
enum Kind { BENDING=0, MEMBRANE=1, PLANAR=2 };
enum Mat  { M_SVK=0, M_NH=1, M_NHE=2, M_MR=3, M_OG=4, M_COMPOSITE=5 };
struct Spec {
    uint64_t seed;
    int kind, npatch, deg, ex, ey, curved;
    int exOdd;                 // elements in the first direction on odd patches
    bool physLoads;            // point loads given in physical coordinates
    int mat, impl; bool comp, tft;
    int ngauss;
    bool container;            // per-patch materials in a container (owned by caller)
    bool parforce, pressure, foundation, ploads;
    int  bcset;                // 0..5
    int  coupling;             // 0 none, 1 weak C0, 2 weak C1 (default), 3 strong (Continuity 0)
    double stretch;
    int  matAlt;               // second material law used on odd patches of a container
    std::string text() const;
    int dim() const { return kind==PLANAR?2:3; }
};
struct SpecOpts { int maxPatch, maxElem, maxDeg; bool small; bool noTft; int kind; int mat;
    SpecOpts():maxPatch(3),maxElem(3),maxDeg(3),small(false),noTft(false),kind(-1),mat(-1){} };
Spec makeSpec(uint64_t seed, const SpecOpts & o);

// ------------------------------------------------------------------ scenario
struct Scen {
    Spec s; int d;
    gsMultiPatch<real_t> mp;               // undeformed geometry
    gsMultiPatch<real_t> def[3];           // deformed configurations
    gsMultiPatch<real_t> mpAlt;            // another undeformed geometry, same topology
    gsMultiBasis<real_t> mb, mbAlt;
    gsBoundaryConditions<real_t> bc, bcAlt, bcAlt2;  // bcAlt2: as many conditions as bc, other values
    std::unique_ptr<UFun> force, thick, rho, E, nu, ratio, press, found, pressAlt, foundAlt, neu, dir, neuAlt, dirAlt, thick2, E2;
    std::vector<std::unique_ptr<UFun> > og;
    std::vector<std::unique_ptr<UFun> > compFuns;
    gsPointLoads<real_t> loads, loadsAlt;
    std::vector<std::shared_ptr<Material_t> > mats;   // one per patch, or one shared
    std::vector<std::shared_ptr<Material_t> > inner;  // materials wrapped by a TFT material
    gsMaterialMatrixContainer<real_t> cont;

    explicit Scen(const Spec & spec);
    std::shared_ptr<Material_t> makeMaterial(int variant, const gsMultiPatch<real_t> & geo);
    std::shared_ptr<Assembler>  makeBare() const;     // constructor only
    std::shared_ptr<Assembler>  make() const;         // constructor and configuration
    void configure(Assembler & a) const;
    const gsBoundaryConditions<real_t> & bcOf(int k) const { return k==0?bc:k==1?bcAlt:bcAlt2; }
    void mutate(int g);       // change a geometry of the caller in place: 0 mp, 1 mpAlt, 2.. def
    gsMatrix<real_t> points(uint64_t seed, int n) const;
    gsMatrix<real_t> solVector(index_t n, uint64_t seed, double amp) const;
    std::string fingerprint() const;                  // of everything the caller owns
private:
    Scen(const Scen &); Scen & operator=(const Scen &);
};

// ------------------------------------------------------------------ outcomes
struct Outcome {
    bool threw; std::string what; int status;          // status: 0 success, 1 error, -1 not reported
    std::vector<double> v; std::vector<long> sz;       // values and sizes
    std::string note;
    Outcome():threw(false),status(-1){}
    void add(double x){ v.push_back(x); }
    void add(const gsMatrix<real_t> & m);
    void add(const gsSparseMatrix<real_t> & m);
    void add(const gsMultiPatch<real_t> & m);
};
// empty string if equal up to rounding
std::string diff(const Outcome & ref, const Outcome & got, double tol);
std::string fpMatrix(const gsMatrix<real_t> & m);
std::string fpMP(const gsMultiPatch<real_t> & mp);

// ------------------------------------------------------------------ operations
enum OpKind {
    O_ASSEMBLE=0, O_ASSEMBLE_DEF, O_MATRIX_DEF, O_VECTOR_DEF, O_MASS, O_MASS_LUMPED, O_FOUNDATION,
    O_ASSEMBLE_SOL, O_MATRIX_SOL, O_VECTOR_SOL, O_VECTOR_INHOM, O_MIP, O_PRESS_MAT, O_PRESS_VEC, O_PRESS_VEC_LIN,
    O_BFORCE, O_AREA, O_DNORM, O_ENERGY, O_SOLUTION, O_FULLVEC, O_SOLVEC, O_STRESS, O_PSTRETCH, O_PSTRESS,
    O_DEFNORM, O_IFC_C0, O_IFC_G1, O_IFC_N, O_IFC_GC, O_IFC_MC, O_MATERIAL, O_NDOFS,
    O_RESIDUAL, O_ASSEMBLE_INHOM, O_MIP_SOL, O_PRESS_MAT_LIN, O_PRESS_CONST, O_PRESS_CONST_VEC, O_FOUND_VEC, O_DISPL, O_UPDATE_MP, O_STRESS_ORI, O_BFORCE1, O_COUNT
};
extern const char * opName[O_COUNT];
struct Op { int kind; int a, b; Op(int k=0,int a_=0,int b_=0):kind(k),a(a_),b(b_){} std::string text() const; };
Op  randomOp(sim::Rng & r, const Spec & s, int group=0);   // group 0 all, 1 assembly only, 2 functionals
Outcome runOp(Assembler & a, const Scen & sc, const Op & op);   // catches exceptions
bool opApplies(const Spec & s, const Op & op);

// material level
enum { ME_COUNT=30 };
const char * matEvalName(int k);
// evaluate output k of the material on patch p at points u, heights z (rows = number of heights)
gsMatrix<real_t> matEval(const Material_t & m, int k, int patch, const gsMatrix<real_t> & u, const gsMatrix<real_t> & z);
bool matEvalApplies(const Spec & s, int k);
