// Model descriptions, user elements/post-processors/equation solvers attached to the real library,
// and an independent dense reference solution.
#pragma once
#include "core.h"
#include "vfs.h"
#include "fiber.h"
#include <array>
#include <cmath>
#include <cstring>
#include <set>
#include "sys.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "VtkProcessor.h"
#include "ReactionProcessor.h"
#include "elements/TRUSS3.h"
#include "elements/QUADTH.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/TRIANGLE4.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "elements/SOLID81.h"
#include "elements/PLANE41.h"
#include "materials/MaterialFactory.h"

namespace mdl {
using namespace nla3d;
using sim::u32;
using sim::u64;

typedef std::vector<std::vector<double>> Dense;

struct DofId {
  int e, ent, type;                 // e: 0 nodal, 1 element; ent: physical index from 0
  bool operator<(const DofId& o) const { return e != o.e ? e < o.e : ent != o.ent ? ent < o.ent : type < o.type; }
  bool operator==(const DofId& o) const { return e == o.e && ent == o.ent && type == o.type; }
};
std::string str(const DofId& d);

enum Kind { GEN, TRUSS, QUADT, LINET, TET0, SOLID, PLANE, TRI4, TET1, INT0, INT3 };
struct El {
  Kind kind = GEN;
  ElementShape shape = ElementShape::LINE;
  std::vector<int> nodes;           // physical node indices
  std::vector<int> nd, ed;          // node dof types, element dof types (GEN)
  Dense K, C, M; std::vector<double> F;   // local order: node-major nd, then ed
  double c3 = 0;                    // cubic stiffening (nonlinear analyses)
  bool nl = false;                  // residual form
  int path = 0;                     // assembly path
  double p1 = 0, p2 = 0, p3 = 0;    // TRUSS E, A; QUADT k, rho*c, volFlux; LINET flux, htc, etemp; TET0 E, my, alpha*T; TRI4 E, my; TET1 k; INT0/INT3 kn, ks
  std::vector<DofId> dofs(int self) const;
};
struct FixS { int node, type; double v; };
struct LoadS { int node, type; double v; };
struct Term { int node, type; double c; };
struct MpcS { std::vector<Term> t; double b = 0; };
struct Model {
  std::vector<std::array<double, 3>> pos;
  std::vector<El> el;
  std::vector<FixS> fix;
  std::vector<LoadS> load;
  std::vector<MpcS> mpc;
  int rbMaster = -1; std::vector<int> rbSlaves, rbDofs;
  struct Rb { int master; std::vector<int> slaves, dofs; };
  std::vector<Rb> rbMore;           // further rigid bodies
  std::vector<Rb> rigid() const { std::vector<Rb> r; if (rbMaster >= 0) r.push_back({rbMaster, rbSlaves, rbDofs}); r.insert(r.end(), rbMore.begin(), rbMore.end()); return r; }
  double initValue = 0;
  bool needMaterial = false; int matKind = 0; std::vector<double> matC;
  std::vector<DofId> dofs() const;  // sorted
  std::string str() const;
};
struct GenOpt {
  bool nonlinear = false, transient = false, mpc = true, elemDofs = true, libElems = true, fixes = true, rigid = false, mpcRhs = true, moreElems = true;
  int maxNodes = 6, maxElems = 7; bool hub = false;   // hub: one node coupled with very many others
};
Model genModel(const GenOpt& o);
void scaleModel(Model& m, double f, double g);   // multiplies every load, displacement and constant by f and every stiffness by g
Model genSolid(int kind);           // small block of SOLID81 / PLANE41, hyperelastic

// element matrices in the order of El::dofs, from the description alone (not for SOLID/PLANE)
void elemMatrices(const Model& m, const El& e, Dense& K, Dense& C, Dense& M, std::vector<double>& F);

struct Ref {
  std::map<DofId, double> U, R;     // R: reactions for fixed dofs, loads for others
  std::vector<double> lambda;
  bool ok = false; double scale = 1;
};
Ref solveLinear(const Model& m);
// Newmark: states after every step (U, DU, DDU)
struct TState { std::map<DofId, double> U, V, A; };
std::vector<TState> solveNewmark(const Model& m, double t0, double t1, int n, double alpha, double delta);
bool denseSolve(std::vector<std::vector<long double>> A, std::vector<long double> b, std::vector<long double>& x);
// internal force of the nonlinear GEN model at u, per dof
std::map<DofId, double> internalForce(const Model& m, const std::map<DofId, double>& u);

// ---- instance of a model in the real library --------------------------------------------------
extern void (*hookPoint)(const char* where);     // called from every user callback
inline void hook(const char* w) { if (hookPoint) hookPoint(w); }

class HElem : public Element {                    // user-defined element
public:
  HElem(const El& d, const std::vector<u32>& nodeNo);
  ~HElem();
  void pre() override; void buildK() override; void buildC() override; void buildM() override; void update() override;
  bool getScalar(double* s, scalarQuery q, uint16 gp, const double sc) override;
  bool getVector(math::Vec<3>* v, vectorQuery q, uint16 gp, const double sc) override;
  bool getTensor(math::MatSym<3>* t, tensorQuery q, uint16 gp, const double sc) override;
  const El* d; double acc = 0; int updates = 0;
  static long live;
private:
  double dofValue(size_t i); size_t n() const;
};

struct Perm { std::vector<int> node, el, fix, load, mpc; bool addMode = false; };
Perm identity(const Model& m);
Perm randomPerm(const Model& m);

struct Snap { char type; int step; std::vector<double> U, R, V, A; int stale = -1; };   // canonical dof order
struct Inst;
class Obs : public PostProcessor {               // user post-processor recording what is published
public:
  Obs(FEStorage* s, Inst* i) : PostProcessor(s), in(i) { name = "Obs"; live++; }
  ~Obs() { live--; }
  void pre() override; void process(uint16 s) override; void post(uint16 s) override;
  Inst* in; static long live;
};
struct Inst {
  const Model* m = nullptr;
  FEStorage* st = nullptr; FESolver* so = nullptr;
  std::vector<u32> nodeNo, elNo;
  std::vector<DofId> ids;
  std::vector<Snap> snaps;
  int task = 0;
  bool deriv = false;
  void build(const Model& model, const Perm& p, FEStorage* storage, FESolver* solver);
  u32 eq(const DofId& d);
  bool used(const DofId& d);
  double U(const DofId& d); double R(const DofId& d);
  Snap snap(char t, int s);
  int staleElement();                            // a user element whose last update did not see the current DoF values, or -1
  void hashState();
};
void addNodes(const Model& model, const Perm& p, FEStorage* st, std::vector<u32>& nodeNo);
void addElems(const Model& model, const Perm& p, FEStorage* st, const std::vector<u32>& nodeNo, std::vector<u32>& elNo);
void addMpcs(const Model& model, const Perm& p, FEStorage* st, const std::vector<u32>& nodeNo);
void addRigid(const Model& model, FEStorage* st, const std::vector<u32>& nodeNo);
void addMesh(const Model& model, const Perm& p, FEStorage* st, std::vector<u32>& nodeNo, std::vector<u32>& elNo);

// ---- equation solvers ----------------------------------------------------------------------------
class HookEq : public math::GaussDenseEquationSolver {   // the built-in solver with yield points
public:
  void solveEquations(math::SparseSymMatrix* m, double* r, double* u) override { hook("eq"); math::GaussDenseEquationSolver::solveEquations(m, r, u); hook("eq-"); }
  void factorizeEquations(math::SparseSymMatrix* m) override { hook("fact"); math::GaussDenseEquationSolver::factorizeEquations(m); hook("fact-"); }
  void substituteEquations(math::SparseSymMatrix* m, double* r, double* u) override { hook("subst"); math::GaussDenseEquationSolver::substituteEquations(m, r, u); hook("subst-"); }
};
bool close(double a, double b, double rel, double scale);
}  // namespace mdl
