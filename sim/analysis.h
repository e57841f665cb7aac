// A complete analysis (model, solver, post-processors) used by the scenarios that disturb whole analyses.
#pragma once
#include "model.h"
namespace mdl {
struct RecSpec { std::string file; std::vector<int> nodes, dofs; bool autoDofs = false; };
struct AnSpec {
  int kind = 0;                      // 0 linear, 1 nonlinear springs, 2 transient, 3 hyperelastic block
  Model m; Perm p;
  int steps = 1; double t0 = 0, t1 = 1, alpha = 0.25, delta = 0.5;
  bool vtk = false, vtkAll = false; int queries = 0, queryWay = 0; std::string vtkName;
  std::vector<RecSpec> recs;
  int ppOrder = 0, nObs = 1;
  int task = 0;
  std::string str() const;
};
struct AnOpt { bool solids = true, files = true, rare = true; int maxNodes = 4, maxElems = 4; std::string prefix; int kind = -1; bool rigid = false; };
AnSpec genAnalysis(const AnOpt& o);

struct ElRes { std::vector<double> sc, ve, te; std::vector<char> rs, rv, rt; };
class FullObs : public Obs {                    // also records what every element answers
public:
  FullObs(FEStorage* s, Inst* i) : Obs(s, i) {}
  void pre() override; void process(uint16 s) override;
  void grab();
  std::vector<std::vector<ElRes>> res;          // per callback, per element (library numbering)
};
struct AnRun {
  const AnSpec* a = nullptr;
  FEStorage* st = nullptr; FESolver* so = nullptr; math::EquationSolver* own = nullptr;
  Inst in; std::vector<ReactionProcessor*> rec; FullObs* full = nullptr; VtkProcessor* vtk = nullptr;
  std::vector<std::vector<double>> curves;
  bool solved = false;
  void create(const AnSpec& spec, math::EquationSolver* eq = nullptr);   // code under test
  void solve();                                                          // code under test
  std::string digest();                                                  // bit-exact results (host)
  void destroy();                                                        // code under test
};
std::string hexD(double d);
}
