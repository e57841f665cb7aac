// Shared by C07/C08: an equation solver with scripted disturbances, and an independent Newton solution.
#pragma once
#include "model.h"
namespace mdl {
struct NlEvent { char type; int who; int step; std::vector<double> d; double val; std::string dist; };   // 'p' pre, 'c' solver call, 's' process, 'e' post
struct NlLog { std::vector<NlEvent> ev; bool inSolver = false; int nS = -1; };

class LogObs : public PostProcessor {
public:
  LogObs(FEStorage* s, NlLog* l, int w) : PostProcessor(s), log(l), who(w) { name = "LogObs"; }
  void pre() override { add('p', 0); } void process(uint16 s) override { add('s', s); } void post(uint16 s) override { add('e', s); }
  void add(char t, int s) { sim::Host h; log->ev.push_back({t, who, s, {}, 0, ""}); sim::ev("pp%d %c %d", who, t, s); }
  NlLog* log; int who;
};

enum Dist { D_NONE, D_NOISE, D_ADD, D_STALL, D_TINY, D_GROW, D_FLIP, D_ZERO, D_HUGE, D_NAN, D_INF, D_THROW, D_NKINDS };
static const char* const distName[] = {"none", "noise", "additive", "stalled", "tiny", "grown", "flipped", "zero", "huge", "nan", "inf", "exception"};
class FaultyEq : public math::GaussDenseEquationSolver {
public:
  FEStorage* st = nullptr; NlLog* log = nullptr; double crit = 1e-3;
  std::function<Dist(int call)> decide; int calls = 0; std::vector<double> prev;
  std::function<void(math::SparseSymMatrix*, double* rhs, int nS)> disturbRhs;      // used by C08
  bool exactIfConverging = false;
  void solveEquations(math::SparseSymMatrix* m, double* r, double* u) override {
    int n = (int)m->nRows(), nS; Dist k; std::vector<double> r0;
    { sim::Host h; sim::step(); calls++; log->inSolver = true; nS = n - (int)st->nMpc(); log->nS = nS; k = decide ? decide(calls) : D_NONE; r0.assign(r, r + n); if (disturbRhs) disturbRhs(m, r, nS); }
    bool pert = false; { sim::Host h; for (int i = 0; i < n; i++) pert |= r[i] != r0[i]; }
    math::GaussDenseEquationSolver::solveEquations(m, r, u);
    if (pert && exactIfConverging) { double a = 0; for (int i = 0; i < nS; i++) a += std::fabs(u[i]); if (a / nS < 4 * crit * crit) { for (int i = 0; i < n; i++) r[i] = r0[i]; math::GaussDenseEquationSolver::solveEquations(m, r, u); pert = false; } }
    sim::Host h; if (pert) sim::stat("fault.perturbed-rhs");
    if (k == D_THROW) { log->ev.push_back({'x', 0, 0, {}, 0, distName[k]}); sim::stat("fault.exception"); sim::ev("eq throw"); sim::Sut s; throw std::runtime_error("equation solver failed"); }
    if (nS > 0) switch (k) {
      case D_NOISE: for (int i = 0; i < n; i++) u[i] *= 1 + sim::real(-0.5, 0.5, 64); break;
      case D_ADD: for (int i = 0; i < nS; i++) u[i] += sim::real(-1, 1, 64); break;
      case D_STALL: if ((int)prev.size() == n) for (int i = 0; i < n; i++) u[i] = prev[i]; break;
      case D_TINY: for (int i = 0; i < n; i++) u[i] *= 1e-3; break;
      case D_GROW: { double f = sim::real(1.5, 9, 15); for (int i = 0; i < n; i++) u[i] *= f; break; }
      case D_FLIP: for (int i = 0; i < n; i++) u[i] = -u[i]; break;
      case D_ZERO: for (int i = 0; i < n; i++) u[i] = 0; break;
      case D_HUGE: { double f = std::pow(10.0, sim::range(3, 14)); u[sim::draw(nS)] += f; break; }
      case D_NAN: u[sim::draw(nS)] = NAN; break;
      case D_INF: u[sim::draw(nS)] = sim::chance(1, 2) ? INFINITY : -INFINITY; break;
      default: break;
    }
    if (k != D_NONE) sim::stat((std::string("fault.") + distName[k]).c_str());
    double a = 0; for (int i = 0; i < nS; i++) a += std::fabs(u[i]); a /= nS;
    prev.assign(u, u + n);
    log->ev.push_back({'c', 0, 0, prev, a / crit, pert ? "perturbed" : distName[k]});
    sim::ev("eq %d %s %.6g", calls, distName[k], a); for (int i = 0; i < n; i++) sim::hashD(u[i]);
    log->inSolver = false;
  }
};

// ---- independent Newton solution of a GEN model with linear constraints and a rigid body -----------
struct NlRef {
  bool ok = false; std::vector<std::map<DofId, double>> U; std::vector<int> iters; double scale = 1, stiff = 1;
};
typedef long double LD;
std::vector<LD> constraints(const Model& m, const std::map<DofId, LD>& u, double t);
std::vector<std::map<DofId, LD>> constraintRows(const Model& m, const std::map<DofId, LD>& u);
NlRef solveNewton(const Model& m, int steps, double crit, int maxIter);
}
