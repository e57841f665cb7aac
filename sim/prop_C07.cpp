// C07: step publication under an equation solver that misbehaves.
#include "nonlin.h"
using namespace sim;
using namespace mdl;
namespace {
void run() {
  setStepBudget(4000000);
  static const int fills[] = {-1, 0x00, 0xff, 0x41};
  GenOpt o; o.nonlinear = true; o.maxNodes = range(1, 4); o.maxElems = range(1, 4); o.rigid = chance(1, 5); bool big = chance(1, 40); if (big) { o.maxNodes = range(20, 50); o.maxElems = range(20, 60); stat("models.big"); } o.mpcRhs = chance(1, 8); Model m = genModel(o);
  int N = range(1, 8), limit = range(1, 12); if (chance(1, 4)) limit = 20; static const double cr[] = {1e-3, 1e-2, 1e-1, 1e-4, 0.5, 3e-3, 2.0}; double crit = cr[draw(7)];
  if (big) N = std::min(N, 3); else if (chance(1, 60)) { N = range(60, 400); stat("models.long-run"); }
  double t0 = 0, t1 = 1; if (chance(1, 3)) { t0 = real(-2, 2, 16); t1 = t0 + real(0.1, 7, 69); }
  int npp = range(0, 3), mode = (int)draw(5);   // 0: exact solver, 1: few moderate disturbances, 2: any, 3: burst, 4: disturbances stop in time
  std::vector<NlEvent>* evs; NlLog log; log.nS = -1; evs = &log.ev; FaultyEq* eq = nullptr; FEStorage* st = nullptr; NonlinearFESolver* so = nullptr; Inst in;
  int burst0 = range(1, 20), burstL = range(1, 30); Dist bk = (Dist)range(1, D_NKINDS - 1); bool linear = m.rbMaster < 0; for (auto& e : m.el) linear &= e.c3 == 0; for (auto& c : m.mpc) linear &= c.b == 0;
  // iteration number within the current step is derived from the recorded history only
  auto itNo = [&] { int k = 0; for (size_t i = log.ev.size(); i-- > 0;) { if (log.ev[i].type == 'c') { if (log.ev[i].val < crit) break; k++; } else break; } return k + 1; };
  mem::fill(fills[draw(4)]);
  Outcome r = attempt([&] {
    st = new FEStorage; so = new NonlinearFESolver; eq = new FaultyEq; eq->st = st; eq->log = &log; eq->crit = crit;
    eq->decide = [&](int call) -> Dist {
      switch (mode) {
        case 0: return D_NONE;
        case 1: return chance(1, 6) ? (Dist)range(1, D_ZERO) : D_NONE;
        case 2: return chance(1, 5) ? (Dist)range(1, D_NKINDS - 1) : D_NONE;
        case 3: return call >= burst0 && call < burst0 + burstL ? bk : D_NONE;
        default: return itNo() <= limit - 2 && chance(1, 2) ? (Dist)range(1, D_ZERO) : D_NONE;
      } };
    in.build(m, identity(m), st, so); so->attachEquationSolver(eq); so->numberOfIterations = limit; so->numberOfLoadsteps = N; so->convergenceCriteria = crit;
    if (t0 != 0 || t1 != 1) { so->timeControl.setStartTime(t0); so->timeControl.setEndTime(t1); }
    for (int i = 0; i < npp; i++) so->addPostProcessor(new LogObs(st, &log, i));
    so->solve();
  });
  mem::fill(-1);
  std::string desc = m.str() + fmt(", %d steps, limit %d, criterion %g, %d post-processors, %s", N, limit, crit, npp, mode == 0 ? "exact solver" : mode == 4 ? "disturbances that stop in time" : "disturbed solver");
  // ---- history check -----------------------------------------------------------------------------
  size_t k = 0; int calls = 0, published = 0; bool diverged = false, threw = false;
  auto nm = [&](size_t i) { if (i >= evs->size()) return std::string(fmt("the end (%s)", kindName(r.kind))); auto& e = (*evs)[i]; return e.type == 'c' ? fmt("solver call (criterion value %g)", e.val) : e.type == 'x' ? std::string("solver exception") : fmt("%s(%d) of post-processor %d", e.type == 'p' ? "pre" : e.type == 's' ? "process" : "post", e.step, e.who); };
  for (auto& e : *evs) if (e.type == 'x') threw = true;
  auto expectPP = [&](char t, int step, const char* when) { for (int i = 0; i < npp; i++, k++) SIM_CHECK(k < evs->size() && (*evs)[k].type == t && (*evs)[k].who == i && (t != 's' || (*evs)[k].step == step), "publication-order", "%s: expected %s(%d) of post-processor %d, got %s", when, t == 'p' ? "pre" : t == 's' ? "process" : "post", step, i, nm(k).c_str()); };
  expectPP('p', 0, "before the solution");
  bool stopped = false;
  for (int s = 1; s <= N && !stopped; s++) {
    for (int it = 1;; it++) {
      if (k < evs->size() && (*evs)[k].type == 'x') { k++; SIM_CHECK(k == evs->size(), "continued-after-failure", "the analysis went on after the equation solver failed: %s", nm(k).c_str()); stopped = true; break; }
      if (k == evs->size() && log.inSolver) { stopped = true; break; }   // the solver itself refused the system
      SIM_CHECK(k < evs->size(), "premature-end", "load step %d ended (%s) before iteration %d", s, kindName(r.kind), it);
      SIM_CHECK((*evs)[k].type == 'c', "published-unconverged", "load step %d, before iteration %d met the criterion: %s", s, it, nm(k).c_str());
      SIM_CHECK(it <= limit, "iteration-limit", "load step %d makes iteration %d of at most %d", s, it, limit);
      auto& c = (*evs)[k++]; calls++;
      bool met = c.val < crit, edge = std::fabs(c.val - crit) <= 1e-9 * crit; bool div = c.val > 1e6 * (1 - 1e-9) || !(c.val == c.val); diverged |= div;
      bool next = k < evs->size() && (*evs)[k].type == 'c';
      if (edge && npp) met = k < evs->size() && (*evs)[k].type == 's'; else if (edge) { sample("criterion on the edge, no observer"); return; }
      if (met) break;
      if (k == evs->size() && log.inSolver && it < limit) { stopped = true; break; }
      if (k == evs->size()) {
        SIM_CHECK(r.loud(), "silent-stop", "load step %d does not converge and the analysis ends with %s", s, kindName(r.kind));
        SIM_CHECK(div || it >= limit, "premature-end", "load step %d given up after %d of %d iterations, criterion value %g", s, it, limit, c.val);
        stopped = true; break;
      }
      SIM_CHECK(next || (*evs)[k].type == 'x', "published-unconverged", "load step %d iteration %d has criterion value %g >= %g, but then comes %s", s, it, c.val, crit, nm(k).c_str());
    }
    if (stopped) break;
    expectPP('s', s, "after convergence"); published++;
  }
  if (stopped) { SIM_CHECK(r.loud(), "silent-stop", "the analysis stopped in step %d of %d but reports %s", published + 1, N, kindName(r.kind)); SIM_CHECK(k == evs->size(), "continued-after-failure", "after the failure: %s", nm(k).c_str()); }
  else {
    expectPP('e', 0, "after the last step");
    SIM_CHECK(k == evs->size() && r.kind == OK, "work-after-end", "after the end: %s, outcome %s", nm(k).c_str(), kindName(r.kind));
  }
  if ((mode == 0 || mode == 4) && linear && limit >= 3 && !diverged && !threw) SIM_CHECK(r.kind == OK, "no-completion", "a linear problem whose disturbances stop 2 iterations before the limit does not complete (%d of %d steps, outcome %s)", published, N, kindName(r.kind));
  if (r.kind == OK || r.kind == EXC) attempt([&] { delete so; delete st; delete eq; });
  simtime((t1 - t0) * published / N); stat("equilibrium-iterations", calls); stat("steps-published", published); stat(stopped ? "outcome.stopped" : "outcome.completed");
  sample(desc + fmt(", %d iterations, %d published, %s", calls, published, kindName(r.kind)));
  if (mode != 0 && calls > 1) nontrivial();
}
Register reg({"C07", run, 4000000, 40000000,
  "random nonlinear models, limits, criteria and step counts; at every call the equation solver's answer may be exact, noisy, stalled, shrunk, grown, flipped, zero, huge, NaN, infinite or an exception; the recorded history of solver answers and post-processor calls is checked against an executable protocol model with the criterion recomputed from the answers; nontrivial: disturbed solver and more than one iteration",
  "real: NonlinearFESolver, TimeControl, FEStorage, sparse matrices, GaussDense elimination, Mpc/RigidBody; scripted: corrections returned by the equation solver, user elements and post-processors"});
}
