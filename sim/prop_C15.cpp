// C15: the load clock. Histories of increments and equilibrium iterations against a small reference
// clock; half of the runs drive the clock through a real nonlinear analysis whose equation solver
// stalls at seeded iterations.
#include "model.h"
using namespace sim;
using namespace mdl;
static const double EPS = 2e-6;      // relative slack for "not larger than requested"

static void direct() {
  double t0, t1;
  switch (draw(4)) {
    case 0: t0 = 0; t1 = 1; break;
    case 1: t0 = 0; t1 = real(0.01, 100, 5000); break;
    case 2: t0 = real(-10, 10, 4001); t1 = t0 + real(0.001, 20, 4001); break;
    default: t0 = range(-5, 5) * 0.1; t1 = t0 + range(1, 30) * 0.1; break;
  }
  TimeControl tc;
  if (chance(1, 2)) { tc.setStartTime(t0); tc.setEndTime(t1); } else { tc.setEndTime(t1); tc.setStartTime(t0); }
  ev("clock %.17g %.17g", t0, t1);
  SIM_CHECK(tc.getStartTime() == t0 && tc.getEndTime() == t1, "limits", "start/end time not kept: %.17g %.17g", tc.getStartTime(), tc.getEndTime());
  SIM_CHECK(tc.getCurrentTime() == t0, "start-time", "clock set to start at %.17g shows %.17g before the first step", t0, tc.getCurrentTime());
  SIM_CHECK(tc.getCurrentNormalizedTime() == 0, "start-time", "normalised time is %.17g before the first step", tc.getCurrentNormalizedTime());
  SIM_CHECK(tc.getCurrentStep() == 1 && tc.getNumberOfConvergedSteps() == 0 && tc.getTotalNumberOfEquilibriumSteps() == 0, "counters", "fresh clock has non-zero counters");
  bool constant = chance(1, 2);
  int N = range(1, chance(1, 4) ? 400 : 40);
  double span = t1 - t0, delta = span / N;
  if (constant && chance(1, 2)) delta = (t1 - t0) / N;
  bool even = !constant || chance(2, 3);               // a constant increment need not divide the interval
  if (!even) delta = span * real(0.004, 1.6, 2000);
  double prev = t0, total = 0; int steps = 0, iters = 0;
  for (;;) {
    double d = constant ? delta : span * real(0.02, chance(1, 8) ? 3.0 : 0.4, 500);
    sim::step();
    bool more = tc.nextStep(d);
    ev("next %.17g -> %d %.17g", d, (int)more, tc.getCurrentTime());
    SIM_CHECK(tc.getNumberOfConvergedSteps() == steps, "counters", "%d steps completed, clock counts %d", steps, (int)tc.getNumberOfConvergedSteps());
    if (!more) break;
    double now = tc.getCurrentTime();
    SIM_CHECK(tc.getCurrentStep() == steps + 1, "counters", "step %d reported as %d", steps + 1, (int)tc.getCurrentStep());
    SIM_CHECK(now > prev, "monotone", "step %d does not advance: %.17g -> %.17g", steps + 1, prev, now);
    SIM_CHECK(now <= t1, "end-time", "clock passes the end time: %.17g > %.17g", now, t1);
    SIM_CHECK(now - prev <= d * (1 + EPS) + 1e-12 * (fabs(t0) + fabs(t1)), "increment", "requested %.17g, advanced %.17g", d, now - prev);
    // the clock uses the requested increment unless it is within two increments of the end
    if (prev + 2 * d < t1 * (t1 > 0 ? 1 - 1e-9 : 1 + 1e-9) - 1e-12 * span) SIM_CHECK(fabs(now - prev - d) <= 1e-9 * (d + fabs(t0) + fabs(t1)), "increment", "far from the end the clock advanced %.17g instead of the requested %.17g", now - prev, d);
    // with a constant increment there are no needlessly short steps
    if (constant) SIM_CHECK(now - prev >= 0.5 * std::min(d, span) * (1 - 1e-6), "increment", "constant increment %.17g over [%.17g, %.17g]: step %d advances only %.17g", d, t0, t1, steps + 1, now - prev);
    double nt = tc.getCurrentNormalizedTime();
    SIM_CHECK(fabs(nt - (now - t0) / span) <= 1e-12, "normalised", "normalised time %.17g at %.17g of [%.17g, %.17g]", nt, now, t0, t1);
    if (now == t1) SIM_CHECK(nt == 1.0, "normalised", "normalised time at the end is %.17g", nt);
    int it = chance(1, 60) ? range(20, 400) : range(1, 4);
    for (int k = 1; k <= it; k++) {
      tc.nextEquilibriumStep(); iters++;
      SIM_CHECK(tc.getCurrentEquilibriumStep() == k, "counters", "iteration %d of step %d reported as %d", k, steps + 1, (int)tc.getCurrentEquilibriumStep());
      SIM_CHECK(tc.getTotalNumberOfEquilibriumSteps() == iters, "counters", "iteration %d in total reported as %d", iters, (int)tc.getTotalNumberOfEquilibriumSteps());
      SIM_CHECK(tc.getCurrentTime() == now, "monotone", "an equilibrium iteration moved the clock from %.17g to %.17g", now, tc.getCurrentTime());
      double td = tc.getCurrentTimeDelta(), tn = tc.getCurrentNormalizedTimeDelta();
      if (k == 1) { SIM_CHECK(fabs(td - (now - prev)) <= 1e-12 * (fabs(t0) + fabs(t1) + fabs(now)), "increment", "reported increment %.17g, clock moved %.17g", td, now - prev); SIM_CHECK(fabs(tn - td / span) <= 1e-12, "increment", "reported normalised increment %.17g for %.17g of %.17g", tn, td, span); total += td; }
      else SIM_CHECK(td == 0 && tn == 0, "increment", "iteration %d of a step reports an increment %.17g", k, td);
    }
    prev = now; steps++;
    SIM_CHECK(steps < 5000, "no-progress", "clock does not finish");
  }
  SIM_CHECK(prev == t1, "end-time", "the clock stopped at %.17g, end time is %.17g (difference %.3g)", prev, t1, t1 - prev);
  SIM_CHECK(tc.getCurrentNormalizedTime() == 1.0, "normalised", "final normalised time %.17g", tc.getCurrentNormalizedTime());
  SIM_CHECK(fabs(total - span) <= 1e-9 * (span + fabs(t0) + fabs(t1)), "increment", "increments add up to %.17g, interval is %.17g", total, span);
  if (constant && even) SIM_CHECK(steps == N, "step-count", "interval [%.17g, %.17g] with increment interval/%d took %d steps", t0, t1, N, steps);
  stat("clock.steps", steps); stat("clock.iterations", iters); if (constant) stat(even ? "clock.constant-increment-runs" : "clock.uneven-increment-runs");
  if (steps > 1) nontrivial();
  simtime(span);
  sample(fmt("clock [%g, %g], %s increments, %d steps, %d iterations", t0, t1, !constant ? "varying" : even ? "constant" : "constant uneven", steps, iters));
}

struct StallEq : public math::GaussDenseEquationSolver {
  std::vector<int> stall; size_t call = 0; std::vector<double>* times; NonlinearFESolver* so; int stalls = 0; std::vector<int> its;
  void solveEquations(math::SparseSymMatrix* m, double* r, double* u) override {
    math::GaussDenseEquationSolver::solveEquations(m, r, u);
    Host h;
    sim::step();
    int it = so->timeControl.getCurrentEquilibriumStep();
    if (it == 1) { times->push_back(so->timeControl.getCurrentTime()); its.push_back(0); }
    SIM_CHECK(!its.empty() && ++its.back() == it, "counters", "iteration counter %d inside the solver, %d performed", it, its.empty() ? 0 : its.back());
    bool s = call < stall.size() && stall[call] && it < 6;
    call++;
    if (s) { u[0] += 0.01 * it; stalls++; stat("fault.solver-inexact"); }
  }
};
static void driven() {
  double t0 = chance(1, 2) ? 0 : real(-3, 3, 61), t1 = t0 + real(0.5, 8, 76); int N = range(1, 25);
  Model m; m.pos = {{0, 0, 0}, {1, 0, 0}};
  El e; e.shape = ElementShape::LINE; e.nodes = {0, 1}; e.nd = {Dof::UX}; e.K = {{4, -1}, {-1, 3}}; e.F = {0, 0}; e.nl = true; e.c3 = 0; m.el.push_back(e);
  m.load.push_back({0, Dof::UX, 2}); m.fix.push_back({1, Dof::UX, 0.5});
  std::vector<double> times; StallEq eq; eq.times = &times; for (int i = 0; i < 60; i++) eq.stall.push_back(chance(1, 5));
  FEStorage st; NonlinearFESolver so; eq.so = &so; so.attachEquationSolver(&eq); so.numberOfLoadsteps = N;
  so.timeControl.setStartTime(t0); so.timeControl.setEndTime(t1);
  Inst in; std::vector<Snap>* sn = &in.snaps; int rounds = chance(1, 3) ? 2 : 1;          // the clock of a solver used again starts anew
  for (int round = 0; round < rounds; round++) {
  times.clear(); eq.its.clear(); sn->clear();
  Outcome o = attempt([&] { if (!round) { in.build(m, identity(m), &st, &so); so.addPostProcessor(new Obs(&st, &in)); } so.solve(); });
  SIM_CHECK(o.kind == OK, "solver-ended", "nonlinear analysis with recoverable stalls ended with %s %s", kindName(o.kind), o.what.c_str());
  SIM_CHECK((int)times.size() == N, "step-count", "%d load steps requested over [%.17g, %.17g], %zu performed", N, t0, t1, times.size());
  double prev = t0; for (double t : times) { SIM_CHECK(t > prev && t <= t1, "monotone", "load clock %.17g after %.17g", t, prev); prev = t; }
  SIM_CHECK(times.back() == t1, "end-time", "last load step at %.17g, end time %.17g", times.back(), t1);
  int k = 0; for (auto& s : *sn) if (s.type == 's') { k++; double nt = (times[k - 1] - t0) / (t1 - t0); SIM_CHECK(fabs(s.U[1] - 0.5 * nt) < 1e-12, "normalised", "prescribed value %.17g at step %d, normalised time %.17g", s.U[1], k, nt); }
  SIM_CHECK(so.timeControl.getNumberOfConvergedSteps() == N, "counters", "%d converged steps counted for %d", (int)so.timeControl.getNumberOfConvergedSteps(), N);
  int tot = 0; for (int i : eq.its) tot += i;
  SIM_CHECK(so.timeControl.getTotalNumberOfEquilibriumSteps() == tot, "counters", "total iterations %d, performed %d", (int)so.timeControl.getTotalNumberOfEquilibriumSteps(), tot);
  if (round) stat("driven.again");
  stat("driven.steps", N); stat("driven.iterations", tot); nontrivial(); simtime(t1 - t0);
  sample(fmt("nonlinear analysis on clock [%g, %g], %d steps, %d iterations, %d stalled solves", t0, t1, N, tot, eq.stalls));
  }
}
static void run() { setStepBudget(4000000); if (chance(1, 3)) driven(); else direct(); }
static Register reg({"C15", run, 4000000, 40000000,
  "every observable of the load clock (time, normalised time, increments, counters, step count) is compared after every call with a reference clock over seeded histories of increments and iterations; nontrivial: more than one step or a driven analysis",
  "real: TimeControl, NonlinearFESolver, FEStorage, Gauss solver; simulated: increments, number of equilibrium iterations (stalling equation solver)"});
