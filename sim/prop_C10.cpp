// C10: linear transient analyses against an independent Newmark recurrence.
#include "model.h"
using namespace sim;
using namespace mdl;
namespace {
struct Other { math::SparseSymMatrix* M; int n; };
std::vector<Other> others; u64 disturbed; bool disturbOn;
math::EquationSolver* shared;
void disturb(const char*) {                       // somebody else uses the shared equation solver
  if (!disturbOn || others.empty()) return;
  Host h; if (!chance(1, 3)) return;
  Other& o = others[draw(others.size())]; int what = (int)draw(3); std::vector<double> b(o.n, 1.0), u(o.n, 0.0); disturbed++; ev("other %d n %d", what, o.n);
  disturbOn = false; { Sut s; if (what == 0) shared->factorizeEquations(o.M); else if (what == 1) shared->solveEquations(o.M, b.data(), u.data()); else { shared->factorizeEquations(o.M); shared->substituteEquations(o.M, b.data(), u.data()); } } disturbOn = true;
}
void run() {
  setStepBudget(8000000); disturbed = 0;
  static const int fills[] = {-1, 0x00, 0xff, 0x7f, 0x41, 0xc0};
  GenOpt o; o.transient = true; o.maxNodes = range(1, 4); o.maxElems = range(1, 4); bool lng = chance(1, 50), big = !lng && chance(1, 50); if (lng) o.maxNodes = o.maxElems = 2; if (big) { o.maxNodes = range(8, 30); o.maxElems = range(8, 30); } if (!lng && !big && chance(1, 200)) { o.hub = big = true; o.mpc = false; } Model m = genModel(o);
  int n = range(1, 12); if (chance(1, 12)) n = range(13, 60); if (lng) { n = range(90, 420); stat("models.long-run"); } if (big) { n = range(1, 3); stat("models.big"); }
  double t0 = chance(1, 2) ? 0.0 : real(-3, 3, 24), len = chance(1, 2) ? real(0.3, 3, 27) : real(0.05, 9, 179);
  double al = 0.25, de = 0.5; if (chance(1, 3)) { de = real(0.5, 0.9, 8); al = 0.25 * (0.5 + de) * (0.5 + de) + real(0, 0.3, 6); }
  bool sharedEq = chance(1, 2);
  auto ref = solveNewmark(m, t0, t0 + len, n, al, de);
  double scale = 1, vs = 1, as = 1; for (auto& s : ref) { for (auto& x : s.U) scale = std::max(scale, std::fabs(x.second)); for (auto& x : s.V) vs = std::max(vs, std::fabs(x.second)); for (auto& x : s.A) as = std::max(as, std::fabs(x.second)); }
  if ((int)ref.size() != n || scale > 1e5) { sample("ill-posed model skipped"); stat("skipped"); return; }
  double dt = len / n; double as2 = std::max(as, scale / (dt * dt)), vs2 = std::max(vs, scale / dt);
  double us = 1, gs = 1; if (chance(1, 3)) { us = std::ldexp(1.0, range(-40, 20)); if (chance(1, 2)) gs = std::ldexp(1.0, range(-20, 37)); scaleModel(m, us, gs); scale *= us; vs2 *= us; as2 *= us; for (auto& s : ref) for (auto* x : {&s.U, &s.V, &s.A}) for (auto& y : *x) y.second *= us; stat("models.scaled"); }   // other units
  mem::fill(fills[draw(6)]);
  shared = math::defaultEquationSolver;
  int no = sharedEq ? range(1, 3) : 0; others.clear();
  for (int i = 0; i < no; i++) { int k = range(1, 9); auto* M = new math::SparseSymMatrix(k); M->compress(); for (int q = 1; q <= k; q++) M->addValue(q, q, 2); others.push_back({M, k}); }
  Perm p = randomPerm(m); int pp = range(1, 2);
  FEStorage* st; LinearTransientFESolver* so; Inst in; in.deriv = true; disturbOn = no > 0; hookPoint = disturb; setStepBudget(8000000);
  Outcome r = attempt([&] {
    st = new FEStorage; so = new LinearTransientFESolver; in.build(m, p, st, so); so->time0 = t0; so->time1 = t0 + len; so->numberOfTimesteps = n; so->initValue = m.initValue; so->alpha = al; so->delta = de;
    for (int i = 0; i < pp; i++) so->addPostProcessor(new Obs(st, &in));
    so->solve();
  });
  hookPoint = nullptr; mem::fill(-1);
  std::string desc = m.str() + fmt(", %d steps over [%g, %g], alpha %g delta %g, initial %g, units %g %g, %llu foreign solver calls", n, t0, t0 + len, al, de, m.initValue, us, gs, (unsigned long long)disturbed);
  sample(desc);
  SIM_CHECK(r.kind == OK, "solve-failed", "a well-posed transient analysis ended with %s %s", kindName(r.kind), r.what.c_str());
  std::vector<int> seq; for (auto& s : in.snaps) seq.push_back(s.type == 'p' ? -1 : s.type == 'e' ? -2 : s.step);
  std::vector<int> want; for (int i = 0; i < pp; i++) want.push_back(-1); for (int s = 1; s <= n; s++) for (int i = 0; i < pp; i++) want.push_back(s); for (int i = 0; i < pp; i++) want.push_back(-2);
  int pub = 0; for (auto& s : in.snaps) pub += s.type == 's';
  SIM_CHECK(pub == n * pp, "step-count", "%d step publications for %d steps and %d post-processors over [%.17g, %.17g]", pub, n, pp, t0, t0 + len);
  SIM_CHECK(seq == want, "step-order", "post-processors are not called as start, 1..%d, end", n);
  for (auto& s : in.snaps) if (s.type == 's') {
    auto& T = ref[s.step - 1]; SIM_CHECK(s.stale < 0, "stale-element", "transient, step %d: user element %d was not updated with the published solution", s.step, s.stale + 1);
    for (size_t i = 0; i < in.ids.size(); i++) {
      const DofId& d = in.ids[i];
      SIM_CHECK(std::isfinite(s.U[i]) && mdl::close(s.U[i], T.U.at(d), 1e-6, scale), "state", "step %d of %d: %s = %.12g, Newmark recurrence %.12g", s.step, n, mdl::str(d).c_str(), s.U[i], T.U.at(d));
      SIM_CHECK(std::isfinite(s.V[i]) && mdl::close(s.V[i], T.V.at(d), 1e-6, vs2), "first-derivative", "step %d of %d: first derivative of %s = %.12g, Newmark recurrence %.12g", s.step, n, mdl::str(d).c_str(), s.V[i], T.V.at(d));
      SIM_CHECK(std::isfinite(s.A[i]) && mdl::close(s.A[i], T.A.at(d), 1e-6, as2), "second-derivative", "step %d of %d: second derivative of %s = %.12g, Newmark recurrence %.12g", s.step, n, mdl::str(d).c_str(), s.A[i], T.A.at(d));
    }
  }
  for (auto& d : in.ids) SIM_CHECK(mdl::close(in.U(d), ref.back().U.at(d), 1e-6, scale), "state", "final %s differs from the last step", mdl::str(d).c_str());
  attempt([&] { delete so; delete st; });
  stat("steps", n); stat("foreign-solver-calls", disturbed); simtime(len);
  if (n > 1 && (disturbed || !m.fix.empty())) nontrivial();
}
Register reg({"C10", run, 4000000, 40000000,
  "random linear transient models, intervals, step counts and Newmark parameters; every published DoF value and its derivatives compared with an independent long-double recurrence, while other clients use the shared equation solver at seeded points; nontrivial: more than one step and either foreign solver calls or fixations",
  "real: FEStorage, LinearTransientFESolver, sparse matrices, GaussDense solver, QUADTH/LINETH elements; user elements, post-processors and foreign solver clients by the harness"});
}
