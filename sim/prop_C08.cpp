// C08: every published nonlinear step against boundary data, equilibrium, constraints and reactions.
#include "nonlin.h"
using namespace sim;
using namespace mdl;
namespace {
double maxAbs(const std::vector<double>& v) { double a = 0; for (double x : v) a = std::max(a, std::fabs(x)); return a; }
struct Run { FEStorage* st = nullptr; NonlinearFESolver* so = nullptr; FaultyEq* eq = nullptr; NlLog log; Inst in; Outcome out; int perturbed = 0; };
void exec(Run& R, const Model& m, const Perm& p, int N, int limit, double crit, double t0, double t1, int per, double amp) {
  R.out = attempt([&] {
    R.st = new FEStorage; R.so = new NonlinearFESolver; R.eq = new FaultyEq; R.eq->st = R.st; R.eq->log = &R.log; R.eq->crit = crit; R.eq->exactIfConverging = true;
    int done = 0; size_t lastPub = 0;
    if (per) R.eq->disturbRhs = [&R, per, amp, done, lastPub](math::SparseSymMatrix*, double* r, int nS) mutable {
      if (R.in.snaps.size() != lastPub) { lastPub = R.in.snaps.size(); done = 0; }
      if (done >= per || !chance(1, 2)) return; done++; R.perturbed++; int k = range(1, nS); for (int i = 0; i < k; i++) r[draw(nS)] += amp * real(-1, 1, 64); };
    R.in.build(m, p, R.st, R.so); R.so->attachEquationSolver(R.eq); R.so->numberOfIterations = limit; R.so->numberOfLoadsteps = N; R.so->convergenceCriteria = crit;
    if (t0 != 0 || t1 != 1) { R.so->timeControl.setStartTime(t0); R.so->timeControl.setEndTime(t1); }
    R.so->addPostProcessor(new LogObs(R.st, &R.log, 0)); R.so->addPostProcessor(new Obs(R.st, &R.in)); R.so->solve();
  });
}
void release(Run& R) { if (R.out.kind == OK || R.out.kind == EXC) attempt([&] { delete R.so; delete R.st; delete R.eq; }); }
void checkFixed(const Model& m, const Inst& in, const Snap& s, int N) {
  double t = (double)s.step / N;
  for (auto& f : m.fix) for (size_t i = 0; i < in.ids.size(); i++) if (in.ids[i] == DofId{0, f.node, f.type})
    SIM_CHECK(mdl::close(s.U[i], f.v * t, 1e-9, 1), "prescribed-value", "step %d of %d: %s is %.12g, prescribed %.12g", s.step, N, mdl::str(in.ids[i]).c_str(), s.U[i], f.v * t);
}
void solid() {
  int kind = (int)draw(2); Model m = genSolid(kind); int N = range(1, 4), lim = 30; double crit = 1e-3;
  if (chance(1, 3)) { std::vector<DofId> fr; for (auto& d : m.dofs()) if (!d.e) { bool f = false; for (auto& x : m.fix) f |= x.node == d.ent && x.type == d.type; if (!f) fr.push_back(d); } if (!fr.empty()) { auto& d = fr[draw(fr.size())]; m.load.push_back({d.ent, d.type, real(-0.05, 0.05, 16)}); } }
  Perm p = randomPerm(m); bool dist = chance(1, 2); Run A, B; static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  exec(A, m, p, N, lim, crit, 0, 1, dist ? 2 : 0, 1e-2);
  int N2 = N + 1 + (int)draw(2); exec(B, m, identity(m), N2, lim, crit, 0, 1, 0, 0); mem::fill(-1);
  sample(m.str() + fmt(", %s, %d and %d steps, %d perturbed solves, %s", m.matKind ? "Mooney-Rivlin" : "Neo-Hookean", N, N2, A.perturbed, kindName(A.out.kind)));
  if (B.out.kind == OK && !A.perturbed) SIM_CHECK(A.out.kind == OK, "not-solved", "the block deforms in %d steps but not in %d (%s)", N2, N, kindName(A.out.kind));
  SIM_CHECK(B.out.kind == OK, "not-solved", "a moderately stretched %s block cannot be solved in %d steps (%s)", kind ? "SOLID81" : "PLANE41", N2, kindName(B.out.kind));
  for (Run* R : {&A, &B}) for (auto& s : R->in.snaps) if (s.type == 's') {
    int n = R == &A ? N : N2; double t = (double)s.step / n; checkFixed(m, R->in, s, n); double rs = std::max(1e-2, maxAbs(s.R));
    for (int dir = 0; dir < 3; dir++) { double sum = 0; for (size_t i = 0; i < R->in.ids.size(); i++) if (!R->in.ids[i].e && R->in.ids[i].type == dir) sum += s.R[i]; SIM_CHECK(std::fabs(sum) <= 1e-5 * rs, "reaction-balance", "step %d of %d: reactions and loads in direction %d sum up to %.3g (largest %.3g)", s.step, n, dir, sum, rs); }
    for (size_t i = 0; i < R->in.ids.size(); i++) { bool f = false; for (auto& x : m.fix) f |= !R->in.ids[i].e && x.node == R->in.ids[i].ent && x.type == R->in.ids[i].type; if (f) continue; double l = 0; for (auto& x : m.load) if (!R->in.ids[i].e && x.node == R->in.ids[i].ent && x.type == R->in.ids[i].type) l += x.v; SIM_CHECK(mdl::close(s.R[i], l * t, 1e-9, 1), "load", "step %d: external load of %s is %.9g, applied %.9g", s.step, mdl::str(R->in.ids[i]).c_str(), s.R[i], l * t); }
  }
  if (A.out.kind == OK && B.out.kind == OK) {
    auto last = [](Run& R) { for (size_t i = R.in.snaps.size(); i-- > 0;) if (R.in.snaps[i].type == 's') return R.in.snaps[i]; return Snap(); };
    Snap a = last(A), b = last(B); double rs = std::max(1e-2, maxAbs(b.R));
    for (size_t i = 0; i < a.U.size(); i++) { double sc = A.in.ids[i].e ? 10 : 1; SIM_CHECK(mdl::close(a.U[i], b.U[i], 1e-5, sc), "final-state", "%s: %.12g after %d steps%s, %.12g after %d", mdl::str(A.in.ids[i]).c_str(), a.U[i], N, A.perturbed ? " with disturbances" : "", b.U[i], N2); SIM_CHECK(mdl::close(a.R[i], b.R[i], 1e-4, rs), "final-state", "reaction of %s: %.12g after %d steps%s, %.12g after %d", mdl::str(A.in.ids[i]).c_str(), a.R[i], N, A.perturbed ? " with disturbances" : "", b.R[i], N2); }
  }
  stat("models.solid"); stat("steps", N + N2); simtime(2); if (A.perturbed || N2 > N) nontrivial(); release(A); release(B);
}
void springs() {
  GenOpt o; o.nonlinear = true; o.maxNodes = range(1, 5); o.maxElems = range(1, 5); o.rigid = chance(1, 3); o.mpcRhs = chance(1, 6); if (chance(1, 50)) { o.maxNodes = range(9, 20); o.maxElems = range(9, 24); stat("models.big"); } Model m = genModel(o);
  bool freeMaster = false;
  if (m.rbMaster >= 0 && chance(1, 2)) {        // let the master move against a spring of its own
    El e; e.shape = ElementShape::VERTEX; e.nodes = {m.rbMaster}; e.nd = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ}; e.nl = true; e.K.assign(6, std::vector<double>(6, 0)); for (int i = 0; i < 6; i++) e.K[i][i] = real(4, 20, 16); e.F.assign(6, 0); m.el.push_back(e);
    std::vector<FixS> keep; for (auto& f : m.fix) { if (f.node == m.rbMaster && chance(1, 2)) { freeMaster = true; if (chance(1, 2)) m.load.push_back({f.node, f.type, real(-1, 1, 16)}); } else keep.push_back(f); } m.fix = keep;
  }
  bool rhsB = false; for (auto& c : m.mpc) rhsB |= c.b != 0;
  static const double cr[] = {1e-3, 1e-4, 3e-3, 1e-2}; double crit = cr[draw(rhsB ? 3 : 4)]; int N = range(1, 6); double t0 = 0, t1 = 1; if (chance(1, 4)) { t0 = real(-2, 2, 16); t1 = t0 + real(0.1, 7, 69); }
  NlRef ref = solveNewton(m, N, crit, 25); int mx = 0; for (int i : ref.iters) mx = std::max(mx, i); int limit = mx + 10;
  bool dist = chance(1, 2); Perm p = randomPerm(m); static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  Run A; exec(A, m, p, N, limit, crit, t0, t1, dist ? range(1, 4) : 0, chance(1, 3) ? 3.0 : 0.3); mem::fill(-1); Inst& in = A.in;
  sample(m.str() + fmt("%s, %d steps, criterion %g, %d perturbed solves, %zu iterations, %s", freeMaster ? " (free master)" : "", N, crit, A.perturbed, A.log.ev.size(), kindName(A.out.kind)));
  if (!ref.ok) { stat("skipped.reference-diverged"); if (A.out.kind != OK) { release(A); return; } }
  if (ref.ok && !A.perturbed && !rhsB) SIM_CHECK(A.out.kind == OK, "not-solved", "the reference Newton iteration converges in at most %d iterations per step, the analysis ends with %s after %zu solves (limit %d)", mx, kindName(A.out.kind), A.log.ev.size(), limit);
  std::map<int, int> its; { int c = 0; for (auto& e : A.log.ev) if (e.type == 'c') c++; else if (e.type == 's') { its[e.step] = c; c = 0; } }
  bool nlin = m.rbMaster >= 0, moving = false; for (auto& e : m.el) nlin |= e.c3 != 0; for (auto& f : m.fix) moving |= f.v != 0;
  for (auto& s : in.snaps) if (s.type == 's') {
    double t = (double)s.step / N; checkFixed(m, in, s, N); SIM_CHECK(s.stale < 0, "stale-element", "nonlinear, step %d: user element %d was not updated with the published solution", s.step, s.stale + 1);
    // the criterion looks at the unknowns only: a step accepted in its very first iteration is only linearised in the prescribed increments
    if (nlin && moving && its[s.step] == 1) { stat("steps.accepted-at-once"); continue; }
    std::map<DofId, double> u; std::map<DofId, LD> ul; double us = 1; for (size_t i = 0; i < in.ids.size(); i++) { u[in.ids[i]] = s.U[i]; ul[in.ids[i]] = s.U[i]; SIM_CHECK(std::isfinite(s.U[i]), "non-finite", "step %d: %s is not finite", s.step, mdl::str(in.ids[i]).c_str()); us = std::max(us, std::fabs(s.U[i])); }
    auto g = constraints(m, ul, 1);
    double dlast = crit * crit * 4 * in.ids.size(); double tolC = 1e-8 * us + 20 * dlast * dlast;
    for (size_t k = 0; k < g.size(); k++) SIM_CHECK(std::fabs((double)g[k]) <= tolC, k < m.mpc.size() ? "constraint" : "rigid-body", "step %d of %d: %s %zu is violated by %.3g", s.step, N, k < m.mpc.size() ? "constraint equation" : "rigid-body coupling", k, (double)g[k]);
    // equilibrium: exists lambda with f_int - t*load + G^T lambda = 0 on the free dofs
    auto f = internalForce(m, u); auto G = constraintRows(m, ul); std::set<DofId> fixed; for (auto& x : m.fix) fixed.insert({0, x.node, x.type});
    std::map<DofId, double> ld; for (auto& x : m.load) ld[{0, x.node, x.type}] += x.v * t;
    double fs = 1; for (auto& x : f) fs = std::max(fs, std::fabs(x.second)); int nm = (int)G.size();
    std::vector<LD> lam(nm, 0); bool lamOk = true;
    if (nm) { std::vector<std::vector<LD>> A2(nm, std::vector<LD>(nm, 0)); std::vector<LD> b(nm, 0); for (int a = 0; a < nm; a++) { for (int c = 0; c < nm; c++) for (auto& x : G[a]) if (!fixed.count(x.first)) { auto y = G[c].find(x.first); if (y != G[c].end()) A2[a][c] += x.second * y->second; } for (auto& x : G[a]) if (!fixed.count(x.first)) b[a] -= x.second * ((LD)f[x.first] - ld[x.first]); } lamOk = denseSolve(A2, b, lam); }
    if (!lamOk) { stat("skipped.dependent-constraints"); continue; }
    std::map<DofId, LD> res; for (auto& d : in.ids) res[d] = f[d]; for (int k = 0; k < nm; k++) for (auto& x : G[k]) { res[x.first] += x.second * lam[k]; } for (int k = 0; k < nm; k++) fs = std::max(fs, (double)fabsl(lam[k]));
    double st2 = 1; for (auto& e : m.el) for (size_t i = 0; i < e.K.size(); i++) st2 = std::max(st2, std::fabs(e.K[i][i]) + 6 * e.c3 * us);
    // second-order terms of the last (exact) iteration; the coupling tangent leaves first-order terms
    double tol = 1e-8 * fs + 10 * st2 * dlast * dlast + (m.rbMaster >= 0 ? 10 * fs * dlast : 0);
    for (size_t i = 0; i < in.ids.size(); i++) {
      const DofId& d = in.ids[i];
      if (!fixed.count(d)) { SIM_CHECK(std::fabs((double)res[d] - ld[d]) <= tol, "equilibrium", "step %d of %d: residual of %s is %.3g (forces %.3g, tolerance %.3g)", s.step, N, mdl::str(d).c_str(), (double)res[d] - ld[d], fs, tol); SIM_CHECK(mdl::close(s.R[i], ld[d], 1e-9, 1), "load", "step %d: external load of %s is %.9g, applied %.9g", s.step, mdl::str(d).c_str(), s.R[i], ld[d]); }
      else SIM_CHECK(std::fabs((double)res[d] - s.R[i]) <= tol * 10, "reaction", "step %d of %d: reaction of %s is %.9g, internal forces give %.9g", s.step, N, mdl::str(d).c_str(), s.R[i], (double)res[d]);
    }
    if (ref.ok && !freeMaster && !rhsB) { auto& ru = ref.U[s.step - 1]; for (auto& d : in.ids) SIM_CHECK(mdl::close(u[d], ru[d], 1e-5 + 50 * dlast * dlast, us), "state", "step %d of %d: %s is %.12g, independent Newton solution %.12g%s", s.step, N, mdl::str(d).c_str(), u[d], ru[d], A.perturbed ? " (after recovered disturbances)" : ""); }
    stat("steps");
  }
  stat("models.springs"); if (freeMaster) stat("models.free-rigid-master"); if (m.rbMaster >= 0) stat("models.rigid-body"); simtime(t1 - t0);
  if (nlin && in.snaps.size() > 2) nontrivial(); release(A);
}
void run() { setStepBudget(8000000); if (chance(1, 8)) solid(); else springs(); }
Register reg({"C08", run, 4000000, 40000000,
  "random nonlinear spring networks with element DoFs, constraint equations and rigid bodies (prescribed or free master) and small hyperelastic blocks; seeded perturbations of the linear systems, always followed by exact solves before convergence; every published step checked against prescribed values, residual, constraints, reactions, an independent long-double Newton solution and (blocks) force balance and independence of the number of steps; nontrivial: nonlinear model that published at least one step",
  "real: NonlinearFESolver, FEStorage, Mpc/RigidBody, SOLID81/PLANE41, materials, GaussDense elimination; user spring elements and right-hand-side perturbations by the harness"});
}
