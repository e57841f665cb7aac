// C17: several clients share one equation solver; a seeded scheduler interleaves their calls.
#include "model.h"
using namespace sim;
using namespace mdl;
struct Sys1 { int n; std::vector<std::vector<double>> A; math::SparseSymMatrix* M = nullptr; bool singular = false; std::vector<std::vector<char>> pat; };

static Sys1 genSys(bool singular) {
  Sys1 s; s.n = range(1, chance(1, 6) ? 24 : 7); int n = s.n; s.singular = singular;
  s.A.assign(n, std::vector<double>(n, 0));
  double sc = chance(1, 4) ? real(1e-3, 1000, 40) : chance(1, 4) ? std::ldexp(1.0, range(-36, 36)) : 1.0;
  bool indef = chance(1, 3);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
    double v = (i == j) ? (real(1, 4, 24) + n) * (indef && chance(1, 2) ? -1 : 1) : chance(1, 2) ? real(-1, 1, 32) : 0.0;
    s.A[i][j] = s.A[j][i] = v * sc;
  }
  if (n >= 2 && chance(1, 6) && !singular) { // a Lagrange-multiplier row: zero diagonal
    int k = n - 1; s.A[k][k] = 0; bool any = false; for (int j = 0; j < k; j++) any |= s.A[k][j] != 0; if (!any) s.A[k][0] = s.A[0][k] = sc;
  }
  if (n >= 2 && !singular && chance(1, 4)) {     // no usable diagonal: far pivots
    std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i; sim::shuffle(q);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s.A[i][j] = 0;
    for (int i = 0; i + 1 < n; i += 2) s.A[q[i]][q[i + 1]] = s.A[q[i + 1]][q[i]] = sc * (real(1, 4, 24) + n) * (chance(1, 2) ? -1 : 1);
    if (n % 2) s.A[q[n - 1]][q[n - 1]] = sc * (n + 1);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s.A[i][j] == 0 && chance(1, 4)) s.A[i][j] = s.A[j][i] = sc * real(-1, 1, 32);
    stat("systems.far-pivots");
  }
  if (singular) {
    if (n == 1 || chance(1, 2)) { int k = (int)draw(n); for (int j = 0; j < n; j++) s.A[k][j] = s.A[j][k] = 0; }
    else { int a = (int)draw(n), b = (a + 1 + (int)draw(n - 1)) % n; for (int j = 0; j < n; j++) s.A[b][j] = s.A[a][j]; for (int j = 0; j < n; j++) s.A[j][b] = s.A[j][a]; }
  }
  return s;
}
// a large banded system with a few far couplings
static Sys1 genBig() {
  Sys1 s; s.n = range(250, 300); int n = s.n; s.A.assign(n, std::vector<double>(n, 0)); double d = real(4, 8, 16), o = real(-1, 1, 16);
  for (int i = 0; i < n; i++) { s.A[i][i] = d + i % 7; if (i + 1 < n) s.A[i][i + 1] = s.A[i + 1][i] = o; }
  for (int k = 0; k < 6; k++) { int i = (int)draw(n), j = (int)draw(n); if (i != j) s.A[i][j] = s.A[j][i] = real(-1, 1, 16); }
  stat("systems.large"); return s;
}
static bool judged(const Sys1& s);
static void fillSys(Sys1& s) {
  int n = s.n; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (s.A[i][j] != 0) s.M->addValue(i + 1, j + 1, s.A[i][j]);
}
static void buildSys(Sys1& s) {
  int n = s.n; s.M = new math::SparseSymMatrix(n, n + 1); s.pat.assign(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (s.A[i][j] != 0) { s.M->addEntry(j + 1, i + 1); s.pat[i][j] = s.pat[j][i] = 1; }
  s.M->compress(); fillSys(s);
}
static bool wellPosed(const Sys1& s, const std::vector<double>& b, std::vector<long double>& x) {
  std::vector<std::vector<long double>> A(s.n, std::vector<long double>(s.n)); std::vector<long double> B(s.n);
  long double mx = 0; for (auto& r : s.A) for (double v : r) mx = std::max(mx, (long double)fabs(v));
  if (mx == 0) return false;
  for (int i = 0; i < s.n; i++) { B[i] = b[i] / mx; for (int j = 0; j < s.n; j++) A[i][j] = s.A[i][j] / mx; }
  return denseSolve(A, B, x);
}
static bool judged(const Sys1& s) {              // far enough from a singular system
  std::vector<double> ones(s.n, 1); std::vector<long double> x; if (!wellPosed(s, ones, x)) return false;
  long double mx = 0; for (auto v : x) mx = std::max(mx, fabsl(v)); double amin = 1e300; for (int i = 0; i < s.n; i++) { double m = 0; for (int j = 0; j < s.n; j++) m = std::max(m, fabs(s.A[i][j])); amin = std::min(amin, m); }
  return mx * amin <= 1e5;
}
// the client changes its own matrix between two calls: other values in the same object, or another object (host decides)
static void changeSys(Sys1& s) {
  int how; Sys1 t = s;
  { Host h; how = (int)draw(3);
    for (int i = 0; i < t.n; i++) for (int j = i; j < t.n; j++) if (t.A[i][j] != 0) { double f = how == 2 ? real(0.5, 2, 12) : i == j ? real(0.5, 3, 20) : real(-1, 1, 16); t.A[i][j] *= f; t.A[j][i] = t.A[i][j]; }
    if (!judged(t)) return;
    s.A = t.A; stat("fault.matrix-changed-between-calls"); ev("matrix changed, %s", how == 0 ? "same object" : how == 1 ? "new object" : "new object, old freed first"); }
  if (how == 0) { s.M->zero(); fillSys(s); }
  else if (how == 1) { auto* old = s.M; buildSys(s); delete old; }
  else { delete s.M; buildSys(s); }
}
static u64 calls, mixes; static int lastClient;
static void client(int id, math::EquationSolver* eq, std::vector<Sys1>* sys, const std::vector<int>* prog, const std::vector<std::vector<double>>* rhs, int* singSeen) {
  size_t r = 0;
  auto verify = [&](Sys1& s, const std::vector<double>& b, const std::vector<double>& u, const char* how) {
    Host h; std::vector<long double> x;
    sim::step();
    if (!wellPosed(s, b, x)) return;
    double sc = 0; for (auto v : x) sc = std::max(sc, (double)fabsl(v));
    double res = 0, rs = 0; for (int i = 0; i < s.n; i++) { long double q = -b[i]; for (int j = 0; j < s.n; j++) { q += (long double)s.A[i][j] * u[j]; rs = std::max(rs, fabs(s.A[i][j]) * sc); } res = std::max(res, (double)fabsl(q)); rs = std::max(rs, fabs(b[i])); }
    for (int i = 0; i < s.n; i++) SIM_CHECK(std::isfinite(u[i]), "wrong-solution", "client %d: %s returned a non-finite unknown for a regular %d x %d system", id, how, s.n, s.n);
    SIM_CHECK(res <= 1e-8 * rs * s.n, "wrong-solution", "client %d: %s does not solve the %d x %d system passed to the call (residual %.3g)", id, how, s.n, s.n, res);
    for (int i = 0; i < s.n; i++) hashD(u[i]);
  };
  for (int op : *prog) {
    Sys1& s = (*sys)[op % sys->size()]; int what = op / 16;
    std::vector<double> b, u; { Host h; b.assign((*rhs)[r].begin(), (*rhs)[r].begin() + s.n); r++; u.assign(s.n, 1e300); }
    std::vector<double> b0; { Host h; b0 = b; calls++; if (lastClient != id) mixes++; lastClient = id; ev("client %d op %d n %d sing %d", id, what, s.n, (int)s.singular); }
    if (s.singular) {
      Outcome o = attempt([&] { if (what == 0) eq->solveEquations(s.M, b.data(), u.data()); else { eq->factorizeEquations(s.M); sched::yield("between"); eq->substituteEquations(s.M, b.data(), u.data()); } });
      Host h;
      SIM_CHECK(o.loud(), "singular-accepted", "client %d: singular %d x %d system answered as if solved (outcome %s)", id, s.n, s.n, kindName(o.kind));
      (*singSeen)++; stat("fault.singular-system");
      continue;
    }
    { bool ch; { Host h; ch = chance(1, 4); } if (ch) changeSys(s); }
    if (what == 0) { eq->solveEquations(s.M, b.data(), u.data()); verify(s, b0, u, "solve"); }
    else {
      eq->factorizeEquations(s.M); sched::yield("factorized");
      for (int k = 0; k < what; k++) {
        for (auto& v : u) v = 1e300;
        { Host h; for (int i = 0; i < s.n; i++) b[i] = b0[i] * (1 + k); }
        std::vector<double> bk; { Host h; bk = b; }
        eq->substituteEquations(s.M, b.data(), u.data()); verify(s, bk, u, "substitute after factorize");
        sched::yield("substituted");
      }
    }
    sched::yield("op");
  }
}
static void run() {
  setStepBudget(2000000);
  calls = mixes = 0; lastClient = -1;
  static const int fills[] = {-1, 0x00, 0xff, 0x7f, 0x41}; mem::fill(fills[draw(5)]);
  int nc = range(1, 4); bool useDefault = chance(1, 2);
  static math::GaussDenseEquationSolver own; math::EquationSolver* eq = useDefault ? math::defaultEquationSolver : &own;
  std::vector<std::vector<Sys1>> sys(nc); std::vector<std::vector<int>> prog(nc); std::vector<std::vector<std::vector<double>>> rhs(nc); int sing = 0;
  bool withSing = chance(1, 4);
  std::string d;
  for (int c = 0; c < nc; c++) {
    bool big = c == 0 && chance(1, 200); int ns = range(1, 3); for (int i = 0; i < ns; i++) {
      Sys1 s = big && i == 0 ? genBig() : genSys(false); if (!judged(s)) { s = Sys1(); s.n = 1; s.A = {{2}}; }       // nearly singular: not judged
      sys[c].push_back(s);
    }
    if (withSing && c == nc - 1) sys[c].push_back(genSys(true));
    for (auto& s : sys[c]) buildSys(s);
    int np = range(1, big ? 3 : 8); for (int i = 0; i < np; i++) prog[c].push_back((int)draw(4) * 16 + (int)draw(sys[c].size()));
    rhs[c].resize(np); for (auto& v : rhs[c]) { double sc = chance(1, 4) ? std::ldexp(1.0, range(-60, 40)) : chance(1, 12) ? 0.0 : 1.0; for (int i = 0; i < 24; i++) v.push_back(sc * real(-5, 5, 40)); if (big) for (int i = 24; i < 300; i++) v.push_back(v[i - 23]); }
    d += fmt("client %d: %d systems (n =", c, (int)sys[c].size()); for (auto& s : sys[c]) d += fmt(" %d%s", s.n, s.singular ? "s" : ""); d += fmt("), %d ops; ", np);
  }
  // op value: what*16 + system index; system index < 4 always
  for (int c = 0; c < nc; c++) sched::spawn([&, c] { client(c, eq, &sys[c], &prog[c], &rhs[c], &sing); });
  sched::setPolicy((int)draw(2));
  sched::run();
  stat("solver.calls", calls); stat("solver.client-changes", mixes);
  if (mixes > 1 || sing) nontrivial();
  sample(d + fmt("%s solver, %llu switches", useDefault ? "process-wide default" : "own shared", (unsigned long long)sched::switches()));
}
static Register reg({"C17", run, 4000000, 40000000,
  "solution of every solve/factorize/substitute call under seeded interleavings of 1-4 clients sharing one solver is substituted back into the system passed to that call; exactly singular systems must end fatally; nontrivial: at least two client changes or a singular system",
  "real: GaussDenseEquationSolver (own and process default), SparseSymMatrix; simulated: scheduler, memory contents"});
