// C13: histories of build / solve / delete / rebuild on one storage against fresh storages.
#include "analysis.h"
using namespace sim;
using namespace mdl;
namespace {
struct BadEq : math::GaussDenseEquationSolver {         // stops the analysis at the n-th call
  long left = 0; void hit() { if (--left == 0) throw std::runtime_error("equation solver stopped"); }
  void solveEquations(math::SparseSymMatrix* m, double* r, double* u) override { hit(); math::GaussDenseEquationSolver::solveEquations(m, r, u); }
  void factorizeEquations(math::SparseSymMatrix* m) override { hit(); math::GaussDenseEquationSolver::factorizeEquations(m); }
  void substituteEquations(math::SparseSymMatrix* m, double* r, double* u) override { hit(); math::GaussDenseEquationSolver::substituteEquations(m, r, u); }
};
struct CountPP : PostProcessor {                          // counts its calls
  int nPre = 0, nStep = 0, nPost = 0; bool order = true; static long live;
  CountPP(FEStorage* s) : PostProcessor(s) { live++; } ~CountPP() { live--; }
  void pre() override { order = order && nStep == 0 && nPost == 0; nPre++; } void process(uint16 s) override { nStep++; order = order && nPre == 1 && nPost == 0 && s == nStep; } void post(uint16) override { order = order && nPre == 1; nPost++; }
};
long CountPP::live = 0;
struct PpPlan { bool replace = false; int before = 0, after = 0; };   // what happens to the post-processors of a solver before a solve
struct Cur { AnSpec* a = nullptr; bool nodes = false, elems = false, mpcs = false, rigid = false; std::vector<u32> nodeNo, elNo; std::vector<std::string> comps; };
// a solver object, which may be used for several solves
struct Kept { FESolver* so = nullptr; FullObs* full = nullptr; std::vector<PostProcessor*> pps; std::vector<CountPP*> cnt; Inst in; int kind = 0; std::vector<u32> nodeNo; std::vector<LoadS> load; std::vector<FixS> fix; std::vector<int> pl, pf; };
bool fits(const Kept& k, const AnSpec& a, const std::vector<u32>& nodeNo, int kind) {
  if (k.kind != kind || k.nodeNo != nodeNo || k.pl != a.p.load || k.pf != a.p.fix || k.load.size() != a.m.load.size() || k.fix.size() != a.m.fix.size()) return false;
  for (size_t i = 0; i < k.load.size(); i++) if (k.load[i].node != a.m.load[i].node || k.load[i].type != a.m.load[i].type || k.load[i].v != a.m.load[i].v) return false;
  for (size_t i = 0; i < k.fix.size(); i++) if (k.fix[i].node != a.m.fix[i].node || k.fix[i].type != a.m.fix[i].type || k.fix[i].v != a.m.fix[i].v) return false;
  return true;
}
std::string solveOn(const AnSpec& a, FEStorage* st, const std::vector<u32>& nodeNo, const std::vector<u32>& elNo, int kind, Outcome& o, math::EquationSolver* eq, Kept* keep = nullptr, const std::function<void(FESolver*)>& before = nullptr, PpPlan pl = PpPlan()) {
  Kept own; Kept& k = keep ? *keep : own; Inst& in = k.in; bool fresh = !k.so;
  { in.m = &a.m; in.st = st; in.nodeNo = nodeNo; in.elNo = elNo; in.ids = a.m.dofs(); in.deriv = kind == 2; in.snaps.clear(); if (fresh) { k.kind = kind; k.nodeNo = nodeNo; k.load = a.m.load; k.fix = a.m.fix; k.pl = a.p.load; k.pf = a.p.fix; } else k.full->res.clear(); }
  o = attempt([&] {
    if (fresh) switch (kind) { case 0: k.so = new LinearFESolver; break; case 2: k.so = new LinearTransientFESolver; break; default: k.so = new NonlinearFESolver; }
    if (kind == 2) { auto* t = static_cast<LinearTransientFESolver*>(k.so); t->numberOfTimesteps = a.steps; t->time0 = a.t0; t->time1 = a.t1; t->initValue = a.m.initValue; } else if (kind) { auto* n = static_cast<NonlinearFESolver*>(k.so); n->numberOfLoadsteps = a.steps; n->numberOfIterations = 40; }
    FESolver* so = k.so; in.so = so;
    if (fresh) { if (!before) so->attachFEStorage(st); for (int i : a.p.load) so->addLoad(nodeNo[a.m.load[i].node], (Dof::dofType)a.m.load[i].type, a.m.load[i].v); for (int i : a.p.fix) so->addFix(nodeNo[a.m.fix[i].node], (Dof::dofType)a.m.fix[i].type, a.m.fix[i].v); }
    if (fresh && before) { before(so); so->attachFEStorage(st); }
    so->attachEquationSolver(eq ? eq : math::defaultEquationSolver);
    auto add = [&](PostProcessor* pp) { uint16 no = so->addPostProcessor(pp); Host h; k.pps.push_back(pp); SIM_CHECK(no == k.pps.size() && pp->getnPost_num() == no, "post-processor", "post-processor %zu gets the number %u", k.pps.size(), no); };
    auto count = [&](int n) { for (int i = 0; i < n; i++) { CountPP* c = new CountPP(st); { Host h; k.cnt.push_back(c); } add(c); } };
    if (!fresh && pl.replace) { so->deletePostProcessors(); Host h; k.pps.clear(); k.cnt.clear(); k.full = nullptr; SIM_CHECK(so->getNumberOfPostProcessors() == 0, "post-processor", "%zu post-processors are left after deleting them", so->getNumberOfPostProcessors()); SIM_CHECK(CountPP::live == 0, "post-processor", "%ld deleted post-processors are alive", CountPP::live); }
    if (!k.full) { count(pl.before); k.full = new FullObs(st, &in); add(k.full); } count(pl.after);
    { Host h; for (auto* c : k.cnt) c->nPre = c->nStep = c->nPost = 0, c->order = true; SIM_CHECK(so->getNumberOfPostProcessors() == k.pps.size(), "post-processor", "%zu post-processors are registered, %zu were added", so->getNumberOfPostProcessors(), k.pps.size()); for (size_t i = 0; i < k.pps.size(); i++) SIM_CHECK(&so->getPostProcessor(i) == k.pps[i], "post-processor", "post-processor %zu is another one", i); }
    so->solve();
    { Host h; int want = 0; for (auto& x : in.snaps) want += x.type == 's'; for (auto* c : k.cnt) SIM_CHECK(c->nPre == 1 && c->nStep == want && c->nPost == 1 && c->order, "post-processor", "a post-processor is called %d, %d and %d times during an analysis of %d published steps", c->nPre, c->nStep, c->nPost, want); } });
  std::string s;
  if (o.kind == OK) {
    for (auto& x : in.snaps) { s += fmt("%c%d\n", x.type, x.step); for (auto* v : {&x.U, &x.R, &x.V, &x.A}) { for (double d : *v) s += hexD(d) + " "; s += "\n"; } }
    for (auto& e : k.full->res) for (auto& r : e) { for (size_t q = 0; q < r.sc.size(); q++) if (&e != &k.full->res[0] || q + 1 != (size_t)scalarQuery::VOL) s += hexD(r.sc[q]) + " "; for (double d : r.ve) s += hexD(d) + " "; for (double d : r.te) s += hexD(d) + " "; s += "\n"; }
  }
  if (!keep && o.kind != ABORT) { Outcome q = attempt([&] { delete k.so; }); SIM_CHECK(q.kind == OK, "teardown", "destroying a solver ended with %s", kindName(q.kind)); }
  return s;
}
void drop(Kept*& k) { if (!k) return; Outcome q = attempt([&] { delete k->so; }); SIM_CHECK(q.kind == OK, "teardown", "destroying a solver ended with %s", kindName(q.kind)); delete k; k = nullptr; }
// bitwise, or up to rounding for elements which normalise their own parameters (INTER0)
bool differ(const std::string& a, const std::string& b, bool exact, size_t& line) {
  line = 0; if (a == b) return false; size_t p = 0, q = 0; double sc = 1e-3;   // largest number so far: displacements come first; the models are of unit size
  for (;; line++) {
    size_t pe = a.find('\n', p), qe = b.find('\n', q); if (pe == std::string::npos || qe == std::string::npos) return pe != qe;
    std::string x = a.substr(p, pe - p), y = b.substr(q, qe - q); p = pe + 1; q = qe + 1; if (x == y) continue; if (exact || x.size() != y.size() || x.size() % 17) return true;
    auto num = [](const std::string& t) { std::vector<double> v; for (size_t k = 0; k + 16 <= t.size(); k += 17) { u64 u = strtoull(t.substr(k, 16).c_str(), nullptr, 16); double d; memcpy(&d, &u, 8); v.push_back(d); } return v; };
    auto v = num(x), w = num(y); for (double d : w) sc = std::max(sc, std::fabs(d)); for (size_t k = 0; k < v.size(); k++) if (!(std::fabs(v[k] - w[k]) <= 1e-6 * sc)) return true;
  }
}
void material(const AnSpec& a, FEStorage* st) { if (a.m.needMaterial && !st->material) { Material* mat = MaterialFactory::createMaterial(a.m.matKind ? "Mooney-Rivlin" : "Neo-Hookean"); if (a.m.matKind) { mat->Ci(0) = 0.4; mat->Ci(1) = 0.1; mat->Ci(2) = 500; } else { mat->Ci(0) = 1; mat->Ci(1) = 500; } st->material = mat; } }
void run() {
  setStepBudget(30000000); vfs::reset(); clk::on(1); static const int fills[] = {-1, 0x00, 0xff, 0x41}; int f0 = fills[draw(4)];
  std::vector<AnSpec*> specs; std::string trace; u64 solves = 0, resolves = 0, teardowns = 0, interrupted = 0; long e0 = HElem::live, p0 = Obs::live; bool dead = false; int matKind = -1;
  // everything that is initialised once per process is touched before memory is accounted
  attempt([&] { math::SparseSymMatrix w(2); w.compress(); w.addValue(1, 1, 1); w.addValue(2, 2, 1); double b[2] = {1, 1}, x[2]; math::defaultEquationSolver->solveEquations(&w, b, x); });
  auto make = [&] { AnOpt o; o.files = false; AnSpec* a = new AnSpec(genAnalysis(o)); if (chance(1, 6)) { GenOpt g; g.nonlinear = true; g.mpcRhs = false; g.rigid = true; g.maxNodes = 4; g.maxElems = 3; a->kind = 1; a->m = genModel(g); a->p = randomPerm(a->m); a->steps = range(1, 3); } if (a->m.needMaterial) { if (matKind >= 0 && a->m.matKind != matKind) a->m.matKind = matKind; matKind = a->m.matKind; } specs.push_back(a); return a; };
  u64 live0 = mem::liveBlocks(); mem::mark(); mem::fill(f0);
  FEStorage* st = nullptr; Kept* kept = nullptr; u64 reused = 0, elsewheres = 0; Cur c; Outcome o = attempt([&] { st = new FEStorage; });
  auto rebuild = [&](const char* what, const std::function<void()>& f) { Outcome q = attempt(f); ev("op %s", what); trace += fmt(" %s", what); SIM_CHECK(q.kind == OK, "operation", "%s ended with %s %s (history:%s)", what, kindName(q.kind), q.what.c_str(), trace.c_str()); };
  auto complete = [&] {         // adds what is missing
    if (!c.a) c.a = make(); AnSpec& a = *c.a;
    if (!c.nodes) { rebuild("add-nodes", [&] { std::vector<u32> no; addNodes(a.m, a.p, st, no); Host h; c.nodeNo = no; }); c.nodes = true; }
    if (!c.elems) { rebuild("add-elements", [&] { std::vector<u32> no; addElems(a.m, a.p, st, c.nodeNo, no); Host h; c.elNo = no; }); c.elems = true; }
    if (!c.mpcs) { rebuild("add-mpcs", [&] { addMpcs(a.m, a.p, st, c.nodeNo); }); c.mpcs = true; }
    if (!c.rigid) { rebuild("add-rigid", [&] { addRigid(a.m, st, c.nodeNo); }); c.rigid = true; }
    attempt([&] { material(a, st); }); };
  auto counts = [&](const char* when) {
    u32 nn = 0, ne = 0; attempt([&] { nn = st->nNodes(); ne = st->nElements(); }); SIM_CHECK(nn == (c.nodes ? c.a->m.pos.size() : 0), "count", "%u nodes after %s, expected %zu (history:%s)", nn, when, c.nodes ? c.a->m.pos.size() : 0, trace.c_str()); SIM_CHECK(ne == (c.elems ? c.a->m.el.size() : 0), "count", "%u elements after %s, expected %zu (history:%s)", ne, when, c.elems ? c.a->m.el.size() : 0, trace.c_str());
    size_t gen = 0; if (c.elems) for (auto& e : c.a->m.el) gen += e.kind == GEN; SIM_CHECK(HElem::live - e0 == (long)gen, "leak", "%ld user elements are alive after %s, the storage holds %zu (history:%s)", HElem::live - e0, when, gen, trace.c_str());
    if (c.nodes) for (size_t i = 0; i < c.a->m.pos.size(); i++) { double x[3]; attempt([&] { st->getNodePosition(c.nodeNo[i], x); }); for (int k = 0; k < 3; k++) SIM_CHECK(x[k] == c.a->m.pos[i][k], "lookup", "node %u is at another place after %s (history:%s)", c.nodeNo[i], when, trace.c_str()); }
    for (auto& n : c.comps) { FEComponent* f = nullptr; attempt([&] { f = st->getFEComponent(n); }); SIM_CHECK(f && f->name == n && f->list.size() == n.size() && f->list[0] == n.size(), "lookup", "component %s is not found after %s (history:%s)", n.c_str(), when, trace.c_str()); }
    FEComponent* f = (FEComponent*)1; attempt([&] { f = st->getFEComponent("absent"); }); SIM_CHECK(f == nullptr, "lookup", "a component that was never added is found"); };
  int nops = range(2, chance(1, 4) ? 24 : 10);
  for (int k = 0; k < nops && !dead; k++) {
    int op = (int)draw(12); const char* nm = "";
    switch (op) {
      case 0: case 1: case 2: case 3: {
        nm = "solve"; complete(); AnSpec a = *c.a; int kind = a.kind == 3 ? 1 : a.kind; if (kind == 2 && chance(1, 3)) kind = 0; if (kind != 0 && chance(1, 2)) a.steps = range(1, 3);
        std::vector<u32> nodeNo = c.nodeNo, elNo = c.elNo;
        std::string base = isolated([&] { mem::fill(-1); FEStorage* s2 = nullptr; std::vector<u32> n2, e2; Outcome q = attempt([&] { s2 = new FEStorage; addMesh(c.a->m, a.p, s2, n2, e2); material(a, s2); }); if (q.kind != OK) return std::string("failed"); std::string r = solveOn(a, s2, n2, e2, kind, q, nullptr); return q.kind == OK ? r : std::string("failed"); });
        if (base == "failed") { stat("skipped.baseline-failed"); trace += " (baseline failed)"; k = nops; break; }
        PpPlan plan; if (chance(1, 3)) { plan.replace = chance(1, 2); plan.before = (int)draw(3); plan.after = (int)draw(3); }
        bool bad = chance(1, 5); BadEq* be = nullptr; if (bad) { Outcome q = attempt([&] { be = new BadEq; }); be->left = range(1, 6); }
        bool again = kept && fits(*kept, a, nodeNo, kind) && !chance(1, 4); if (!again) { drop(kept); if (chance(1, 2)) kept = new Kept; }
        // the solver worked for another storage before
        bool elsewhere = !again && chance(1, 6); auto other = [&](FESolver* so) { FEStorage* s2 = new FEStorage; std::vector<u32> n2, e2; addMesh(c.a->m, a.p, s2, n2, e2); material(a, s2); if (n2 == nodeNo) { so->attachFEStorage(s2); so->solve(); elsewheres++; } delete s2; Host h; std::vector<u32>().swap(n2); std::vector<u32>().swap(e2); };
        std::string got = solveOn(a, st, nodeNo, elNo, kind, o, be, kept, elsewhere ? std::function<void(FESolver*)>(other) : nullptr, plan); trace += std::string(again ? " same-solver" : "") + (bad && o.kind != OK ? " solve!" : " solve"); solves++; reused += again;
        if (bad) attempt([&] { delete be; });
        if (bad && o.kind == EXC) { interrupted++; stat("fault.solver-exception"); break; }
        SIM_CHECK(o.kind == OK, "solve-failed", "a solution that succeeds in a fresh storage ended with %s %s (history:%s)", kindName(o.kind), o.what.c_str(), trace.c_str());
        bool exact = true; for (auto& e : a.m.el) exact &= e.kind != INT0; size_t line;
        if (differ(got, base, exact, line)) violation("results", "results differ from a fresh storage, first in part %zu (history:%s; %s)", line, trace.c_str(), a.str().c_str());
        u32 nm2 = 0; attempt([&] { nm2 = st->nMpc(); }); u32 want = (u32)a.m.mpc.size(); for (auto& b : a.m.rigid()) want += (u32)(b.slaves.size() * b.dofs.size()); SIM_CHECK(nm2 == want, "count", "%u constraint equations after the solution, expected %u (history:%s)", nm2, want, trace.c_str());
        { std::string bad2; Outcome q = attempt([&] {          // lookups of the solved storage
            for (size_t i = 0; i < nodeNo.size() && bad2.empty(); i++) { double x[3], y[3]; u32 n = nodeNo[i]; st->getNodePosition(n, x, false); st->getNodePosition(n, y, true); static const Dof::dofType ax[] = {Dof::UX, Dof::UY, Dof::UZ};
              for (int d = 0; d < 3; d++) { double w = a.m.pos[i][d] + (st->isNodeDofUsed(n, ax[d]) ? st->getNodeDofSolution(n, ax[d]) : 0.0); if (x[d] != a.m.pos[i][d] || !(std::fabs(y[d] - w) <= 1e-12 * (std::fabs(w) + std::fabs(a.m.pos[i][d])))) { Host h; bad2 = fmt("position of node %u: %.17g, deformed %.17g, expected %.17g and %.17g", n, x[d], y[d], a.m.pos[i][d], w); break; } } }
            for (size_t i = 0; i < elNo.size() && bad2.empty(); i++) { Node* p[32] = {}; Element& e = st->getElement(elNo[i]); st->getElementNodes(elNo[i], p); bool okk = e.getElNum() == elNo[i] && &e.getStorage() == st && e.getNNodes() == a.m.el[i].nodes.size(); for (size_t j = 0; okk && j < a.m.el[i].nodes.size(); j++) okk = p[j] == &st->getNode(nodeNo[a.m.el[i].nodes[j]]); if (!okk) { Host h; bad2 = fmt("element %u reports other nodes, number or storage", elNo[i]); } } });
          SIM_CHECK(q.kind == OK && bad2.empty(), "lookup", "%s %s after a solution (history:%s)", bad2.c_str(), kindName(q.kind), trace.c_str()); }
        if (solves > 1) resolves++; break; }
      case 4: nm = "deleteSolutionData"; rebuild(nm, [&] { st->deleteSolutionData(); }); { u32 d = 1; attempt([&] { d = st->nDofs() + st->nConstrainedDofs() + st->nUnknownDofs(); }); SIM_CHECK(d == 0, "count", "DoF counters are not zero after %s", nm); } break;
      case 5: nm = "deleteMesh"; if (chance(1, 2)) rebuild("deleteSolutionData", [&] { st->deleteSolutionData(); }); rebuild(nm, [&] { st->deleteMesh(); }); c = Cur(); teardowns++; { u32 n = 1; attempt([&] { n = st->nMpc(); }); SIM_CHECK(n == 0, "count", "%u constraint equations after deleteMesh", n); } break;
      case 6: nm = "deleteElements"; rebuild(nm, [&] { st->deleteElements(); }); c.elems = false; if (c.a && chance(1, 2)) { AnSpec* a = new AnSpec(*c.a); a->p.el = randomPerm(a->m).el; specs.push_back(a); c.a = a; } break;
      case 7: nm = "deleteMpcs"; if (c.a && !chance(1, 3)) { AnSpec* a = new AnSpec(*c.a); a->m.mpc.clear(); a->p.mpc.clear(); for (auto& e : a->m.el) (void)e; specs.push_back(a); bool re = c.elems; rebuild(nm, [&] { st->deleteMpcs(); }); if (re) { rebuild("deleteElements", [&] { st->deleteElements(); }); c.elems = false; } c.a = a; c.mpcs = false; } else { rebuild(nm, [&] { st->deleteMpcs(); }); c.mpcs = false; } break;
      case 8: nm = "deleteMpcCollections"; rebuild(nm, [&] { st->deleteMpcCollections(); }); c.rigid = false; break;
      case 9: nm = "components"; if (chance(1, 2)) { rebuild("deleteFeComponents", [&] { st->deleteFeComponents(); }); c.comps.clear(); } else { std::string n = "C" + std::string(c.comps.size() + 1, 'x'); rebuild(nm, [&] { FEComponent* f = new FEComponent; f->name = n; f->type = FEComponent::NODES; f->list.assign(n.size(), (u32)n.size()); st->addFEComponent(f); }); c.comps.push_back(n); } break;
      case 10: nm = "deleteNodes"; rebuild(nm, [&] { st->deleteNodes(); }); c.nodes = false; if (c.a) { std::vector<u32> no = c.nodeNo; rebuild("add-nodes", [&] { std::vector<u32> n2; addNodes(c.a->m, c.a->p, st, n2); }); c.nodes = true; } break;
      default: { nm = "move-node"; complete(); if (c.a->m.needMaterial) break; AnSpec* a = new AnSpec(*c.a); size_t i = draw(a->m.pos.size()); int d = (int)draw(2); a->m.pos[i][d] += real(-0.125, 0.125, 8); bool geo = false; for (auto& e : a->m.el) geo |= e.kind != GEN; specs.push_back(a); if (!geo) break;
        // user elements refer to the old description, which holds the same matrices
        c.a = a; rebuild(nm, [&] { st->getNode(c.nodeNo[i]).pos[d] = a->m.pos[i][d]; }); }
    }
    if (o.kind == ABORT) { dead = true; break; }
    counts(nm);
  }
  sample(trace + (c.a ? "; last model " + c.a->str() : std::string()));
  if (!dead) {
    if (chance(1, 2)) drop(kept);
    Outcome q = attempt([&] { delete st; }); SIM_CHECK(q.kind == OK, "teardown", "destroying the storage ended with %s (history:%s)", kindName(q.kind), trace.c_str());
    drop(kept);
    SIM_CHECK(HElem::live == e0 && Obs::live == p0 && CountPP::live == 0, "leak", "%ld user elements and %ld post-processors survive their storage and solver (history:%s)", HElem::live - e0, Obs::live - p0 + CountPP::live, trace.c_str());
    u64 live1 = mem::liveBlocks(); if (live1 > live0) mem::dumpSinceMark(); SIM_CHECK(live1 <= live0, "leak", "%lld memory blocks survive the storage and its solvers (history:%s)", (long long)(live1 - live0), trace.c_str());
  }
  mem::fill(-1); stat("solves", solves); stat("repeated-solves", resolves); stat("solver-object-reused", reused); stat("solver-used-elsewhere", elsewheres); stat("mesh-deletions", teardowns); stat("interrupted-solves", interrupted); simtime((double)solves); if (resolves) nontrivial();
}
Register reg({"C13", run, 4000000, 40000000,
  "histories of up to 24 public storage operations (add, solve with linear/nonlinear/transient solvers, solves interrupted by an exception, deletions as a whole and by kind, moved nodes, components) on one storage; each solve is compared bit by bit with the same model in a fresh storage of an isolated process; counters and lookups against a model; after the storage is destroyed no user element, post-processor or heap block of it is alive; nontrivial: a second solve on the same storage",
  "real: FEStorage, all solvers, elements, MPC collections, materials; simulated: allocator accounting and contents, equation solver exceptions"});
}
