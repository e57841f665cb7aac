// C18: DoF registration in any order and repetition; equation numbering is a bijection.
#include "model.h"
using namespace sim;
using namespace mdl;
namespace {
struct Reg { bool el; int ent; std::vector<int> types; };           // ent from 1
u64 nRegs, nRepeat;
std::set<DofId> want;                                                  // ent from 0
template <class F> void callList(const std::vector<int>& t, F f) {
  auto d = [&](size_t i) { return (Dof::dofType)t[i]; };
  switch (t.size()) { case 1: f({d(0)}); break; case 2: f({d(0), d(1)}); break; case 3: f({d(0), d(1), d(2)}); break; case 4: f({d(0), d(1), d(2), d(3)}); break; case 5: f({d(0), d(1), d(2), d(3), d(4)}); break; case 6: f({d(0), d(1), d(2), d(3), d(4), d(5)}); break; case 7: f({d(0), d(1), d(2), d(3), d(4), d(5), d(6)}); break; default: f({d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7)}); break; }
}
void apply(FEStorage* st, const Reg& r) {
  { Host h; ev("reg %c%d %d", r.el ? 'E' : 'N', r.ent, (int)r.types.size()); nRegs++; for (int t : r.types) if (!want.insert({r.el, r.ent - 1, t}).second) nRepeat++; }
  if (r.el) callList(r.types, [&](std::initializer_list<Dof::dofType> l) { st->addElementDof(r.ent, l); }); else callList(r.types, [&](std::initializer_list<Dof::dofType> l) { st->addNodeDof(r.ent, l); });
}
class RegElem : public Element {
public:
  RegElem(int k, const std::vector<int>& nn, std::vector<Reg>* r) : regs(r) { static const ElementShape s[] = {ElementShape::VERTEX, ElementShape::LINE, ElementShape::TRIANGLE, ElementShape::QUAD}; shape = s[k - 1]; nodes = new uint32[k]; for (int i = 0; i < k; i++) nodes[i] = nn[i]; }
  void pre() override { for (auto& r : *regs) apply(storage, r); }
  void buildK() override {} void update() override {}
  std::vector<Reg>* regs;
};
class RegColl : public MpcCollection {                                 // user constraint collection
public:
  void pre() override { for (auto& r : *regs) apply(storage, r); for (auto* m : collection) delete m; collection.clear(); for (int i = 0; i < n; i++) { Mpc* m = new Mpc; m->b = 0; m->eq.push_back(MpcTerm(node, (Dof::dofType)type, 1)); collection.push_back(m); } }
  void update() override {}
  std::vector<Reg>* regs; int n = 0, node = 1, type = 0;
};
std::vector<int> types() { std::vector<int> t; int n = range(1, chance(1, 6) ? 8 : 4); if (chance(1, 4)) { for (int i = 0; i < 8; i++) t.push_back(i); sim::shuffle(t); t.resize(n); return t; } for (int i = 0; i < n; i++) t.push_back((int)draw(8)); return t; }
void checkSets(FEStorage* st, int nn, int ne, const char* when) {
  Host h; std::set<Dof::dofType> un, ue;
  for (auto& d : want) (d.e ? ue : un).insert((Dof::dofType)d.type);
  for (int e = 0; e < 2; e++) for (int i = 1; i <= (e ? ne : nn); i++) for (int t = 0; t < 8; t++) {
    bool w = want.count({e, i - 1, t}); Dof::dofType T = (Dof::dofType)t;
    bool u = e ? st->isElementDofUsed(i, T) : st->isNodeDofUsed(i, T); if (e ? ue.empty() : un.empty()) { SIM_CHECK(!u, "dof-set", "a DoF is used although none is registered"); continue; } Dof* d = e ? st->getElementDof(i, T) : st->getNodeDof(i, T);
    SIM_CHECK(u == w, "dof-set", "%s %d DoF %s: used = %d, registered = %d (%s)", e ? "element" : "node", i, Dof::dofTypeLabels[t], u, w, when);
    SIM_CHECK((d != nullptr) == w, "dof-set", "%s %d DoF %s: lookup gives %s, registered = %d (%s)", e ? "element" : "node", i, Dof::dofTypeLabels[t], d ? "a DoF" : "nothing", w, when);
    if (d) SIM_CHECK(d->type == T, "dof-kind", "%s %d: lookup of %s gives a %s DoF (%s)", e ? "element" : "node", i, Dof::dofTypeLabels[t], Dof::dofTypeLabels[d->type], when);
  }
  std::set<Dof*> seen; for (auto& d : want) { Dof* p = d.e ? st->getElementDof(d.ent + 1, (Dof::dofType)d.type) : st->getNodeDof(d.ent + 1, (Dof::dofType)d.type); SIM_CHECK(seen.insert(p).second, "dof-alias", "two registered DoFs share one record (%s)", when); }
  SIM_CHECK(st->getUniqueNodeDofTypes() == un && st->getUniqueElementDofTypes() == ue, "dof-types", "the set of used DoF kinds differs from the registered kinds (%s)", when);
}
void storageRun() {
  int nn = range(1, 7), ne = range(1, 5), most = 6; if (chance(1, 40)) { nn = range(8, 90); ne = range(8, 60); most = 24; stat("models.big"); } std::vector<std::vector<Reg>> regs(ne + 2);
  FEStorage* st = new FEStorage;
  if (chance(1, 2)) st->createNodes(nn); else for (int i = 0; i < nn; i++) st->addNode(new Node);
  std::vector<std::vector<int>> en(ne);
  for (int e = 0; e < ne; e++) {
    int k = range(1, std::min(4, nn)); std::vector<int> all(nn); for (int i = 0; i < nn; i++) all[i] = i + 1; sim::shuffle(all); all.resize(k); en[e] = all;
    st->addElement(new RegElem(k, all, &regs[e]));
  }
  int rounds = range(1, 3); RegColl* coll = nullptr;
  if (chance(1, 3)) { coll = new RegColl; coll->storage = st; coll->regs = &regs[ne]; coll->n = range(1, 3); st->addMpcCollection(coll); }
  int nUserMpc = 0; std::string d = fmt("%d nodes, %d elements, %d rounds", nn, ne, rounds);
  std::vector<Mpc*> userMpc;
  for (int r = 0; r < rounds; r++) {
    for (auto& q : regs) {
      q.clear(); int n = range(&q == &regs[ne + 1] ? 0 : 1, most);
      for (int i = 0; i < n; i++) { bool el = chance(1, 3); q.push_back({el, el ? range(1, ne) : range(1, nn), types()}); }
    }
    if (coll) { coll->node = range(1, nn); coll->type = (int)draw(8); regs[ne].push_back({false, coll->node, {coll->type}}); }
    want.clear(); ev("init %d", r);
    st->initDofs();
    checkSets(st, nn, ne, "after registration");
    SIM_CHECK(st->nDofs() == want.size(), "dof-count", "%u DoFs reported, %zu registered", st->nDofs(), want.size());
    SIM_CHECK(st->nConstrainedDofs() == 0, "constrained-count", "%u fixed DoFs reported before any was fixed (round %d)", st->nConstrainedDofs(), r);
    std::set<DofId> fixed; std::vector<DofId> all(want.begin(), want.end()); std::vector<DofId> ord = all; sim::shuffle(ord);
    int nf = (int)draw(ord.size()); for (int i = 0; i < nf; i++) { fixed.insert(ord[i]); for (int k = chance(1, 4) ? 2 : 1; k > 0; k--) { if (ord[i].e) st->setConstrainedElementDof(ord[i].ent + 1, (Dof::dofType)ord[i].type); else st->setConstrainedNodeDof(ord[i].ent + 1, (Dof::dofType)ord[i].type); } }
    if (chance(1, 2)) { std::vector<DofId> nd; for (auto& x : all) if (!x.e) nd.push_back(x); if (!nd.empty() && userMpc.empty()) { Mpc* m = new Mpc; m->b = 1; DofId q = nd[draw(nd.size())]; m->eq.push_back(MpcTerm(q.ent + 1, (Dof::dofType)q.type, 2)); st->addMpc(m); userMpc.push_back(m); nUserMpc++; } }
    // a user constraint of an earlier round may name a DoF that no longer exists: only numbering is checked then
    bool stale = false; for (auto* m : userMpc) for (auto& t : m->eq) if (!want.count({0, t.node - 1, t.node_dof})) stale = true;
    if (want.size() == fixed.size()) break;
    u32 nm = (u32)(userMpc.size() + (coll ? coll->n : 0));
    SIM_CHECK(st->nMpc() == nm, "mpc-count", "%u constraint equations reported, %u registered (round %d)", st->nMpc(), nm, r);
    int times = chance(1, 5) ? 2 : 1; for (int k = 0; k < times; k++) st->assignEquationNumbers();
    SIM_CHECK(st->nConstrainedDofs() == fixed.size() && st->nUnknownDofs() == want.size() - fixed.size(), "dof-count", "%u fixed and %u unknown DoFs reported, %zu and %zu registered", st->nConstrainedDofs(), st->nUnknownDofs(), fixed.size(), want.size() - fixed.size());
    std::set<u32> nums;
    for (auto& x : want) {
      u32 e = x.e ? st->getElementDofEqNumber(x.ent + 1, (Dof::dofType)x.type) : st->getNodeDofEqNumber(x.ent + 1, (Dof::dofType)x.type);
      u32 lo = fixed.count(x) ? 1 : fixed.size() + 1, hi = fixed.count(x) ? fixed.size() : want.size();
      SIM_CHECK(e >= lo && e <= hi, "eq-range", "%s (%s) has equation number %u, expected %u..%u", mdl::str(x).c_str(), fixed.count(x) ? "fixed" : "free", e, lo, hi);
      SIM_CHECK(nums.insert(e).second, "eq-twice", "equation number %u is used twice (%s)", e, mdl::str(x).c_str());
    }
    std::vector<Mpc*> ms = userMpc; if (coll) ms.insert(ms.end(), coll->collection.begin(), coll->collection.end());
    for (auto* m : ms) { SIM_CHECK(m->eqNum > want.size() && m->eqNum <= want.size() + nm, "eq-range", "a constraint equation has number %u, expected %zu..%zu", m->eqNum, want.size() + 1, want.size() + nm); SIM_CHECK(nums.insert(m->eqNum).second, "eq-twice", "equation number %u is used twice (constraint)", m->eqNum); }
    checkSets(st, nn, ne, "after numbering");
    if (!stale && chance(1, 2)) {
      st->initSolutionData();
      SIM_CHECK(st->getU()->size() == want.size() + nm && st->getF()->size() == want.size() + nm && st->getR()->size() == want.size() + nm, "vector-size", "solution vectors have %u entries instead of %zu", st->getU()->size(), want.size() + nm);
      // every pair of DoFs of one element has a place of its own in the matrix
      std::map<std::pair<u32, u32>, double> sum;
      for (int e = 0; e < ne; e++) {
        std::vector<DofId> v; for (auto& x : want) if (x.e ? x.ent == e : std::count(en[e].begin(), en[e].end(), x.ent + 1) > 0) v.push_back(x);
        auto eqn = [&](const DofId& x) { return x.e ? st->getElementDofEqNumber(x.ent + 1, (Dof::dofType)x.type) : st->getNodeDofEqNumber(x.ent + 1, (Dof::dofType)x.type); };
        for (auto& a : v) for (auto& b : v) { u32 i = eqn(a), j = eqn(b); if (i > j) continue; double w = i * 1000 + j; st->addValueK(i, j, w); sum[{i, j}] += w; }
      }
      u32 nc = fixed.size();
      for (auto& s : sum) { u32 i = s.first.first, j = s.first.second; double x = j <= nc ? st->getK()->block(1)->value(i, j) : i <= nc ? st->getK()->block(1, 2)->value(i, j - nc) : st->getK()->block(2)->value(i - nc, j - nc); SIM_CHECK(mdl::close(x, s.second, 1e-12, 1), "matrix-place", "matrix entry (%u,%u) holds %g instead of %g", i, j, x, s.second); }
    }
    if (chance(1, 4)) { ev("clear"); st->deleteSolutionData(); SIM_CHECK(st->nDofs() == 0 && st->nConstrainedDofs() == 0, "dof-count", "DoFs remain after the solution data were deleted"); }
    stat("numberings");
  }
  delete st;
  sample(d + fmt(", %llu registrations (%llu repeated)", (unsigned long long)nRegs, (unsigned long long)nRepeat));
}
void collRun() {   // the DoF table itself
  DofCollection c; int n = 0; std::map<int, std::set<int>> m; int ops = range(3, 60);
  for (int i = 0; i < ops; i++) {
    int k = (int)draw(12);
    if (n == 0 || k == 0) { n = range(1, 9); m.clear(); c.initDofTable(n); ev("init %d", n); continue; }
    if (k == 1 && chance(1, 4)) { c.clearDofTable(); n = 0; m.clear(); SIM_CHECK(c.getNumberOfUsedDofs() == 0 && c.getUniqueDofTypes().empty(), "dof-count", "DoFs remain after clearing"); continue; }
    int e = range(1, n); auto t = types(); nRegs++; for (int x : t) if (!m[e].insert(x).second) nRepeat++; ev("add %d %d", e, (int)t.size());
    callList(t, [&](std::initializer_list<Dof::dofType> l) { c.addDof(e, l); });
    size_t tot = 0; std::set<Dof::dofType> un;
    for (int q = 1; q <= n; q++) {
      auto r = c.getEntityDofs(q); std::set<int> got; for (auto it = r.first; it != r.second; ++it) SIM_CHECK(got.insert(it->type).second, "dof-twice", "entity %d holds %s twice", q, Dof::dofTypeLabels[it->type]);
      SIM_CHECK(got == m[q], "dof-set", "entity %d: %zu DoFs stored, %zu registered", q, got.size(), m[q].size()); tot += got.size();
      for (int x = 0; x < 8; x++) { Dof* d = c.getDof(q, (Dof::dofType)x); SIM_CHECK(c.isDofUsed(q, (Dof::dofType)x) == (m[q].count(x) > 0) && (d != nullptr) == (m[q].count(x) > 0) && (!d || d->type == x), "dof-set", "entity %d: lookup of %s is wrong", q, Dof::dofTypeLabels[x]); if (m[q].count(x)) un.insert((Dof::dofType)x); }
    }
    SIM_CHECK(c.getNumberOfUsedDofs() == tot && (int)c.getNumberOfEntities() == n && c.getUniqueDofTypes() == un, "dof-count", "%u DoFs reported, %zu registered", c.getNumberOfUsedDofs(), tot);
  }
  sample(fmt("DoF table: %d operations, %llu registrations (%llu repeated)", ops, (unsigned long long)nRegs, (unsigned long long)nRepeat));
}
void run() {
  setStepBudget(2000000); nRegs = nRepeat = 0;
  static const int fills[] = {-1, 0x00, 0xff, 0x7f, 0x41}; mem::fill(fills[draw(5)]);
  { Sut s; if (chance(1, 4)) collRun(); else storageRun(); }
  stat("registrations", nRegs); stat("registrations.repeated", nRepeat);
  if (nRepeat) nontrivial();
}
Register reg({"C18", run, 4000000, 40000000,
  "random registration histories (user elements, user constraint collections, repeated and overlapping registrations, several numbering rounds on one storage) with seeded memory contents, compared with a set model; nontrivial: at least one DoF registered repeatedly",
  "real: Dof, DofCollection, FEStorage numbering and matrix layout; user elements and constraint collections by the harness"});
}
