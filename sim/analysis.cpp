#include "analysis.h"
namespace mdl {
using sim::draw; using sim::chance; using sim::range; using sim::real; using sim::fmt;
std::string hexD(double d) { sim::u64 u; memcpy(&u, &d, 8); return fmt("%016llx", (unsigned long long)u); }
std::string AnSpec::str() const {
  static const char* kn[] = {"linear", "nonlinear", "transient", "hyperelastic"};
  return fmt("%s: ", kn[kind]) + m.str() + fmt(", %d steps, %s%zu reaction recorders", steps, vtk ? (vtkAll ? "vtk with all results, " : "vtk, ") : "", recs.size());
}
AnSpec genAnalysis(const AnOpt& o) {
  AnSpec a; a.kind = (int)draw(o.solids ? 7 : 6); a.kind = a.kind == 6 ? 3 : a.kind % 3; if (o.kind >= 0) a.kind = o.kind;
  GenOpt g; g.maxNodes = range(1, o.maxNodes); g.maxElems = range(1, o.maxElems); g.nonlinear = a.kind == 1; g.transient = a.kind == 2; g.mpcRhs = a.kind != 1; g.rigid = a.kind == 1 && (o.rigid || chance(1, 5)); if (o.rigid) g.maxNodes = std::max(g.maxNodes, 2);
  bool lng = o.rare && (a.kind == 1 || a.kind == 2) && chance(1, 50), big = o.rare && !lng && a.kind != 3 && chance(1, 40);
  if (lng) { g.maxNodes = range(1, 2); g.maxElems = range(1, 2); g.rigid = false; } if (big) { g.maxNodes = range(8, 24); g.maxElems = range(8, 30); }
  a.m = a.kind == 3 ? genSolid((int)draw(2)) : genModel(g);
  a.steps = a.kind == 0 ? 1 : range(1, a.kind == 3 ? 2 : 5);
  if (lng) { a.steps = range(90, 300); sim::stat("models.long-run"); } if (big) { a.steps = std::min(a.steps, 2); sim::stat("models.big"); }
  bool wide = o.rare && o.files && !lng && !big && chance(1, 60); if (wide) { sim::stat("models.many-nodes"); a.steps = std::min(a.steps, 2); for (int i = 0, k = range(250, 300); i < k; i++) a.m.pos.push_back({i / 8.0, real(-1, 1, 8), 0}); }
  if (a.kind == 2) { a.t1 = real(0.3, 3, 27); a.alpha = 0.25; }
  a.p = randomPerm(a.m);
  a.nObs = range(1, 2); a.ppOrder = (int)draw(3);
  std::vector<DofId> nd; for (auto& d : a.m.dofs()) if (!d.e) nd.push_back(d);
  if (o.files) {
    a.vtk = chance(2, 3); a.vtkAll = chance(1, 2); a.queries = chance(1, 2) ? 0 : chance(1, 2) ? (int)draw(1 << 13) : (int)(draw(2) << 1 | draw(2) << 6 | draw(2) << 10); a.queryWay = (int)draw(4); a.vtkName = o.prefix + "res";
    int nr = nd.empty() ? 0 : range(0, 2);
    for (int i = 0; i < nr; i++) {
      RecSpec r; if (chance(2, 3)) r.file = o.prefix + fmt("reac%d.txt", i);
      const DofId& d = nd[draw(nd.size())]; r.nodes.push_back(d.ent); r.dofs.push_back(d.type);
      if (chance(1, 2)) { const DofId& e = nd[draw(nd.size())]; if (e.ent != d.ent) r.nodes.push_back(e.ent); if (e.type != d.type) r.dofs.push_back(e.type); }
      if (chance(1, 3)) for (size_t n = 0; n < a.m.pos.size() && r.nodes.size() < 4; n++) { bool have = false; for (int q : r.nodes) have |= q == (int)n; if (!have) r.nodes.push_back((int)n); }
      if (wide && chance(2, 3)) { r.nodes.clear(); for (size_t n = 0; n < a.m.pos.size(); n++) r.nodes.push_back((int)n); sim::shuffle(r.nodes); }
      if (r.nodes.size() == 1 && chance(1, 4) && !a.m.fix.empty()) {
        r.nodes[0] = a.m.fix[draw(a.m.fix.size())].node; r.dofs.clear(); r.autoDofs = true;
        auto held = [&](int n) { std::set<int> s; for (auto& f : a.m.fix) if (f.node == n) s.insert(f.type); return s; }; auto h0 = held(r.nodes[0]);
        if (chance(1, 2)) for (size_t n = 0; n < a.m.pos.size(); n++) { auto h = held((int)n); if ((int)n != r.nodes[0] && std::includes(h.begin(), h.end(), h0.begin(), h0.end())) r.nodes.push_back((int)n); }
      } else if (r.nodes.size() == 1 && chance(1, 16)) { r.dofs.clear(); r.autoDofs = true; }      // possibly nothing to record
      a.recs.push_back(r);
    }
  }
  return a;
}
void FullObs::grab() {
  sim::Host h; std::vector<ElRes> all;
  for (u32 i = 1; i <= in->st->nElements(); i++) {
    Element& e = in->st->getElement(i); ElRes r;
    for (int q = 1; q < (int)scalarQuery::LAST; q++) { double v = 0; char ok = e.getScalar(&v, (scalarQuery)q); r.sc.push_back(v); r.rs.push_back(ok); }
    for (int q = 1; q < (int)vectorQuery::LAST; q++) { math::Vec<3> v; v.zero(); char ok = e.getVector(&v, (vectorQuery)q); for (int k = 0; k < 3; k++) r.ve.push_back(v[k]); r.rv.push_back(ok); }
    for (int q = 1; q < (int)tensorQuery::LAST; q++) { math::MatSym<3> t; t.zero(); char ok = e.getTensor(&t, (tensorQuery)q); for (int k = 0; k < 6; k++) r.te.push_back(t.data[k]); r.rt.push_back(ok); }
    all.push_back(r);
  }
  res.push_back(all);
}
void FullObs::pre() { grab(); Obs::pre(); }
void FullObs::process(uint16 s) { grab(); Obs::process(s); }
void AnRun::create(const AnSpec& spec, math::EquationSolver* eq) {
  a = &spec; in.task = spec.task;
  st = new FEStorage;
  switch (spec.kind) {
    case 0: so = new LinearFESolver; break;
    case 2: { auto* t = new LinearTransientFESolver; so = t; t->numberOfTimesteps = spec.steps; t->time0 = spec.t0; t->time1 = spec.t1; t->alpha = spec.alpha; t->delta = spec.delta; t->initValue = spec.m.initValue; break; }
    default: { auto* n = new NonlinearFESolver; so = n; n->numberOfLoadsteps = spec.steps; n->numberOfIterations = 40; break; }
  }
  in.deriv = spec.kind == 2;
  in.build(spec.m, spec.p, st, so);
  if (eq) so->attachEquationSolver(eq);
  auto addObs = [&] { { full = new FullObs(st, &in); } so->addPostProcessor(full); for (int i = 1; i < spec.nObs; i++) so->addPostProcessor(new Obs(st, &in)); };
  if (spec.ppOrder == 0) addObs();
  for (auto& r : spec.recs) { ReactionProcessor* rp = r.file.empty() ? new ReactionProcessor(st) : new ReactionProcessor(st, r.file); so->addPostProcessor(rp); for (int n : r.nodes) rp->nodes.push_back(in.nodeNo[n]); for (int d : r.dofs) rp->dofs.push_back((Dof::dofType)d); sim::Host h; rec.push_back(rp); }
  if (spec.ppOrder == 1) addObs();
  if (spec.vtk) {
    vtk = new VtkProcessor(st, spec.vtkName); so->addPostProcessor(vtk); if (spec.vtkAll) vtk->writeAllResults();
    auto one = [&](int b) { if (b < 5) vtk->registerResults({(scalarQuery)(b + 1)}); else if (b < 8) vtk->registerResults({(vectorQuery)(b - 4)}); else vtk->registerResults({(tensorQuery)(b - 7)}); };
    int w = spec.queryWay;   // one by one up or down, neighbours in one call, everything twice
    for (int i = 0; i < 13; i++) { int b = w == 1 ? 12 - i : i; if (!(spec.queries >> b & 1)) continue;
      if (w == 2 && b < 12 && b != 4 && b != 7 && (spec.queries >> (b + 1) & 1)) { if (b < 5) vtk->registerResults({(scalarQuery)(b + 2), (scalarQuery)(b + 1)}); else if (b < 8) vtk->registerResults({(vectorQuery)(b - 4), (vectorQuery)(b - 3)}); else vtk->registerResults({(tensorQuery)(b - 7), (tensorQuery)(b - 6)}); i++; }
      else { one(b); if (w == 3) one(b); } }
  }
  if (spec.ppOrder == 2) addObs();
}
void AnRun::solve() { so->solve(); solved = true; }
std::string AnRun::digest() {
  std::string s; if (!solved) return "unsolved";
  for (auto& x : in.snaps) { s += fmt("%c%d", x.type, x.step); for (auto* v : {&x.U, &x.R, &x.V, &x.A}) for (double d : *v) s += hexD(d) + " "; s += "\n"; }
  for (auto& d : in.ids) s += hexD(in.U(d)) + hexD(in.R(d)); s += "\n";
  if (full) for (auto& st2 : full->res) for (auto& e : st2) { for (double d : e.sc) s += hexD(d); for (double d : e.ve) s += hexD(d); for (double d : e.te) s += hexD(d); } s += "\n";
  for (auto* r : rec) { for (auto t : r->dofs) { s += fmt("dof%d:", (int)t); for (double d : r->getReactions(t)) s += hexD(d) + " "; } s += "\n"; }
  return s;
}
void AnRun::destroy() { delete so; delete st; so = nullptr; st = nullptr; rec.clear(); full = nullptr; vtk = nullptr; }
}
