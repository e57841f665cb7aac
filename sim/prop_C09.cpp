// C09: linear analyses against an independent dense solution, any registration order, any memory contents.
#include "model.h"
using namespace sim;
using namespace mdl;
namespace {
void checkRef(Inst& in, const Model& m, const Ref& ref, const char* what, double f, double g) {
  Host h; auto s = in.snap('f', 0);
  double rs = ref.scale, us = ref.scale * f; for (auto& r : ref.R) rs = std::max(rs, std::fabs(r.second)); rs *= f * g;
  for (size_t i = 0; i < in.ids.size(); i++) {
    const DofId& d = in.ids[i];
    SIM_CHECK(std::isfinite(s.U[i]) && mdl::close(s.U[i], f * ref.U.at(d), 1e-7, us), "solution", "%s: %s = %.12g, independent solution %.12g", what, mdl::str(d).c_str(), s.U[i], f * ref.U.at(d));
    double q = f * g * ref.R.at(d); SIM_CHECK(std::isfinite(s.R[i]) && mdl::close(s.R[i], q, 1e-7, rs), "reaction", "%s: reaction/load of %s = %.12g, independent solution %.12g", what, mdl::str(d).c_str(), s.R[i], q);
  }
  for (auto& c : m.mpc) { double v = 0, sc = us; for (auto& t : c.t) { double u = in.U({0, t.node, t.type}); v += t.c * u; sc = std::max(sc, std::fabs(t.c * u)); } SIM_CHECK(mdl::close(v, c.b, 1e-7, sc * (1 + ref.scale)), "constraint", "%s: a constraint equation gives %.12g instead of %.12g", what, v, c.b); }
}
void run() {
  setStepBudget(6000000);
  static const int fills[] = {-1, 0x00, 0xff, 0x7f, 0x41, 0xc0};
  GenOpt o; o.maxNodes = range(1, 7); o.maxElems = range(1, 8); if (chance(1, 40)) { o.maxNodes = range(10, 40); o.maxElems = range(10, 50); stat("models.big"); } else if (chance(1, 60)) { o.hub = true; o.mpc = false; stat("models.hub"); } Model m = genModel(o);
  Ref ref = solveLinear(m);
  if (!ref.ok || ref.scale > 1e4) { sample("ill-posed model skipped"); stat("skipped"); return; }
  double f = 1, g = 1; if (chance(1, 3)) { f = std::ldexp(1.0, range(-40, 20)); if (chance(1, 2)) g = std::ldexp(1.0, range(-20, 37)); scaleModel(m, f, g); stat("models.scaled"); }   // other units: the solution scales with them
  int orders = range(1, 3); std::vector<std::vector<double>> first;
  for (int k = 0; k < orders; k++) {
    int fb = fills[draw(6)]; mem::fill(fb); Perm p = k == 0 && chance(1, 2) ? identity(m) : randomPerm(m); ev("order %d fill %d", k, fb);
    if (fb >= 0) stat("fault.dirty-memory");
    FEStorage* st; LinearFESolver* so; Inst in; int pp = (int)draw(3);
    Outcome r = attempt([&] {
      st = new FEStorage; so = new LinearFESolver; in.build(m, p, st, so);
      for (int i = 0; i < pp; i++) so->addPostProcessor(new Obs(st, &in));
      so->solve();
    });
    sample(m.str() + fmt(", units %g %g", f, g));
    SIM_CHECK(r.kind == OK, "solve-failed", "a well-posed linear analysis ended with %s %s (%s)", kindName(r.kind), r.what.c_str(), m.str().c_str());
    checkRef(in, m, ref, fmt("order %d", k).c_str(), f, g);
    SIM_CHECK((int)in.snaps.size() == 3 * pp, "callbacks", "%zu post-processor calls instead of %d", in.snaps.size(), 3 * pp);
    for (auto& s : in.snaps) if (s.type != 'p') SIM_CHECK(s.stale < 0, "stale-element", "linear, step %d: user element %d was not updated with the published solution", s.step, s.stale + 1);
    for (int i = 0; i < pp; i++) {
      auto& a = in.snaps[i]; auto& b = in.snaps[pp + i]; auto& c = in.snaps[2 * pp + i];
      SIM_CHECK(a.type == 'p' && b.type == 's' && b.step == 1 && c.type == 'e', "callbacks", "post-processors are not called in the order start, step 1, end");
      for (size_t q = 0; q < in.ids.size(); q++) SIM_CHECK(mdl::close(b.U[q], f * ref.U.at(in.ids[q]), 1e-7, f * ref.scale) && c.U[q] == b.U[q] && c.R[q] == b.R[q], "published", "the published step differs from the solution at %s", mdl::str(in.ids[q]).c_str());
    }
    in.hashState();
    attempt([&] { delete so; delete st; });
    mem::fill(-1);
  }
  stat("analyses", orders); simtime(orders);
  if (m.fix.size() + m.mpc.size() > 0 && orders > 1) nontrivial();
  sample(m.str() + fmt(", %d registration orders, units %g %g", orders, f, g));
}
Register reg({"C09", run, 4000000, 40000000,
  "random well-posed linear models (user elements with node and element DoFs, TRUSS3, QUADTH, LINETH, TETRA0, loads, fixations, constraints) registered in 1-3 seeded orders with seeded memory contents, every DoF and reaction compared with an independent long-double dense solution; nontrivial: at least two orders and a fixation or constraint",
  "real: FEStorage, LinearFESolver, sparse matrices, GaussDense solver, library elements; user elements and post-processors by the harness"});
}
