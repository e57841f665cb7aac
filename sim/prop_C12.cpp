// C12: failing memory allocations in whole analyses, imports and dumps.
#include "analysis.h"
#include "deck.h"
using namespace sim;
using namespace mdl;
namespace {
u64 pickPoint(u64 n) { if (n == 0) return 1; if (chance(1, 3)) return 1 + draw(std::min<u64>(n, 60)); return 1 + draw(n); }
std::string meshText(MeshData& md) { std::string s; for (int c = 0; c < deck::NCAT; c++) { std::vector<std::string> nm; for (auto& i : deck::flat(md, (deck::Cat)c, &nm)) { for (double d : i) s += hexD(d); s += "\n"; } for (auto& x : nm) s += x + "\n"; } return s; }
void analysis() {
  AnOpt ao; ao.maxNodes = 3; ao.maxElems = 3; ao.rare = false; AnSpec a = genAnalysis(ao); bool tear = chance(1, 2), dump = chance(1, 4);
  auto body = [&](AnRun& r) { r.create(a); r.solve(); if (dump && a.kind != 3) { r.so->dumpMatricesAndVectors("dump.txt"); r.so->compareMatricesAndVectors("dump.txt", 1e-6); } };
  std::string b = isolated([&] { vfs::enable(true); AnRun r; mem::resetCount(); Outcome o = attempt([&] { body(r); }); u64 n = mem::count(); vfs::enable(false); return fmt("%llu ", (unsigned long long)n) + (o.kind == OK ? r.digest() : std::string("failed")); });
  char* e; u64 n = strtoull(b.c_str(), &e, 10); std::string base = e + 1; if (base == "failed") { stat("skipped.baseline-failed"); sample("baseline did not converge"); return; }
  u64 at = pickPoint(n); bool forever = chance(1, 4); AnRun r; vfs::enable(true);
  mem::resetCount(); mem::failAt(at, forever); Outcome o = attempt([&] { body(r); }); bool fired = mem::fired(); mem::failAt(0, false);
  std::string what = fmt("allocation %llu of %llu fails%s", (unsigned long long)at, (unsigned long long)n, forever ? " and all later ones" : "");
  sample(a.str() + (dump ? ", dumped and compared" : "") + "; " + what + fmt(": %s", kindName(o.kind))); stat(fmt("outcome.%s", kindName(o.kind)).c_str()); if (fired) { nontrivial(); stat(forever ? "fault.alloc-all-later" : "fault.alloc-one"); }
  SIM_CHECK(o.kind == OK || o.loud(), "ended", "%s: the analysis ended with %s", what.c_str(), kindName(o.kind));
  if (o.kind == OK) SIM_CHECK(r.digest() == base, "results", "%s: the analysis ends normally with results different from the undisturbed ones", what.c_str());
  if (o.kind == ABORT || o.kind == EXIT) { vfs::enable(false); return; }
  if (tear || o.kind == EXC) { Outcome d = attempt([&] { delete r.so; delete r.st; }); SIM_CHECK(d.kind == OK, "teardown", "%s (%s): destroying the objects ended with %s %s", what.c_str(), o.what.c_str(), kindName(d.kind), d.what.c_str()); }
  vfs::clearFaults(); AnRun f; o = attempt([&] { body(f); }); vfs::enable(false);
  SIM_CHECK(o.kind == OK && f.digest() == base, "aftermath", "%s: a fresh analysis afterwards %s", what.c_str(), o.kind == OK ? "gives different results" : ("ends with " + std::string(kindName(o.kind)) + " " + o.what).c_str());
  attempt([&] { f.destroy(); });
}
void import() {
  deck::Opt op; op.maxNodes = 8; deck::Deck d = deck::genDeck(op); vfs::put("m.cdb", d.text); bool compress = chance(1, 2);
  auto body = [&](MeshData*& md, bool& ok) { md = new MeshData; ok = readCdbFile("m.cdb", *md); if (compress) md->compressNumbers(); };
  std::string b = isolated([&] { vfs::enable(true); MeshData* md = nullptr; bool ok = false; mem::resetCount(); Outcome o = attempt([&] { body(md, ok); }); u64 n = mem::count(); vfs::enable(false); return fmt("%llu ", (unsigned long long)n) + (o.kind == OK && ok ? meshText(*md) : std::string("failed")); });
  char* e; u64 n = strtoull(b.c_str(), &e, 10); std::string base = e + 1; if (base == "failed") { stat("skipped.baseline-failed"); return; }
  u64 at = pickPoint(n); bool forever = chance(1, 4); MeshData* md = nullptr; bool ok = false; vfs::enable(true);
  mem::resetCount(); mem::failAt(at, forever); Outcome o = attempt([&] { body(md, ok); }); bool fired = mem::fired(); mem::failAt(0, false);
  std::string what = fmt("allocation %llu of %llu fails%s during import", (unsigned long long)at, (unsigned long long)n, forever ? " and all later ones" : "");
  sample(d.describe() + "; " + what + fmt(": %s", kindName(o.kind))); stat(fmt("import-outcome.%s%s", kindName(o.kind), o.kind == OK ? ok ? ".true" : ".false" : "").c_str()); if (fired) { nontrivial(); stat(forever ? "fault.alloc-all-later" : "fault.alloc-one"); }
  if (o.kind == OK && ok) SIM_CHECK(meshText(*md) == base, "results", "%s: the import reports success with data different from the undisturbed ones", what.c_str());
  if (o.kind == ABORT || o.kind == EXIT) { vfs::enable(false); return; }
  if (md && chance(1, 2)) { o = attempt([&] { delete md; md = nullptr; }); SIM_CHECK(o.kind == OK, "teardown", "%s: destroying the mesh ended with %s", what.c_str(), kindName(o.kind)); }
  o = attempt([&] { if (!md) md = new MeshData; ok = readCdbFile("m.cdb", *md); if (compress) md->compressNumbers(); }); vfs::enable(false);
  SIM_CHECK(o.kind == OK && ok && meshText(*md) == base, "aftermath", "%s: importing again afterwards does not give the undisturbed data", what.c_str());
}
// single containers: an operation fails, the object is used again or destroyed
void objects() {
  u64 failed = 0, ops = 0; std::string trace; int kind = (int)draw(4), n = range(2, 12); Outcome o;
  auto guarded = [&](const char* nm, const std::function<void()>& f) {   // true: done
    bool fail = chance(1, 2); u64 at = 1 + draw(4); bool ever = chance(1, 4); ops++; trace += fmt(" %s%s", nm, fail ? fmt("!%llu", (unsigned long long)at).c_str() : ""); mem::resetCount(); if (fail) mem::failAt(at, ever); Outcome q = attempt(f); bool fired = mem::fired(); mem::failAt(0, false);
    if (fired) { failed++; stat("fault.alloc-one"); } SIM_CHECK(q.kind == OK || fired, "ended", "%s without a failing allocation ended with %s", nm, kindName(q.kind)); SIM_CHECK(q.kind == OK || q.kind == EXC, "ended", "%s under a failing allocation ended with %s", nm, kindName(q.kind)); return q.kind == OK; };
  auto must = [&](const char* nm, const std::function<void()>& f) { Outcome q = attempt(f); SIM_CHECK(q.kind == OK, "aftermath", "%s after an allocation failure ended with %s %s", nm, kindName(q.kind), q.what.c_str()); };
  if (kind == 0) {
    math::dMat *A = nullptr, *B = nullptr; must("construction", [&] { A = new math::dMat(2, 2); B = new math::dMat(1, 3); }); int m = 2, k = 2;
    for (int i = 0; i < n; i++) {
      int r = range(1, 9), c = range(1, 9), w = (int)draw(3); bool ok = w == 0 ? guarded("resize", [&] { A->resize(r, c); }) : w == 1 ? guarded("assign", [&] { *A = *B; }) : guarded("copy", [&] { auto* C = new math::dMat(*A); delete A; A = C; });
      if (ok) { if (w == 0) m = r, k = c; else if (w == 1) m = B->dM(), k = B->dN(); }
      must("access", [&] { for (int a = 0; a < A->dM(); a++) for (int b = 0; b < A->dN(); b++) (*A)[a][b] = a + b; }); SIM_CHECK(!ok || (A->dM() == m && A->dN() == k), "results", "dMat has wrong dimensions"); m = A->dM(); k = A->dN();
    }
    must("destruction", [&] { delete A; delete B; });
  } else if (kind == 1) {
    math::dVec *A = nullptr, *B = nullptr; must("construction", [&] { A = new math::dVec(3, 1.0); B = new math::dVec(5, 2.0); });
    for (int i = 0; i < n; i++) {
      int r = range(1, 12), w = (int)draw(5); double val = range(0, 9); bool ok = w == 0 ? guarded("reinit", [&] { A->reinit(r, val); }) : w == 1 ? guarded("assign", [&] { *A = *B; }) : w == 2 ? guarded("copy", [&] { auto* C = new math::dVec(*B); delete A; A = C; }) : w == 3 ? guarded("sum", [&] { *A = *B + *B; }) : guarded("view", [&] { A->reinit(*B, 1, 2); });
      if (ok) { u64 sz = w == 0 ? r : w == 4 ? 2 : B->size(); double x = w == 0 ? val : w == 3 ? 4 : 2; SIM_CHECK(A->size() == sz && (*A)[0] == x && (*A)[sz - 1] == x, "results", "dVec holds wrong values"); }
      must("access", [&] { if (A->isInit()) for (u32 a = 0; a < A->size(); a++) (*A)[a] = A == B ? 0 : (*A)[a]; });
      if (!A->isInit()) must("reinit", [&] { A->reinit(3, 1.0); });
    }
    must("destruction", [&] { delete A; delete B; });
  } else {
    bool sym = kind == 3; math::SparseSymMatrix* S = nullptr; math::SparseMatrix* G = nullptr; int sz = range(1, 5); auto base = [&]() -> math::BaseSparseMatrix* { return sym ? (math::BaseSparseMatrix*)S : (math::BaseSparseMatrix*)G; };
    for (int i = 0; i < n; i++) {
      if (!base()) { sz = range(1, 5); if (!guarded("construct", [&] { if (sym) S = new math::SparseSymMatrix(sz); else G = new math::SparseMatrix(sz, sz); })) { S = nullptr; G = nullptr; continue; } }
      std::vector<std::pair<int, int>> e; if (base()->getSparsityInfo() && !base()->isCompressed()) { for (int q = 0, c = range(1, 5); q < c; q++) e.push_back({range(1, sz), range(1, sz)}); must("addEntry", [&] { for (auto& x : e) if (sym) S->addEntry(x.first, x.second); else G->addEntry(x.first, x.second); }); }
      bool ok = guarded("compress", [&] { base()->compress(); }); if (!ok) { if (chance(1, 2)) must("compress again", [&] { base()->compress(); }); else { must("destruction", [&] { delete base(); }); S = nullptr; G = nullptr; continue; } }
      must("values", [&] { base()->zero(); for (auto& x : e) if (sym) S->addValue(x.first, x.second, 1.0); else G->addValue(x.first, x.second, 1.0); });
      for (auto& x : e) SIM_CHECK((sym ? S->value(x.first, x.second) : G->value(x.first, x.second)) >= 1, "results", "a value added after the failure is lost");
      int w = (int)draw(4);
      if (w == 0) { int ns = range(1, 5); if (guarded("reinit", [&] { if (sym) S->reinit(ns); else G->reinit(ns, ns, 10); })) { sz = ns; must("diagonal", [&] { for (int q = 1; q <= ns; q++) if (sym) S->addEntry(q, q); else G->addEntry(q, q); }); } }
      else if (w == 1) { math::BaseSparseMatrix* T = nullptr; if (guarded("share", [&] { if (sym) T = new math::SparseSymMatrix(S->getSparsityInfo()); else T = new math::SparseMatrix(G->getSparsityInfo()); })) { must("shared values", [&] { T->zero(); for (u32 q = 0; q < T->nValues(); q++) T->getValuesArray()[q] = q; delete T; }); } }
      else if (w == 2) { must("destruction", [&] { delete base(); }); S = nullptr; G = nullptr; }
    }
    must("destruction", [&] { if (base()) delete base(); });
  }
  static const char* const kn[] = {"dMat", "dVec", "SparseMatrix", "SparseSymMatrix"}; sample(std::string(kn[kind]) + ":" + trace); stat("object-operations", ops); if (failed) nontrivial();
}
void run() { setStepBudget(20000000); vfs::reset(); clk::on(1); static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]); switch (draw(6)) { case 0: case 1: case 2: analysis(); break; case 3: objects(); break; case 4: objects(); break; default: import(); } mem::fill(-1); }
Register reg({"C12", run, 4000000, 40000000,
  "histories of container operations, a whole analysis (build, solve, output, sometimes dump and compare) or a deck import is counted in an isolated copy and repeated with the n-th allocation, or every allocation from the n-th on, failing; it must end with the undisturbed results, an exception or a stop; memory errors are violations; after an exception everything is destroyed and a fresh analysis or import must give the undisturbed results; nontrivial: the failing allocation was reached",
  "real: all solvers, FEStorage, post-processors, elements, readers, easylogging++, iostreams, C++ runtime; simulated: allocator, disk, clock"});
}
