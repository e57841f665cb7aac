// C14: dump/compare of the assembled system under write faults, cuts, read faults and altered entries.
#include "model.h"
#include <sstream>
using namespace sim;
using namespace mdl;
namespace {
struct Lin : LinearFESolver { dVec& F() { return vecF; } dVec& Rv() { return vecR; } };
std::vector<std::string> toks(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string t; while (i >> t) v.push_back(t); return v; }
enum Verdict { PASS, FAIL, EITHER };
Verdict judge(const std::vector<std::string>& a, const std::string& text, double th) {
  auto b = toks(text); if (b.size() < a.size()) return FAIL; if (b.size() > a.size()) return EITHER;
  bool same = true;
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { same = false; char* e; double x = strtod(a[i].c_str(), nullptr), y = strtod(b[i].c_str(), &e); if (e == b[i].c_str() || !(std::fabs(x - y) <= th)) return FAIL; }
  return same ? PASS : EITHER;
}
void run() {
  setStepBudget(4000000); vfs::reset();
  static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  GenOpt o; bool tr = chance(1, 3); o.transient = tr; o.maxNodes = range(1, 4); o.maxElems = range(1, 4); Model m = genModel(o);
  FEStorage* st; FESolver* so; Inst in; int act = (int)draw(10);
  Outcome r = attempt([&] {
    st = new FEStorage; if (tr) { auto* t = new LinearTransientFESolver; t->numberOfTimesteps = 2; so = t; } else so = new LinearFESolver;
    in.build(m, identity(m), st, so); so->solve();
  });
  SIM_CHECK(r.kind == OK, "solve-failed", "the analysis to dump ended with %s", kindName(r.kind));
  std::vector<math::BaseSparseMatrix*> mats; auto addB = [&](math::BlockSparseSymMatrix<2>* b) { mats.push_back(b->block(1)); mats.push_back(b->block(1, 2)); mats.push_back(b->block(2)); };
  addB(st->getK()); if (tr) { addB(st->getC()); addB(st->getM()); }
  double sc = 1; if (chance(1, 2)) { static const double f[] = {1.0 / 3, 1e7 / 3, 2.1e11 / 7, 1e-9 / 3, 1e15 / 9, 1e-3 / 7}; sc = f[draw(6)]; for (auto* q : mats) for (u32 i = 0; i < q->nValues(); i++) q->getValuesArray()[i] *= sc; for (u32 i = 0; i < st->getF()->size(); i++) { (*st->getF())[i] *= sc; (*st->getR())[i] *= sc * 1.1; } }
  double th = chance(1, 4) ? 1e-6 : 1e-9; const char* P = "dump.txt"; bool defTh = th == 1e-9;
  vfs::enable(true);
  auto compare = [&](const char* p) { return attempt([&] { if (defTh) so->compareMatricesAndVectors(p); else so->compareMatricesAndVectors(p, th); }); };
  r = attempt([&] { so->dumpMatricesAndVectors(P); }); SIM_CHECK(r.kind == OK, "dump-failed", "an undisturbed dump ended with %s", kindName(r.kind));
  std::string D0 = vfs::get(P); auto T = toks(D0); u64 nw = vfs::writes();
  vfs::readChunk(chance(1, 3) ? range(1, 40) : 0);
  // benign read conditions
  if (chance(1, 3)) vfs::addFault({chance(1, 2) ? vfs::READ_EINTR : vfs::READ_SHORT, (u64)range(1, 4), (u64)draw(50), "", false});
  r = compare(P); vfs::clearFaults();
  SIM_CHECK(r.kind == OK, "round-trip", "comparing a solver with its own dump ended with %s (values scaled by %g)", kindName(r.kind), sc);
  std::string what = "round trip";
  auto expectFail = [&](const char* w) { Outcome q = compare(P); SIM_CHECK(q.loud(), "damaged-accepted", "%s: the comparison passed", w); what = w; nontrivial(); };
  switch (act) {
    case 0: break;
    case 1: case 2: { size_t k = draw(D0.size()); if (chance(1, 4)) { size_t nl = D0.find('\n', k); if (nl != std::string::npos) k = nl + (chance(1, 2) ? 1 : 0); } std::string c = D0.substr(0, k); vfs::put(P, c); stat("fault.cut-file"); what = fmt("cut at byte %zu of %zu", k, D0.size());
      Verdict v = judge(T, c, th); Outcome q = compare(P); if (v == FAIL) { SIM_CHECK(q.loud(), "damaged-accepted", "a dump cut at byte %zu of %zu was accepted", k, D0.size()); nontrivial(); } else if (v == PASS) SIM_CHECK(q.kind == OK, "round-trip", "a dump without its last line end was rejected"); break; }
    case 3: case 4: { // dump written under faults
      static const vfs::FaultKind ks[] = {vfs::WRITE_EIO, vfs::WRITE_TORN, vfs::DISK_FULL, vfs::CRASH_AT, vfs::OPEN_FAIL, vfs::WRITE_SHORT, vfs::WRITE_EINTR, vfs::CLOSE_FAIL};
      int nf = range(1, 2); bool onlyBenign = true; std::string kinds; bool stale = chance(1, 2); if (!stale) vfs::erase(P); 
      for (int i = 0; i < nf; i++) { auto k = ks[draw(8)]; onlyBenign &= k == vfs::WRITE_SHORT || k == vfs::WRITE_EINTR || k == vfs::CLOSE_FAIL; u64 n = k == vfs::OPEN_FAIL || k == vfs::CLOSE_FAIL ? 1 : (u64)range(1, (int)nw); vfs::addFault({k, n, k == vfs::DISK_FULL ? (u64)range(1, 60) : (u64)range(0, 40), P, false}); kinds += fmt(" %s@%llu", vfs::faultName[k], (unsigned long long)n); }
      Outcome q = attempt([&] { so->dumpMatricesAndVectors(P); }); vfs::clearFaults(); bool crashed = q.kind == CRASH;
      std::string c = vfs::get(P); Verdict v = vfs::exists(P) ? judge(T, c, th) : FAIL; what = "dump under" + kinds;
      if (onlyBenign && q.kind == OK && v == FAIL) violation("dump-incomplete", "short or interrupted writes made an incomplete dump");
      q = compare(P);
      if (v == FAIL) { SIM_CHECK(q.loud(), "damaged-accepted", "an incomplete dump (%zu of %zu bytes,%s%s) was accepted", c.size(), D0.size(), kinds.c_str(), crashed ? ", crashed" : ""); nontrivial(); }
      else if (v == PASS) SIM_CHECK(q.kind == OK, "round-trip", "a complete dump was rejected"); break; }
    case 5: { u64 n = range(1, 6); if (chance(1, 2)) vfs::readChunk(range(1, 200)); u64 f0 = vfs::firedFaults(); vfs::addFault({vfs::READ_EIO, n, 0, P, false}); Outcome q = compare(P); bool fired = vfs::firedFaults() > f0; vfs::clearFaults(); what = "read error";
      if (fired) { SIM_CHECK(q.loud(), "read-error-accepted", "the device reported a read error but the comparison passed"); nontrivial(); } break; }
    case 6: if (chance(1, 2)) { vfs::erase(P); expectFail("absent dump"); } else { vfs::addFault({vfs::OPEN_FAIL, 1, 0, P, false}); expectFail("dump cannot be opened"); vfs::clearFaults(); } break;
    case 7: case 8: { // an entry in memory differs
      int w = (int)draw(mats.size() + 2); static const double ds[] = {1, -1, 3, 1e6}; double d = th * 3 * ds[draw(4)]; if (d < 0 ? -d < 2 * th : d < 2 * th) d = 3 * th; double* p = nullptr;
      if (w < (int)mats.size()) { if (mats[w]->nValues()) p = mats[w]->getValuesArray() + draw(mats[w]->nValues()); } else { auto* v = w == (int)mats.size() ? st->getF() : st->getR(); if (v->size()) p = &(*v)[draw(v->size())]; }
      if (!p) break; double old = *p; if (chance(1, 6)) *p = NAN; else if (chance(1, 8)) *p = INFINITY; else *p = old + std::max(std::fabs(d), std::fabs(old) * 1e-12) * (d < 0 ? -1 : 1);
      stat("fault.altered-entry"); expectFail(fmt("entry changed from %.17g to %.17g in part %d", old, *p, w).c_str()); *p = old; r = compare(P); SIM_CHECK(r.kind == OK, "round-trip", "after restoring the entry the dump is rejected"); break; }
    case 9: { // a token in the file differs
      if (T.empty()) break; size_t i = draw(T.size()); std::string c; auto t2 = T; double x = strtod(T[i].c_str(), nullptr); bool isInt = T[i].find_first_not_of("0123456789") == std::string::npos;
      int kind = (int)draw(5); if (kind == 3 && (isInt || sc < 0.1)) kind = 0;   // "1.5e-9" can be read as the number 1 and then ".5e-9": removal there is ambiguous
      if (kind == 0) t2[i] = "x"; else if (kind == 1) t2[i] = "nan"; else if (kind == 2) t2[i] = isInt ? fmt("%lld", (long long)x + (x >= 1 && chance(1, 2) ? -1 : 1)) : fmt("%.17g", x + std::max(10 * th, std::fabs(x) * 1e-9)); else if (kind == 3) t2.erase(t2.begin() + i);
      else { size_t j = draw(T.size()); double y = strtod(T[j].c_str(), nullptr); bool jInt = T[j].find_first_not_of("0123456789") == std::string::npos; if (!isInt && !jInt && std::fabs(x - y) > 10 * th + 1e-9 * std::fabs(x)) std::swap(t2[i], t2[j]); else t2[i] = "x"; }   // two entries exchanged
      // a count in a header changed by one always leads to a shape mismatch; a value in the vectors printed like an integer is a value
      if (kind == 2 && isInt && std::fabs(x) < 1e15) { }
      size_t k = 0; for (auto& s : t2) { c += s; c += (++k % 3) ? ' ' : '\n'; } vfs::put(P, c); stat("fault.altered-dump"); expectFail(fmt("dump token %zu '%s' %s", i, T[i].c_str(), kind == 3 ? "removed" : kind == 4 ? "exchanged with another" : ("replaced by " + t2[i]).c_str()).c_str()); break; }
  }
  vfs::enable(false);
  // the damaged comparison must not harm the solver
  vfs::put(P, D0); vfs::enable(true); vfs::readChunk(0); r = compare(P); vfs::enable(false); SIM_CHECK(r.kind == OK, "round-trip", "after a failed comparison the intact dump is rejected");
  attempt([&] { delete so; delete st; });
  stat(fmt("action.%s", what.substr(0, what.find_first_of("0123456789'") ).substr(0, 12).c_str()).c_str());
  sample(m.str() + fmt(", %s, %zu tokens dumped, %s", tr ? "transient" : "linear", T.size(), what.c_str()));
}
Register reg({"C14", run, 4000000, 40000000,
  "random linear and transient systems (values scaled over 24 orders of magnitude) dumped on the simulated disk and compared; cuts at any byte, write faults, crash, read errors, changed tokens, changed entries and NaN must make the comparison fail; whether a damaged dump is still complete is decided by an independent token comparison; nontrivial: a damaged dump was offered",
  "real: dump/compare code of FESolver, sparse matrices, dVec, iostreams; simulated: disk, faults, memory contents"});
}
