// C24: random histories on dynamic vectors, windows onto them and dense work matrices against an array model.
#include "model.h"
#include <sstream>
#include <memory>
using namespace sim;
using namespace mdl;
using math::dVec; using math::dMat;
namespace {
struct Buf { std::vector<double> d; };
// a vector: init false - holds nothing; own - has memory of its own; else a window onto b
struct VO { dVec* p = nullptr; std::shared_ptr<Buf> b; size_t off = 0, n = 0; bool init = false, own = false; double at(size_t i) const { return b->d[off + i]; } };
std::vector<VO> vs; u64 nWin, nFail, nOut, nAbort; std::string trace;
struct MO { dMat* p = nullptr; int m = 0, n = 0; std::vector<double> v; };
std::vector<MO> ms;
double rv() { static const double odd[] = {0.0, -0.0, 1e-300, -1e300, 0.1, 1.0 / 3, 1e-20}; return chance(1, 6) ? odd[draw(7)] : real(-8, 8, 4096); }
size_t len() { return chance(1, 12) ? 0 : chance(1, 40) ? (size_t)range(40, 300) : (size_t)range(1, 9); }
void tr(const std::string& s) { ev("%s", s.c_str()); trace += " " + s; }
bool same(double a, double b) { return a == b || (a != a && b != b); }
// runs an operation that may be hit by a failing allocation; true: done
bool call(const char* nm, const std::function<void()>& f) {
  bool fail = chance(1, 8); u64 at = 1 + draw(2); tr(fail ? fmt("%s!%llu", nm, (unsigned long long)at) : nm);
  mem::resetCount(); if (fail) mem::failAt(at, false); Outcome o = attempt(f); bool fired = fail && mem::fired(); mem::failAt(0, false);
  if (fired) { nFail++; stat("fault.alloc-one"); }
  SIM_CHECK(o.kind == OK || (fired && (o.kind == EXC || o.kind == ABORT)), "ended", "%s ended with %s %s (history:%s)", nm, kindName(o.kind), o.what.c_str(), trace.c_str());
  if (o.kind == ABORT) finishOk();                                   // a program stop is a legal answer to a lack of memory
  return o.kind == OK;
}
void must(const char* nm, const std::function<void()>& f) { tr(nm); Outcome o = attempt(f); SIM_CHECK(o.kind == OK, "ended", "%s ended with %s %s (history:%s)", nm, kindName(o.kind), o.what.c_str(), trace.c_str()); }
void refuse(const char* nm, const std::function<void()>& f) { tr(std::string(nm) + "?"); nOut++; stat("fault.out-of-contract-access"); Outcome o = attempt(f); if (o.kind != EXC) nAbort++; SIM_CHECK(o.loud(), "silent", "%s did not stop with an error but ended with %s (history:%s)", nm, kindName(o.kind), trace.c_str()); }
// what a value class may look like after an operation on it ran out of memory: as before, or empty
void died(std::shared_ptr<Buf> b);
void afterFail(VO& o) { Host h; if (!o.init || (o.p->isInit() && o.p->size() == o.n)) return; SIM_CHECK(!o.p->isInit() && o.p->size() == 0, "torn", "after an operation that ran out of memory the vector has %u elements, %zu before (history:%s)", o.p->size(), o.n, trace.c_str()); auto b = o.b; bool own = o.own; o.init = o.own = false; o.n = 0; o.b = nullptr; if (own) died(b); }
// memory of b was released: windows onto it dangle and must be let go without touching it
void died(std::shared_ptr<Buf> b) {
  for (size_t i = 0; i < vs.size(); i++) if (vs[i].init && !vs[i].own && vs[i].b == b) {
    VO& w = vs[i]; int k = (int)draw(3); dVec* q = w.p;
    if (k == 0) { must("drop-window", [q] { q->clear(); }); w.init = false; w.n = 0; w.b = nullptr; }
    else if (k == 1) { must("delete-window", [q] { delete q; }); vs.erase(vs.begin() + i); i--; }
    else { must("refill-window", [q] { q->reinit(2, 7.0); }); w.b = std::make_shared<Buf>(); w.b->d.assign(2, 7.0); w.off = 0; w.n = 2; w.own = true; }
  }
}
void verify() {
  Host h;
  for (auto& o : vs) {
    const dVec& c = *o.p; if (o.n == 0 && c.size() == 0 && c.isInit() != o.init) { if (o.init) { o.init = o.own = false; o.b = nullptr; } else { o.b = std::make_shared<Buf>(); o.off = 0; o.init = o.own = true; } }   // nobody can tell an empty vector from none
    SIM_CHECK(c.isInit() == o.init, "init", "a vector is%s initialised (history:%s)", o.init ? " not" : "", trace.c_str());
    SIM_CHECK(c.size() == (o.init ? o.n : 0), "size", "a vector has %u elements instead of %zu (history:%s)", c.size(), o.n, trace.c_str());
    for (size_t i = 0; i < o.n; i++) { double x = c[(u32)i]; SIM_CHECK(same(x, o.at(i)), "value", "element %zu of a %s of %zu is %.17g, the model holds %.17g (history:%s)", i, o.own ? "vector" : "window", o.n, x, o.at(i), trace.c_str()); }
  }
  for (auto& o : ms) {
    SIM_CHECK(o.p->dM() == o.m && o.p->dN() == o.n, "matrix-size", "a matrix is %ux%u instead of %dx%d (history:%s)", o.p->dM(), o.p->dN(), o.m, o.n, trace.c_str());
    for (int i = 0; i < o.m; i++) for (int j = 0; j < o.n; j++) { double x = (*o.p)[i][j], y = o.v[i * o.n + j]; SIM_CHECK(same(x, y), "matrix-value", "entry (%d,%d) of a %dx%d matrix is %.17g, the model holds %.17g (history:%s)", i, j, o.m, o.n, x, y, trace.c_str()); }
  }
}
bool overlapPartly(const VO& a, const VO& b) { return a.init && b.init && a.b == b.b && a.off != b.off && a.off < b.off + b.n && b.off < a.off + a.n; }
VO own(dVec* p, const std::vector<double>& d) { VO o; o.p = p; o.b = std::make_shared<Buf>(); o.b->d = d; o.n = d.size(); o.init = o.own = true; return o; }
std::vector<double> vals(const VO& o) { return std::vector<double>(o.b->d.begin() + o.off, o.b->d.begin() + o.off + o.n); }
void vop() {
  int k = vs.empty() ? (int)draw(2) : (int)draw(22); if (k >= 20) k = 4; size_t oi = vs.empty() ? 0 : draw(vs.size()), qi = vs.empty() ? 0 : draw(vs.size()); bool room = vs.size() < 7;
  auto O = [&]() -> VO& { return vs[oi]; }; auto Q = [&]() -> VO& { return vs[qi]; };
  dVec* p = vs.empty() ? nullptr : O().p; dVec* q = vs.empty() ? nullptr : Q().p;
  switch (k) {
    case 0: { if (!room) break; dVec* r = nullptr; must("new", [&] { r = new dVec; }); VO o; o.p = r; vs.push_back(o); break; }
    case 1: { if (!room) break; size_t n = len(); double x = rv(); bool def = chance(1, 3); dVec* r = nullptr; if (call(fmt("new(%zu)", n).c_str(), [&] { r = def ? new dVec((u32)n) : new dVec((u32)n, x); })) vs.push_back(own(r, std::vector<double>(n, def ? 0 : x))); break; }
    case 2: { if (!room) break; dVec* r = nullptr; if (call(fmt("copy %zu", oi).c_str(), [&] { r = new dVec(*p); })) { VO o; o.p = r; if (O().init) o = own(r, vals(O())); vs.push_back(o); } break; }
    case 3: { if (!room) break; dVec* r = nullptr; if (!call(fmt("move %zu", oi).c_str(), [&] { r = new dVec(std::move(*p)); })) break; VO o = O(); o.p = r;      // windows onto it stay valid
      // the source may be left empty, nothing else is promised; it is re-used or destroyed
      if (chance(1, 2)) { must("delete-moved", [&] { delete p; }); vs.erase(vs.begin() + oi); vs.push_back(o); }
      else { O().init = O().own = false; O().n = 0; O().b = nullptr; must("clear-moved", [&] { p->clear(); }); vs.push_back(o); } break; }
    case 4: { if (!room) break; if (!O().init) { refuse("window-of-nothing", [&] { dVec* r = new dVec(*p, 0, 0); (void)r; }); break; }
      size_t s = draw(O().n + 1), n = draw(O().n - s + 1); dVec* r = nullptr; bool late = chance(1, 3); if (!call(fmt("window %zu %zu+%zu", oi, s, n).c_str(), [&] { if (late) { r = new dVec; r->reinit(*p, (u32)s, (u32)n); } else r = new dVec(*p, (u32)s, (u32)n); })) break;
      VO o; o.p = r; o.b = O().b; o.off = O().off + s; o.n = n; o.init = true; vs.push_back(o); nWin++; break; }
    case 5: { size_t n = len(); double x = rv(); auto b = O().b; bool was = O().own; if (call(fmt("reinit %zu (%zu)", oi, n).c_str(), [&] { p->reinit((u32)n, x); })) { O() = own(p, std::vector<double>(n, x)); if (was) died(b); } else afterFail(O()); break; }
    case 6: { if (!Q().init || oi == qi) break; if (Q().b == O().b && O().own) break;                       // a window onto itself is meaningless
      size_t s = draw(Q().n + 1), n = draw(Q().n - s + 1); auto b = O().b; bool was = O().own; if (call(fmt("rewindow %zu on %zu %zu+%zu", oi, qi, s, n).c_str(), [&] { p->reinit(*q, (u32)s, (u32)n); })) { VO o; o.p = p; o.b = Q().b; o.off = Q().off + s; o.n = n; o.init = true; O() = o; nWin++; if (was) died(b); } else afterFail(O()); break; }
    case 7: { auto b = O().b; bool was = O().own; must(fmt("clear %zu", oi).c_str(), [&] { p->clear(); }); O().init = O().own = false; O().n = 0; O().b = nullptr; if (was) died(b); break; }
    case 8: { if (!O().init) { refuse("fill-nothing", [&] { p->fill(1); }); break; } double x = chance(1, 2) ? 0 : rv(); must(fmt("fill %zu", oi).c_str(), [&] { if (x == 0 && !std::signbit(x)) p->zero(); else p->fill(x); }); for (size_t i = 0; i < O().n; i++) O().b->d[O().off + i] = x; break; }
    case 9: case 10: { if (!O().init || chance(1, 12)) { size_t i = O().n + draw(3); bool rd = chance(1, 2); refuse("index-outside", [&] { if (rd) { volatile double x = (*(const dVec*)p)[(u32)i]; (void)x; } else (*p)[(u32)i] = 1; }); break; }
      if (!O().n) break; size_t i = draw(O().n); double x = rv(); bool raw = chance(1, 3); must(fmt("set %zu[%zu]", oi, i).c_str(), [&] { if (raw) p->ptr()[i] = x; else (*p)[(u32)i] = x; }); O().b->d[O().off + i] = x; break; }
    case 11: case 12: case 13: { // assignment: equal length writes in place (also through a window), otherwise the target gets memory of its own
      bool inPlace = O().init && Q().init && O().n == Q().n; auto src = Q().init ? vals(Q()) : std::vector<double>(); bool qInit = Q().init; auto b = O().b; bool was = O().own;
      if (call(fmt("assign %zu = %zu", oi, qi).c_str(), [&] { *p = *q; })) {
        if (oi == qi) break;
        if (!qInit) { O().init = O().own = false; O().n = 0; O().b = nullptr; if (was) died(b); }
        else if (inPlace) { for (size_t i = 0; i < src.size(); i++) O().b->d[O().off + i] = src[i]; }
        else { O() = own(p, src); if (was) died(b); }
      } else afterFail(O());
      break; }
    case 14: case 15: { // in-place sums
      bool sub = chance(1, 2); if (!O().init || !Q().init || O().n != Q().n) { refuse("sum-of-different", [&] { if (sub) *p -= *q; else *p += *q; }); break; } if (overlapPartly(O(), Q())) break;
      must(fmt("%s %zu %zu", sub ? "sub" : "add", oi, qi).c_str(), [&] { if (sub) *p -= *q; else *p += *q; }); auto src = vals(Q()); for (size_t i = 0; i < src.size(); i++) { double& t = O().b->d[O().off + i]; t = sub ? t - src[i] : t + src[i]; } break; }
    case 16: case 17: { // expressions into a new vector or back into an operand
      int e = (int)draw(6); double x = chance(1, 8) ? 0 : rv(); if (e == 5 && x == 0) x = 2; bool two = e < 2; if (!O().init || (two && (!Q().init || O().n != Q().n))) { refuse("expression-of-different", [&] { dVec r = e == 0 ? *p + *q : e == 1 ? *p - *q : e == 2 ? -*p : e == 3 ? *p * x : e == 4 ? x * *p : *p / x; (void)r; }); break; }
      std::vector<double> w = vals(O()), z = two ? vals(Q()) : w; for (size_t i = 0; i < w.size(); i++) w[i] = e == 0 ? w[i] + z[i] : e == 1 ? w[i] - z[i] : e == 2 ? -w[i] : e == 5 ? w[i] / x : w[i] * x;
      auto ex = [&]() -> dVec { return e == 0 ? *p + *q : e == 1 ? *p - *q : e == 2 ? -*p : e == 3 ? *p * x : e == 4 ? x * *p : *p / x; };
      if (chance(1, 2)) { if (call(fmt("expr%d into %zu", e, oi).c_str(), [&] { *p = ex(); })) for (size_t i = 0; i < w.size(); i++) O().b->d[O().off + i] = w[i]; else afterFail(O()); }
      else if (room) { dVec* r = nullptr; if (call(fmt("expr%d %zu", e, oi).c_str(), [&] { r = new dVec(ex()); })) vs.push_back(own(r, w)); } break; }
    case 18: { // comparison and text copy
      if (!O().init) break; if (Q().init) { bool eq = O().n == Q().n; for (size_t i = 0; eq && i < O().n; i++) eq = std::fabs(O().at(i) - Q().at(i)) <= 1e-10; bool r = false; must(fmt("compare %zu %zu", oi, qi).c_str(), [&] { r = p->compare(*q); }); SIM_CHECK(r == eq, "compare", "vectors compare %s (history:%s)", r ? "equal" : "different", trace.c_str()); }
      if (O().n && chance(1, 2)) { // a copy that differs in one element by less or more than the tolerance
        auto w = vals(O()); size_t i = draw(w.size()); bool def = chance(1, 2); double th = def ? 1e-10 : real(1, 8, 64) * (chance(1, 2) ? 1e-12 : 1e-3), dl = th * (chance(1, 2) ? 0.25 : 4) * (chance(1, 2) ? 1 : -1); double y = w[i] + dl, df = std::fabs(y - w[i]); bool fin = std::isfinite(df); for (double x : w) fin = fin && std::isfinite(x);
        if (fin && (df < th * 0.9 || df > th * 1.1)) { bool r = false; must(fmt("compare-near %zu", oi).c_str(), [&] { dVec t(*p); t[(u32)i] = y; r = def ? p->compare(t) : p->compare(t, th); }); SIM_CHECK(r == (df <= th), "compare-near", "vectors differing by %g compare %s with tolerance %g (history:%s)", df, r ? "equal" : "different", th, trace.c_str()); } }
      if (!room) break; dVec* r = nullptr; auto w = vals(O()); bool plain = true; for (double x : w) plain = plain && (x == 0 || std::isnormal(x)); if (!plain) break;   // infinities and the like have no portable text
      if (call(fmt("text %zu", oi).c_str(), [&] { std::stringstream ss; ss.precision(3); p->writeTextFormat(ss); std::unique_ptr<dVec> t(new dVec); t->readTextFormat(ss); if (!ss.bad()) r = t.release(); })) { if (r) vs.push_back(own(r, w)); } break; }
    case 19: { if (!room && chance(1, 2)) { auto b = O().b; bool was = O().own; must(fmt("delete %zu", oi).c_str(), [&] { delete p; }); vs.erase(vs.begin() + oi); if (was) died(b); }
      else if (O().init) { size_t s = O().n + (draw(2) ? 1 : 0), n = s > O().n ? draw(2) : 1 + draw(3); refuse("window-outside", [&] { dVec* r = new dVec(*p, (u32)s, (u32)n); (void)r; }); } break; }
  }
}
void mop() {
  int k = ms.empty() ? 0 : (int)draw(8); size_t oi = ms.empty() ? 0 : draw(ms.size()), qi = ms.empty() ? 0 : draw(ms.size()); auto O = [&]() -> MO& { return ms[oi]; }; auto Q = [&]() -> MO& { return ms[qi]; }; dMat* p = ms.empty() ? nullptr : O().p; dMat* q = ms.empty() ? nullptr : Q().p;
  int m = range(1, chance(1, 20) ? 30 : 6), n = range(1, 6);
  auto afterFailM = [&] { Host h; if (O().p->dM() == O().m && O().p->dN() == O().n) return; SIM_CHECK(O().p->dM() == 0 || O().p->dN() == 0, "torn", "after an operation that ran out of memory the matrix is %ux%u (history:%s)", O().p->dM(), O().p->dN(), trace.c_str()); O().m = O().p->dM(); O().n = O().p->dN(); O().v.clear(); };
  switch (k) {
    case 0: { if (ms.size() >= 4) break; dMat* r = nullptr; bool zero = chance(1, 8); if (zero) m = n = 0; if (call(fmt("mat(%d,%d)", m, n).c_str(), [&] { r = new dMat(m, n); })) { MO o; o.p = r; o.m = m; o.n = n; o.v.assign(m * n, 0); ms.push_back(o); } break; }
    case 1: { if (ms.size() >= 4 || !O().m) break; dMat* r = nullptr; if (call(fmt("matcopy %zu", oi).c_str(), [&] { r = new dMat(*p); })) { MO o = O(); o.p = r; ms.push_back(o); } break; }
    case 2: if (call(fmt("resize %zu (%d,%d)", oi, m, n).c_str(), [&] { p->resize(m, n); })) { O().m = m; O().n = n; O().v.assign(m * n, 0); } else afterFailM(); break;
    case 3: if (!Q().m) break; if (call(fmt("matassign %zu = %zu", oi, qi).c_str(), [&] { *p = *q; })) { O().m = Q().m; O().n = Q().n; O().v = Q().v; } else afterFailM(); break;
    case 4: case 5: { if (!O().m || chance(1, 10)) { int i = O().m + (int)draw(2), j = i >= O().m ? (int)draw(3) : O().n; if (chance(1, 2) && O().m) { i = (int)draw(O().m); j = O().n + (int)draw(2); } refuse("mat-index-outside", [&] { (*p)[i][j] = 1; }); break; }
      for (int c = range(1, 4); c > 0; c--) { int i = (int)draw(O().m), j = (int)draw(O().n); double x = rv(); bool raw = chance(1, 4); must(fmt("matset %zu(%d,%d)", oi, i, j).c_str(), [&] { if (raw) p->ptr()[i * p->dN() + j] = x; else (*p)[i][j] = x; }); O().v[i * O().n + j] = x; } break; }
    case 6: if (!O().m) break; must(fmt("matzero %zu", oi).c_str(), [&] { p->zero(); }); O().v.assign(O().v.size(), 0); break;
    case 7: if (ms.size() > 1) { must(fmt("matdelete %zu", oi).c_str(), [&] { delete p; }); ms.erase(ms.begin() + oi); } break;
  }
}
void run() {
  setStepBudget(2000000); nWin = nFail = nOut = nAbort = 0; static const int fills[] = {-1, 0x00, 0xff, 0x7f, 0x41}; mem::fill(fills[draw(5)]);
  u64 live0 = mem::liveBlocks(); int n = range(5, 80), mats = (int)draw(3);
  for (int i = 0; i < n; i++) { if (mats && chance(mats, 4)) mop(); else vop(); verify(); }
  while (!vs.empty()) { size_t i = draw(vs.size()); auto b = vs[i].b; bool was = vs[i].own; dVec* p = vs[i].p; must(fmt("delete %zu", i).c_str(), [&] { delete p; }); vs.erase(vs.begin() + i); if (was) died(b); verify(); }
  while (!ms.empty()) { dMat* p = ms.back().p; must("matdelete", [&] { delete p; }); ms.pop_back(); }
  if (!nAbort) { u64 live = mem::liveBlocks(); SIM_CHECK(live <= live0, "leak", "%lld memory blocks survive all vectors (history:%s)", (long long)(live - live0), trace.c_str()); }
  stat("vector.ops", n); stat("vector.windows", nWin); if (nWin || nFail) nontrivial(); sample(fmt("%llu windows, %llu failed allocations, %llu out-of-contract accesses:", (unsigned long long)nWin, (unsigned long long)nFail, (unsigned long long)nOut) + trace.substr(0, 400));
}
Register reg({"C24", run, 4000000, 40000000,
  "random operation histories (construct, copy, move, window, reinit, clear, fill, set, assign, add, expressions, compare, text copy, resize, destroy) over up to 7 vectors and windows and 4 dense matrices with seeded memory contents and failing allocations; after every operation every object is compared with an array model element by element and at the end nothing may be left allocated; nontrivial: at least one window or failed allocation",
  "real: dVec, dMat; simulated: operation history, memory contents, allocator"});
}
