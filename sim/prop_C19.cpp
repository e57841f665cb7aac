// C19: random operation histories on sparse, symmetric and block matrices against dense models.
#include "model.h"
#include <sstream>
using namespace sim;
using namespace mdl;
using math::SparseMatrix; using math::SparseSymMatrix; using math::BlockSparseSymMatrix; using math::SparsityInfo; using math::dVec;
namespace {
struct Pat { int r, c, mx; bool sym, compressed = false; std::set<std::pair<int, int>> e; int inRow(int i) { int n = 0; for (auto& x : e) n += x.first == i; return n; } };
struct Obj { SparseMatrix* g = nullptr; SparseSymMatrix* s = nullptr; std::shared_ptr<Pat> p; bool hasVals = false; std::map<std::pair<int, int>, double> v; };
std::vector<Obj> objs;
struct BObj { BlockSparseSymMatrix<2>* b2 = nullptr; BlockSparseSymMatrix<3>* b3 = nullptr; BlockSparseSymMatrix<4>* b4 = nullptr; std::vector<int> rows; std::shared_ptr<std::vector<std::set<std::pair<int, int>>>> pat; std::shared_ptr<bool> comp; int mx; bool vals = false; std::map<std::pair<int, int>, double> v; int n() const { int k = 0; for (int r : rows) k += r; return k; } };
std::vector<BObj> bobjs;
template <class F> auto with(BObj& o, F f) { return o.b2 ? f(*o.b2) : o.b3 ? f(*o.b3) : f(*o.b4); }
math::BaseSparseMatrix* base(Obj& o) { return o.g ? (math::BaseSparseMatrix*)o.g : (math::BaseSparseMatrix*)o.s; }
std::pair<int, int> key(Obj& o, int i, int j) { if (o.p->sym && i > j) std::swap(i, j); return {i, j}; }
double vs = 1; bool mixed = false;                                   // magnitude of the values; mixed: some far smaller ones
double rv() { double x = vs * real(-8, 8, 256); return mixed && chance(1, 4) ? std::ldexp(x, -range(1, 30)) : x; }
u64 nOut, nShare; int big = 8;

void verify(Obj& o, const char* after) {
  Host h;
  if (!o.hasVals) return;
  SIM_CHECK((int)base(o)->nRows() == o.p->r && (int)base(o)->nColumns() == o.p->c, "shape", "shape changed after %s", after);
  SIM_CHECK(base(o)->nValues() == o.p->e.size(), "pattern", "%u values stored, %zu positions declared (after %s)", base(o)->nValues(), o.p->e.size(), after);
  for (int i = 1; i <= o.p->r; i++) for (int j = 1; j <= o.p->c; j++) {
    double w = 0; auto it = o.v.find(key(o, i, j)); if (it != o.v.end()) w = it->second;
    double x = o.g ? o.g->value(i, j) : o.s->value(i, j);
    SIM_CHECK(mdl::close(x, w, 1e-12, 0.1 * vs), "value", "%s matrix %dx%d: entry (%d,%d) is %.17g, a dense matrix holds %.17g (after %s)", o.p->sym ? "symmetric" : "general", o.p->r, o.p->c, i, j, x, w, after);
  }
}
void verifyB(BObj& o, const char* after) {
  Host h; int nb = (int)o.rows.size();
  u32 nr = with(o, [](auto& m) { return (u32)m.nRows(); }); SIM_CHECK((int)nr == o.n(), "block-rows", "block matrix reports %u rows instead of %d (after %s)", nr, o.n(), after);
  if (!o.vals) return;
  int gi = 0;
  for (int a = 0; a < nb; a++) for (int i = 1; i <= o.rows[a]; i++) { gi++; int gj = 0; for (int b = 0; b < nb; b++) for (int j = 1; j <= o.rows[b]; j++) { gj++;
    if (b < a) continue; double w = 0; auto it = o.v.find({std::min(gi, gj), std::max(gi, gj)}); if (it != o.v.end()) w = it->second;
    double x = with(o, [&](auto& m) { return a == b ? m.block(a + 1)->value(i, j) : m.block(a + 1, b + 1)->value(i, j); });
    SIM_CHECK(mdl::close(x, w, 1e-12, 0.1 * vs), "block-value", "block matrix: entry (%d,%d) is %.17g, a dense matrix holds %.17g (after %s)", gi, gj, x, w, after); } }
}
void loud(const Outcome& o, const char* what) { Host h; nOut++; stat("fault.out-of-contract-access"); SIM_CHECK(o.loud(), "silent", "%s did not stop with an error (%s)", what, kindName(o.kind)); }
Obj& some() { return objs[draw(objs.size())]; }
void ctor() {
  Obj o; o.p = std::make_shared<Pat>(); Pat& p = *o.p; p.sym = chance(1, 2); p.r = range(1, big); p.c = p.sym ? p.r : range(1, big); p.mx = chance(1, 3) ? range(1, big > 8 ? big : 4) : 100;
  if (p.sym) { o.s = new SparseSymMatrix(p.r, p.mx); for (int i = 1; i <= p.r; i++) p.e.insert({i, i}); } else o.g = new SparseMatrix(p.r, p.c, p.mx);
  p.mx = std::min(p.mx, p.c);
  objs.push_back(o);
}
void op() {
  int k = (int)draw(14); if (objs.empty()) k = 0;
  Obj* o = objs.empty() ? nullptr : &some();
  switch (k) {
    case 0: if (objs.size() < 6) { ctor(); ev("new %dx%d", objs.back().p->r, objs.back().p->c); } break;
    case 1: case 2: { // declare entries
      int n = range(1, big > 8 ? 80 : 6), row = big > 8 && chance(1, 2) ? range(1, o->p->r) : 0;   // row: fill one row
      for (int q = 0; q < n; q++) {
        int i = range(1, o->p->r), j = range(1, o->p->c); if (row) i = row; auto kk = key(*o, i, j); ev("entry %d %d", i, j);
        bool full = !o->p->e.count(kk) && o->p->inRow(kk.first) >= o->p->mx;
        if (o->p->compressed && o->p->e.count(kk) && chance(3, 4)) continue;
        if (o->p->compressed || full) { loud(attempt([&] { if (o->g) o->g->addEntry(i, j); else o->s->addEntry(i, j); }), o->p->compressed ? "declaring an entry of a compressed matrix" : "overflowing a row"); }
        else { if (o->g) o->g->addEntry(i, j); else o->s->addEntry(i, j); o->p->e.insert(kk); }
      } break; }
    case 3: ev("compress"); base(*o)->compress(); o->p->compressed = true; o->hasVals = o->hasVals || true; break;
    case 4: case 5: case 6: { // values
      int n = range(1, big > 8 ? 60 : 6);
      for (int q = 0; q < n; q++) {
        int i = range(1, o->p->r), j = range(1, o->p->c); if (!o->p->e.empty() && chance(4, 5)) { auto it = o->p->e.begin(); std::advance(it, draw(o->p->e.size())); i = it->first; j = it->second; if (o->p->sym && chance(1, 2)) std::swap(i, j); }
        double x = rv(); bool set = chance(1, 4); auto kk = key(*o, i, j); ev("val %d %d %.17g%s", i, j, x, set ? " set" : "");
        auto doit = [&] { if (set) { if (o->g) (*o->g)(i, j) = x; else (*o->s)(i, j) = x; } else { if (o->g) o->g->addValue(i, j, x); else o->s->addValue(i, j, x); } };
        if (!o->hasVals || !o->p->e.count(kk)) loud(attempt(doit), !o->hasVals ? "adding a value before compression" : "adding a value outside the pattern");
        else { doit(); if (set) o->v[kk] = x; else o->v[kk] += x; }
      } break; }
    case 7: if (o->hasVals) { ev("zero"); base(*o)->zero(); o->v.clear(); } break;
    case 8: if (o->hasVals) { // product
      ev("prod"); int r = o->p->r, c = o->p->c; dVec V(c), W(r), T(c), U(r); std::vector<double> v(c), u(r), a(r), b(c); double xs = chance(1, 3) ? std::ldexp(1.0, range(-50, 50)) : 1;
      auto keep = [](double x) { return std::fabs(x) < 1e-18 ? 0.0 : x; };      // the library takes factors below 1e-20 for zero
      for (int i = 0; i < c; i++) { v[i] = chance(1, 5) ? 0 : keep(rv() * xs); V[i] = v[i]; } for (int i = 0; i < r; i++) { u[i] = keep(rv() * xs); U[i] = u[i]; a[i] = chance(1, 2) ? 0 : rv() * vs * xs; W[i] = a[i]; } for (int i = 0; i < c; i++) { b[i] = chance(1, 2) ? 0 : rv() * vs * xs; T[i] = b[i]; }
      double cf = rv() / vs; if (o->g) { matBVprod(*o->g, V, cf, W); matBTVprod(*o->g, U, cf, T); } else matBVprod(*o->s, V, cf, W);
      for (int i = 0; i < r; i++) { double e = a[i], m = std::fabs(a[i]); for (int j = 0; j < c; j++) { auto it = o->v.find(key(*o, i + 1, j + 1)); if (it != o->v.end()) { double t = it->second * v[j] * cf; e += t; m += std::fabs(t); } } SIM_CHECK(std::fabs(W[i] - e) <= 1e-12 * m, "product", "matrix-vector product row %d is %.17g, dense %.17g (largest term %.3g, factor %.3g, units %.3g)", i + 1, W[i], e, m, cf, vs); }
      if (o->g) for (int j = 0; j < c; j++) { double e = b[j], m = std::fabs(b[j]); for (int i = 0; i < r; i++) { auto it = o->v.find({i + 1, j + 1}); if (it != o->v.end()) { double t = it->second * u[i] * cf; e += t; m += std::fabs(t); } } SIM_CHECK(std::fabs(T[j] - e) <= 1e-12 * m, "product", "transposed product row %d is %.12g, dense %.12g", j + 1, T[j], e); }
      } break;
    case 9: { // share the pattern with a new matrix
      if (objs.size() >= 6) break; Obj n; n.p = o->p; ev("share"); nShare++;
      if (o->g) n.g = new SparseMatrix(o->g->getSparsityInfo()); else n.s = new SparseSymMatrix(o->s->getSparsityInfo());
      n.hasVals = n.p->compressed; objs.push_back(n); break; }
    case 10: { // give an existing matrix the pattern of another one
      Obj& q = some(); if (!q.g != !o->g) break; ev("setsi"); nShare++; bool same = q.p == o->p;
      base(*o)->setSparsityInfo(base(q)->getSparsityInfo());
      if (same) { // re-setting the own pattern: values may be kept or dropped
        o->hasVals = o->p->compressed; if (o->hasVals) { base(*o)->zero(); o->v.clear(); }
      } else { o->p = q.p; o->v.clear(); o->hasVals = o->p->compressed; }
      break; }
    case 11: { // start over
      ev("reinit"); auto p = std::make_shared<Pat>(); p->sym = o->p->sym; p->r = range(1, big); p->c = p->sym ? p->r : range(1, big); p->mx = chance(1, 3) ? range(1, big > 8 ? big : 4) : 100;
      if (o->g) o->g->reinit(p->r, p->c, p->mx); else o->s->reinit(p->r, p->mx); p->mx = std::min(p->mx, p->c); o->p = p; o->v.clear(); o->hasVals = false; break; }
    case 12: if (o->hasVals) { // text round trip into another object
      ev("text"); std::stringstream ss; ss << std::fixed; ss.precision(3); base(*o)->writeCoordinateTextFormat(ss); Obj n; n.p = std::make_shared<Pat>(*o->p); n.p->mx = 0; n.v = o->v; n.hasVals = true;
      if (o->g) n.g = new SparseMatrix; else n.s = new SparseSymMatrix;
      base(n)->readCoordinateTextFormat(ss); SIM_CHECK(base(*o)->compare(*base(n)), "compare", "a matrix differs from its own text copy"); SIM_CHECK(base(n)->compare(*base(*o)), "compare", "a text copy differs from its matrix"); verify(n, "text round trip");
      if (!o->p->e.empty()) { auto it = o->p->e.begin(); std::advance(it, draw(o->p->e.size())); double d = std::max(vs, 1.0) * (chance(1, 2) ? 1e-3 : -2); if (n.g) n.g->addValue(it->first, it->second, d); else n.s->addValue(it->first, it->second, d); SIM_CHECK(!base(*o)->compare(*base(n)), "compare", "matrices that differ in entry (%d,%d) compare equal", it->first, it->second); }
      if (n.g) delete n.g; else delete n.s; } break;
    case 13: if (objs.size() > 1) { ev("delete"); size_t i = draw(objs.size()); if (objs[i].g) delete objs[i].g; else delete objs[i].s; objs.erase(objs.begin() + i); } break;
  }
}
void bop() {
  int k = (int)draw(8); if (bobjs.empty()) k = 0;
  if (k == 0) {
    if (bobjs.size() >= 3) return; BObj b; int nb = chance(1, 3) ? 3 : chance(1, 4) ? 4 : 2; b.mx = chance(1, 4) ? range(2, 5) : 100; for (int i = 0; i < nb; i++) b.rows.push_back(range(i ? 1 : 0, big > 8 ? 20 : 5));
    if (nb == 2) b.b2 = new BlockSparseSymMatrix<2>({(u32)b.rows[0], (u32)b.rows[1]}, b.mx); else if (nb == 3) b.b3 = new BlockSparseSymMatrix<3>({(u32)b.rows[0], (u32)b.rows[1], (u32)b.rows[2]}, b.mx); else b.b4 = new BlockSparseSymMatrix<4>({(u32)b.rows[0], (u32)b.rows[1], (u32)b.rows[2], (u32)b.rows[3]}, b.mx);
    b.pat = std::make_shared<std::vector<std::set<std::pair<int, int>>>>(1); b.comp = std::make_shared<bool>(false); bobjs.push_back(b); ev("bnew %d", nb); return;
  }
  BObj& o = bobjs[draw(bobjs.size())]; auto& pat = (*o.pat)[0];
  auto loc = [&](int g, int& blk, int& pos) { blk = 0; pos = g; for (int r : o.rows) { if (pos <= r) return; pos -= r; blk++; } };
  switch (k) {
    case 1: case 2: for (int q = 0, n = range(1, big > 8 ? 80 : 6); q < n; q++) {
      int i = range(1, o.n()), j = range(1, o.n()), a = std::min(i, j), b = std::max(i, j), ba, bb, pa, pb; loc(a, ba, pa); loc(b, bb, pb); ev("bentry %d %d", i, j);
      if (*o.comp) { if (!pat.count({a, b})) loud(attempt([&] { with(o, [&](auto& m) { m.addEntry(i, j); }); }), "declaring an entry of a compressed block matrix"); continue; }
      int inRow = 0; for (auto& x : pat) { int xa, xb, qa, qb; loc(x.first, xa, qa); loc(x.second, xb, qb); if (xa == ba && xb == bb && qa == pa) inRow++; }
      if (!pat.count({a, b}) && inRow >= std::min(o.mx, o.rows[bb])) loud(attempt([&] { with(o, [&](auto& m) { m.addEntry(i, j); }); }), "overflowing a row of a block matrix");
      else { with(o, [&](auto& m) { m.addEntry(i, j); }); pat.insert({a, b}); } } break;
    case 3: ev("bcompress"); with(o, [&](auto& m) { m.compress(); }); *o.comp = true; o.vals = true; break;
    case 4: case 5: for (int q = 0, n = range(1, 6); q < n; q++) {
      int i = range(1, o.n()), j = range(1, o.n()); if (!pat.empty() && chance(4, 5)) { auto it = pat.begin(); std::advance(it, draw(pat.size())); i = it->first; j = it->second; if (chance(1, 2)) std::swap(i, j); }
      double x = rv(); std::pair<int, int> kk(std::min(i, j), std::max(i, j)); auto doit = [&] { with(o, [&](auto& m) { m.addValue(i, j, x); }); }; ev("bval %d %d", i, j);
      if (!o.vals || !pat.count(kk)) loud(attempt(doit), "adding a value outside the pattern of a block matrix"); else { doit(); o.v[kk] += x; } } break;
    case 6: if (o.vals) { ev("bzero"); with(o, [&](auto& m) { m.zero(); }); o.v.clear(); } break;
    case 7: if (bobjs.size() < 3) { BObj n; n.rows = o.rows; n.pat = o.pat; n.comp = o.comp; n.mx = o.mx; n.vals = *o.comp; ev("bshare"); nShare++; if (o.b2) n.b2 = new BlockSparseSymMatrix<2>(o.b2); else if (o.b3) n.b3 = new BlockSparseSymMatrix<3>(o.b3); else n.b4 = new BlockSparseSymMatrix<4>(o.b4); bobjs.push_back(n); } break;
  }
}
void run() {
  setStepBudget(2000000); nOut = nShare = 0;
  static const int fills[] = {-1, 0x00, 0xff, 0x7f, 0x41}; mem::fill(fills[draw(5)]);
  int n = range(5, 70), blocks = (int)draw(3); big = 8; vs = chance(1, 4) ? std::ldexp(1.0, range(-40, 40)) : 1; mixed = chance(1, 4); if (chance(1, 30)) { big = range(12, 70); n = range(5, 30); stat("matrix.big"); }
  Sut s;
  for (int i = 0; i < n; i++) {
    if (blocks && (blocks == 2 || chance(1, 2))) { bop(); for (auto& b : bobjs) verifyB(b, fmt("op %d", i).c_str()); }
    else { op(); for (auto& o : objs) verify(o, fmt("op %d", i).c_str()); }
  }
  for (auto& o : objs) { if (o.g) delete o.g; else delete o.s; } for (auto& b : bobjs) { delete b.b2; delete b.b3; delete b.b4; }
  stat("matrix.ops", n); stat("matrix.patterns-shared", nShare);
  if (nShare || nOut) nontrivial();
  sample(fmt("%d operations on %zu sparse and %zu block matrices, %llu pattern sharings, %llu out-of-contract accesses", n, objs.size(), bobjs.size(), (unsigned long long)nShare, (unsigned long long)nOut));
}
Register reg({"C19", run, 4000000, 40000000,
  "random operation histories (declare, compress, add, set, zero, share pattern, reinit, text copy, delete, multiply) over up to 6 matrices and 3 block matrices with seeded memory contents; after every operation every matrix is compared with a dense model entry by entry; nontrivial: at least one shared pattern or out-of-contract access",
  "real: SparsityInfo, SparseMatrix, SparseSymMatrix, BlockSparseSymMatrix, products; simulated: operation history, memory contents"});
}
