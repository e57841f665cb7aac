// C05: VTK snapshots against what an in-process observer saw, under write faults, crashes and restarts.
#include "analysis.h"
#include <sstream>
using namespace sim;
using namespace mdl;
namespace {
const char* const dofName[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"};
const char* const scName[] = {"", "S_P", "W", "WU", "WP", "VOL"};
const char* const veName[] = {"", "IC", "FLUX", "GRADT"};
const char* const teName[] = {"", "COUCHY", "PK2", "E", "C", "TSTRAIN"};
const char* const cmpName[] = {"XX", "XY", "XZ", "YY", "YZ", "ZZ"};
struct Field { int comps = 1; std::vector<double> v; };
struct Vtk { std::vector<double> pts; std::vector<std::vector<long>> cells; std::vector<long> types; std::map<std::string, Field> point, cell; };
// strict reader of the legacy format; returns an error text or ""
std::string parse(const std::string& s, Vtk& o) {
  size_t p = s.find('\n'); if (p == std::string::npos || s.compare(0, 22, "# vtk DataFile Version") != 0) return "no vtk header line";
  size_t q = s.find('\n', p + 1); if (q == std::string::npos || q - p > 256) return "no title line";
  std::vector<std::string> t; { std::istringstream is(s.substr(q + 1)); std::string w; while (is >> w) t.push_back(w); }
  size_t i = 0; bool bad = false;
  auto word = [&](const char* w) { if (i < t.size() && t[i] == w) { i++; return true; } return false; };
  auto num = [&]() { if (i >= t.size()) { bad = true; return 0.0; } char* e; double d = strtod(t[i].c_str(), &e); if (*e) bad = true; i++; return d; };
  auto integer = [&]() { if (i >= t.size()) { bad = true; return 0L; } char* e; long d = strtol(t[i].c_str(), &e, 10); if (*e) bad = true; i++; return d; };
  auto type = [&]() { return word("float") || word("double"); };
  if (!word("ASCII") || !word("DATASET") || !word("UNSTRUCTURED_GRID")) return "no dataset line";
  if (!word("POINTS")) return "no POINTS"; long n = integer(); if (bad || n < 0 || n > 100000 || !type()) return "bad POINTS line";
  for (long k = 0; k < 3 * n && !bad; k++) o.pts.push_back(num()); if (bad) return "bad point coordinates";
  if (!word("CELLS")) return "no CELLS after the points"; long c = integer(), size = integer(), used = 0; if (bad || c < 0 || c > 100000) return "bad CELLS line";
  for (long k = 0; k < c && !bad; k++) { long m = integer(); if (bad || m < 0 || m > 100) { bad = true; break; } std::vector<long> v; for (long j = 0; j < m; j++) { v.push_back(integer()); if (v.back() < 0 || v.back() >= n) bad = true; } used += m + 1; o.cells.push_back(v); }
  if (bad) return "bad cell connectivity"; if (used != size) return fmt("CELLS announces %ld numbers, holds %ld", size, used);
  if (!word("CELL_TYPES")) return "no CELL_TYPES after the cells"; if (integer() != c || bad) return "CELL_TYPES count differs";
  for (long k = 0; k < c && !bad; k++) o.types.push_back(integer()); if (bad) return "bad cell types";
  std::map<std::string, Field>* cur = nullptr; long cn = 0;
  while (i < t.size()) {
    if (word("POINT_DATA")) { if (integer() != n || bad) return "POINT_DATA count differs"; cur = &o.point; cn = n; continue; }
    if (word("CELL_DATA")) { if (integer() != c || bad) return "CELL_DATA count differs"; cur = &o.cell; cn = c; continue; }
    if (!cur) return "data before POINT_DATA/CELL_DATA: " + t[i];
    Field f; std::string name;
    if (word("SCALARS")) { if (i + 1 >= t.size()) return "cut SCALARS"; name = t[i++]; if (!type()) return "SCALARS without type"; word("1"); if (!word("LOOKUP_TABLE")) return "SCALARS without LOOKUP_TABLE"; i++; }
    else if (word("VECTORS")) { if (i + 1 >= t.size()) return "cut VECTORS"; name = t[i++]; if (!type()) return "VECTORS without type"; f.comps = 3; }
    else return "unexpected word " + t[i];
    for (long k = 0; k < cn * f.comps && !bad; k++) f.v.push_back(num()); if (bad) return "bad values of field " + name;
    if (cur->count(name)) return "field twice: " + name; (*cur)[name] = f;
  }
  return "";
}
bool same(double v, double x) { return v == x || std::fabs(v - x) <= 1.1e-5 * std::fabs(x) + 1e-300; }
int vtkType(ElementShape s) { switch (s) { case ElementShape::VERTEX: return 1; case ElementShape::TWIN_VERTEX: return 2; case ElementShape::LINE: return 3; case ElementShape::TRIANGLE: return 5; case ElementShape::QUAD: return 9; case ElementShape::TETRA: return 10; case ElementShape::HEXAHEDRON: return 12; case ElementShape::WEDGE: return 13; default: return -1; } }
std::string file(const AnSpec& a, int s) { return a.vtkName + fmt("%d.vtk", s); }

// compares one snapshot with the observer's record k
void compare(const AnSpec& a, AnRun& r, int s, size_t k, const Snap& sn, const std::string& text) {
  Vtk v; std::string err = parse(text, v); std::string nm = file(a, s);
  SIM_CHECK(err.empty(), "malformed", "%s is not a valid legacy VTK file: %s", nm.c_str(), err.c_str());
  size_t nn = a.m.pos.size(), ne = a.m.el.size();
  SIM_CHECK(v.pts.size() == nn * 3 && v.cells.size() == ne, "counts", "%s has %zu points and %zu cells, the model %zu and %zu", nm.c_str(), v.pts.size() / 3, v.cells.size(), nn, ne);
  for (size_t n = 0; n < nn; n++) for (int c = 0; c < 3; c++) SIM_CHECK(same(v.pts[(r.in.nodeNo[n] - 1) * 3 + c], a.m.pos[n][c]), "points", "%s: coordinate %d of node %u is %g, node is at %g", nm.c_str(), c, r.in.nodeNo[n], v.pts[(r.in.nodeNo[n] - 1) * 3 + c], a.m.pos[n][c]);
  for (size_t e = 0; e < ne; e++) {
    auto& c = v.cells[r.in.elNo[e] - 1]; bool ok = c.size() == a.m.el[e].nodes.size(); for (size_t j = 0; ok && j < c.size(); j++) ok = c[j] + 1 == (long)r.in.nodeNo[a.m.el[e].nodes[j]];
    SIM_CHECK(ok, "cells", "%s: cell %u is not connected like its element", nm.c_str(), r.in.elNo[e]);
    SIM_CHECK(v.types[r.in.elNo[e] - 1] == vtkType(a.m.el[e].shape), "cell-types", "%s: cell %u has type %ld, expected %d", nm.c_str(), r.in.elNo[e], v.types[r.in.elNo[e] - 1], vtkType(a.m.el[e].shape));
  }
  // expected fields
  std::map<std::string, Field> P, C; bool disp = false; for (auto& d : r.in.ids) if (!d.e && d.type <= Dof::UZ) disp = true;
  auto at = [](std::map<std::string, Field>& m, const std::string& n, int comps, size_t cnt) -> Field& { Field& f = m[n]; if (f.v.empty()) { f.comps = comps; f.v.assign(comps * cnt, 0.0); } return f; };
  if (disp) { at(P, "disp", 3, nn); at(P, "reaction", 3, nn); }
  for (size_t i = 0; i < r.in.ids.size(); i++) {
    auto& d = r.in.ids[i]; size_t en = (d.e ? r.in.elNo[d.ent] : r.in.nodeNo[d.ent]) - 1;
    if (d.e) at(C, dofName[d.type], 1, ne).v[en] = sn.U[i];
    else if (d.type <= Dof::UZ) { at(P, "disp", 3, nn).v[en * 3 + d.type] = sn.U[i]; at(P, "reaction", 3, nn).v[en * 3 + d.type] = sn.R[i]; }
    else at(P, dofName[d.type], 1, nn).v[en] = sn.U[i];
  }
  auto& res = r.full->res[k]; std::set<std::string> optional;
  auto wanted = [&](int cls, int q) {    // 2 required, 1 allowed
    if (a.queries >> ((cls == 0 ? 0 : cls == 1 ? 5 : 8) + q - 1) & 1) return 2; if (!a.vtkAll) return 0;
    std::map<int, std::pair<bool, bool>> t; for (size_t e = 0; e < ne; e++) { auto& x = res[r.in.elNo[e] - 1]; char ok = cls == 0 ? x.rs[q - 1] : cls == 1 ? x.rv[q - 1] : x.rt[q - 1]; auto& y = t.insert({(int)a.m.el[e].kind, {true, false}}).first->second; y.first = y.first && ok; y.second = y.second || ok; }
    int w = 0; for (auto& y : t) { if (y.second.first) w = 2; else if (y.second.second && w == 0) w = 1; } return w; };
  for (int q = 1; q <= 5; q++) { int w = wanted(0, q); if (!w) continue; if (w == 1) optional.insert(scName[q]); Field& f = at(C, scName[q], 1, ne); for (size_t e = 0; e < ne; e++) f.v[e] = res[e].sc[q - 1]; }
  for (int q = 1; q <= 3; q++) { int w = wanted(1, q); if (!w) continue; if (w == 1) optional.insert(veName[q]); Field& f = at(C, veName[q], 3, ne); for (size_t e = 0; e < ne; e++) for (int c = 0; c < 3; c++) f.v[e * 3 + c] = res[e].ve[(q - 1) * 3 + c]; }
  for (int q = 1; q <= 5; q++) { int w = wanted(2, q); if (!w) continue; for (int c = 0; c < 6; c++) { std::string nm2 = std::string(teName[q]) + "_" + cmpName[c]; if (w == 1) optional.insert(nm2); Field& f = at(C, nm2, 1, ne); for (size_t e = 0; e < ne; e++) f.v[e] = res[e].te[(q - 1) * 6 + c]; } }
  for (int w = 0; w < 2; w++) {
    auto& exp = w ? C : P; auto& got = w ? v.cell : v.point;
    for (auto& x : got) SIM_CHECK(exp.count(x.first), "fields", "%s holds a %s field %s that the analysis does not have", nm.c_str(), w ? "cell" : "point", x.first.c_str());
    for (auto& x : exp) {
      auto g = got.find(x.first); if (g == got.end() && optional.count(x.first)) continue;
      SIM_CHECK(g != got.end(), "fields", "%s lacks the %s field %s", nm.c_str(), w ? "cell" : "point", x.first.c_str());
      SIM_CHECK(g->second.comps == x.second.comps, "fields", "%s: field %s has %d components", nm.c_str(), x.first.c_str(), g->second.comps);
      for (size_t i = 0; i < x.second.v.size(); i++) if (!std::isnan(x.second.v[i])) SIM_CHECK(same(g->second.v[i], x.second.v[i]), "values", "%s: value %zu of field %s is %.9g, in memory it was %.9g", nm.c_str(), i, x.first.c_str(), g->second.v[i], x.second.v[i]);
    }
  }
}
class Mark : public PostProcessor {          // attached after the writer: its callbacks mark the snapshot complete
public:
  Mark(FEStorage* s, std::vector<int>* d) : PostProcessor(s), done(d) { name = "Mark"; }
  void pre() override { mark(0); } void process(uint16 s) override { mark(s); } void post(uint16) override {}
  void mark(int s) { Host h; done->push_back(s); vfs::setStamp((int)done->size()); }
  std::vector<int>* done;
};
class Fwd : public PostProcessor {           // hands the callbacks of another solver to the writer
public:
  Fwd(FEStorage* s, PostProcessor* p) : PostProcessor(s), pp(p) { name = "Fwd"; }
  void pre() override { pp->pre(); } void process(uint16 s) override { pp->process(s); } void post(uint16 s) override { pp->post(s); }
  PostProcessor* pp;
};
// the same writer follows further analyses: the same one again, then another model on the storage
void reuse(const AnSpec& a, AnRun& r, const AnSpec* b) {
  r.in.snaps.clear(); r.full->res.clear(); vfs::enable(true); Outcome o = attempt([&] { r.solve(); }); vfs::enable(false);
  SIM_CHECK(o.kind == OK, "again", "solving a second time ended with %s %s", kindName(o.kind), o.what.c_str()); size_t k = 0;
  for (auto& s : r.in.snaps) if (s.type == 'p' || s.type == 's') { compare(a, r, s.type == 'p' ? 0 : s.step, k, s, vfs::get(file(a, s.type == 'p' ? 0 : s.step))); k++; }
  if (!b) return;
  AnRun q; FESolver* so = nullptr; vfs::enable(true);
  o = attempt([&] { r.st->deleteMesh(); so = new LinearFESolver; q.st = r.st; q.in.build(b->m, b->p, r.st, so); q.full = new FullObs(r.st, &q.in); so->addPostProcessor(q.full); so->addPostProcessor(new Fwd(r.st, r.vtk)); so->solve(); }); vfs::enable(false);
  SIM_CHECK(o.kind == OK, "again", "another model on the same storage: %s %s", kindName(o.kind), o.what.c_str()); k = 0;
  for (auto& s : q.in.snaps) if (s.type == 'p' || s.type == 's') { compare(*b, q, s.type == 'p' ? 0 : s.step, k, s, vfs::get(file(*b, s.type == 'p' ? 0 : s.step))); k++; }
}
void run() {
  setStepBudget(20000000); vfs::reset(); clk::on(1);
  AnOpt ao; AnSpec a = genAnalysis(ao); a.vtk = true; if (a.vtkName.empty()) a.vtkName = "res"; a.nObs = 1;
  if (a.kind == 1 || a.kind == 2) if (a.steps < 9 && chance(1, 8)) a.steps = range(9, 12);
  if (chance(1, 6)) a.recs.clear();
  bool again = a.steps < 20 && chance(1, 4); AnSpec b; bool other = again && !a.vtkAll && a.kind != 3 && chance(1, 2); if (other) { do { b = genAnalysis(ao); } while (b.kind != 0); b.vtk = true; b.vtkName = a.vtkName; b.vtkAll = false; b.queries = a.queries; b.queryWay = a.queryWay; b.recs.clear(); b.ppOrder = 0; other = solveLinear(b.m).ok; }
  // undisturbed: the directory is exactly the expected one and every snapshot matches
  std::string base = isolated([&] {
    vfs::enable(true); AnRun r; Outcome o = attempt([&] { r.create(a); r.solve(); }); vfs::enable(false);
    if (o.kind != OK) return std::string();
    size_t k = 0, n = 0;
    for (auto& s : r.in.snaps) if (s.type == 'p' || s.type == 's') { std::string f = file(a, s.type == 'p' ? 0 : s.step); SIM_CHECK(vfs::exists(f), "missing", "snapshot %s was not written", f.c_str()); compare(a, r, s.type == 'p' ? 0 : s.step, k, s, vfs::get(f)); k++; n++; }
    std::string out = "ok\n"; u64 cnt = 0;
    for (auto& f : vfs::list()) if (f.size() > 4 && f.compare(f.size() - 4, 4, ".vtk") == 0) { cnt++; out += f + fmt(" %zu\n", vfs::get(f).size()) + vfs::get(f); }
    SIM_CHECK(cnt == n, "extra", "%llu snapshots on disk for %zu published states", (unsigned long long)cnt, n);
    out = fmt("%llu %llu ", (unsigned long long)vfs::writes(), (unsigned long long)vfs::opens()) + out;
    if (again) reuse(a, r, other ? &b : nullptr);
    return out; });
  if (base.empty()) { stat("skipped.baseline-failed"); sample("baseline did not converge"); return; }
  if (again) stat("second-solves"); if (other) stat("rebuilt-models");
  std::map<std::string, std::string> want; u64 nw, no; { char* e; nw = strtoull(base.c_str(), &e, 10); no = strtoull(e, &e, 10); size_t p = base.find("ok\n") + 3; while (p < base.size()) { size_t sp = base.find(' ', p), nl = base.find('\n', p); std::string f = base.substr(p, sp - p); size_t len = strtoull(base.c_str() + sp, nullptr, 10); want[f] = base.substr(nl + 1, len); p = nl + 1 + len; } }
  for (auto& w : want) if (chance(1, 4)) { vfs::put(w.first, chance(1, 2) ? w.second + "stale tail\n1 2 3\n" : "x"); stat("fault.stale-file"); }
  // disturbed
  static const vfs::FaultKind ks[] = {vfs::WRITE_EIO, vfs::OPEN_FAIL, vfs::WRITE_TORN, vfs::DISK_FULL, vfs::WRITE_SHORT, vfs::WRITE_EINTR, vfs::CLOSE_FAIL};
  bool crash = chance(1, 2); std::string fs; int nf = range(0, crash ? 2 : 3);
  for (int i = 0; i < nf; i++) { auto k = ks[draw(7)]; u64 n = k == vfs::OPEN_FAIL || k == vfs::CLOSE_FAIL ? (u64)range(1, (int)no) : (u64)range(1, (int)std::max<u64>(nw, 1)); u64 arg = k == vfs::DISK_FULL ? (chance(1, 3) ? 1000000 : (u64)range(1, 80)) : (u64)range(0, 30); vfs::addFault({k, n, arg, "", false}); fs += fmt(" %s@%llu", vfs::faultName[k], (unsigned long long)n); }
  if (crash) { u64 n = (u64)range(1, (int)nw), arg = draw(40); vfs::addFault({vfs::CRASH_AT, n, arg, "", false}); fs += fmt(" crash@%llu+%llu", (unsigned long long)n, (unsigned long long)arg); }
  static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  std::vector<int> done; AnRun r; vfs::enable(true);
  Outcome o = attempt([&] { r.create(a); r.so->addPostProcessor(new Mark(r.st, &done)); vfs::setStamp(0); r.solve(); });
  vfs::enable(false); mem::fill(-1); u64 fired = vfs::firedFaults();
  sample(a.str() + "; faults:" + (fs.empty() ? " none" : fs));
  SIM_CHECK(o.kind == OK || o.kind == CRASH, "stopped", "disk faults (%s) ended the analysis with %s %s", fs.c_str(), kindName(o.kind), o.what.c_str());
  if (o.kind == OK) SIM_CHECK(done.size() == want.size(), "steps", "%zu states published under faults, %zu without", done.size(), want.size());
  // own operations of each snapshot
  std::map<std::string, bool> clean; for (size_t i = 0; i < done.size(); i++) clean[file(a, done[i])] = true;
  std::map<std::string, int> stampOf; for (size_t i = 0; i < done.size(); i++) stampOf[file(a, done[i])] = (int)i;
  for (auto& op : vfs::history()) {
    auto c = clean.find(op.path); if (c == clean.end()) continue;
    if (!op.ok && op.type != 'c' && op.type != 'r') c->second = false;
    if (op.type == 'w' || op.type == 'u' || op.type == 'm' || (op.type == 'o' && op.len)) SIM_CHECK(op.stamp <= stampOf[op.path], "touched-again", "completed snapshot %s is opened or written again during a later state", op.path.c_str());
  }
  bool eintr = false; for (auto& op : vfs::history()) if (op.type == 'w' && !op.ok && clean.count(op.path)) eintr = true; (void)eintr;
  u64 whole = 0;
  for (auto& c : clean) if (c.second) { whole++; SIM_CHECK(vfs::exists(c.first) && vfs::get(c.first) == want[c.first], o.kind == CRASH ? "crash-lost" : "incomplete", "snapshot %s, all of whose writes succeeded%s, differs from the undisturbed one", c.first.c_str(), o.kind == CRASH ? " before the crash" : ""); }
  // nothing but snapshots of this analysis appears
  for (auto& f : vfs::list()) if (f.size() > 4 && f.compare(f.size() - 4, 4, ".vtk") == 0) SIM_CHECK(want.count(f), "extra", "unexpected snapshot file %s", f.c_str());
  stat("snapshots-compared", whole); if (o.kind == CRASH) stat("crashes");
  // restart on what is left on the disk
  vfs::clearFaults();
  if (chance(1, 2)) {
    AnRun r2; vfs::enable(true); o = attempt([&] { r2.create(a); r2.solve(); r2.destroy(); }); vfs::enable(false);
    SIM_CHECK(o.kind == OK, "restart", "running again after the faults ended with %s %s", kindName(o.kind), o.what.c_str());
    for (auto& w : want) SIM_CHECK(vfs::exists(w.first) && vfs::get(w.first) == w.second, "restart", "running again after the faults leaves %s different from the undisturbed one", w.first.c_str());
    stat("restarts");
  }
  simtime(a.kind == 2 ? a.t1 - a.t0 : 1);
  if (whole && (fired || crash)) nontrivial();
}
Register reg({"C05", run, 4000000, 40000000,
  "a whole analysis with a VTK writer: undisturbed, every snapshot is parsed and each point, cell, type and field compared with an in-process observer and the directory listing with the published states; then under seeded open/write/close faults, full disk, stale files, uninitialised memory patterns and a crash inside any write, every snapshot whose own operations succeeded must be byte-identical and never touched again, and a restart must restore the undisturbed directory; nontrivial: a fault or crash fired and at least one snapshot had been completed",
  "real: all solvers, FEStorage, VtkProcessor, elements, iostreams; simulated: disk, clock, memory contents"});
}
