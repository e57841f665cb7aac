// C06: reaction curves and files against an in-process observer, under write faults, crashes and restarts.
#include "analysis.h"
#include <sstream>
using namespace sim;
using namespace mdl;
namespace {
const char* const dofName[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"};
bool printed(double v, double x, double scale) { return v == x || std::fabs(v - x) <= 1.1e-5 * std::fabs(x) + 1e-12 * scale; }
std::vector<int> recDofs(const AnSpec& a, const RecSpec& s) {
  if (!s.autoDofs) return s.dofs;
  std::vector<int> d; for (int t = 0; t < 8; t++) for (auto& f : a.m.fix) if (f.node == s.nodes[0] && f.type == t) { d.push_back(t); break; } return d;
}
// expected curve of a recorder from the observer's snapshots; scale: size of the summands
std::vector<double> curve(AnRun& r, const RecSpec& s, int dof, std::vector<double>& scale) {
  std::vector<double> c; scale.clear();
  for (auto& sn : r.in.snaps) {
    if (sn.type == 'p') { c.push_back(0); scale.push_back(0); } if (sn.type != 's') continue; double v = 0, q = 0;
    for (int n : s.nodes) for (size_t i = 0; i < r.in.ids.size(); i++) if (r.in.ids[i] == DofId{0, n, dof}) { v += sn.R[i]; q += std::fabs(sn.R[i]); }
    c.push_back(v); scale.push_back(q);
  }
  return c;
}
void checkMemory(const AnSpec& a, AnRun& r, const char* when) {
  for (size_t i = 0; i < a.recs.size(); i++) {
    auto dofs = recDofs(a, a.recs[i]);
    SIM_CHECK(r.rec[i]->dofs.size() == dofs.size(), "dofs", "%s: recorder %zu records %zu DoFs, expected %zu", when, i, r.rec[i]->dofs.size(), dofs.size());
    for (int d : dofs) {
      std::vector<double> sc, w = curve(r, a.recs[i], d, sc), g; { Sut s; std::vector<double> t = r.rec[i]->getReactions((Dof::dofType)d); Host h; g = t; }
      SIM_CHECK(g.size() == w.size(), "curve-length", "%s: curve of recorder %zu for %s has %zu values after %zu states", when, i, dofName[d], g.size(), w.size());
      for (size_t k = 0; k < g.size(); k++) SIM_CHECK(std::fabs(g[k] - w[k]) <= 1e-12 * sc[k], "curve-value", "%s: value %zu of the curve of recorder %zu for %s is %.17g, the reactions sum to %.17g", when, k, i, dofName[d], g[k], w[k]);
    }
  }
}
// rows of an undisturbed file checked; returns the pieces (start piece, then one per step)
std::vector<std::string> checkFile(const AnSpec& a, AnRun& r, size_t i, const std::string& text) {
  const RecSpec& s = a.recs[i]; auto dofs = recDofs(a, s); std::vector<std::vector<double>> w, sc(dofs.size()); for (size_t d = 0; d < dofs.size(); d++) w.push_back(curve(r, s, dofs[d], sc[d]));
  size_t steps = 0; for (auto& sn : r.in.snaps) if (sn.type == 's') steps++;
  std::vector<std::string> pieces; size_t p = 0;
  for (size_t row = 0; row < steps + 2; row++) {
    size_t nl = text.find('\n', p); SIM_CHECK(nl != std::string::npos, "file-rows", "%s has only %zu of %zu lines", s.file.c_str(), row, steps + 2);
    std::string line = text.substr(p, nl - p); std::istringstream is(line); std::vector<std::string> t; std::string x; while (is >> x) t.push_back(x);
    if (row == 0) { bool ok = t.size() == dofs.size(); for (size_t d = 0; ok && d < dofs.size(); d++) ok = t[d] == dofName[dofs[d]]; SIM_CHECK(ok, "file-header", "header of %s is '%s'", s.file.c_str(), line.c_str()); }
    else {
      SIM_CHECK(t.size() == dofs.size() + 1 && t[0] == fmt("%zu", row - 1), "file-row", "line %zu of %s is '%s', expected the row of step %zu", row + 1, s.file.c_str(), line.c_str(), row - 1);
      for (size_t d = 0; d < dofs.size(); d++) { char* e; double v = strtod(t[d + 1].c_str(), &e); SIM_CHECK(!*e && printed(v, w[d][row - 1], sc[d][row - 1]), "file-value", "%s: step %zu, %s is %s, in memory %.12g", s.file.c_str(), row - 1, dofName[dofs[d]], t[d + 1].c_str(), w[d][row - 1]); }
    }
    if (row == 1) pieces[0] += text.substr(p, nl + 1 - p); else pieces.push_back(text.substr(p, nl + 1 - p));
    p = nl + 1;
  }
  SIM_CHECK(p == text.size(), "file-tail", "%s has something after the row of the last step", s.file.c_str());
  return pieces;
}
class Mark : public PostProcessor {
public:
  Mark(FEStorage* s, std::vector<int>* d, std::function<void()> f) : PostProcessor(s), done(d), fn(f) { name = "Mark"; }
  void pre() override { mark(0); } void process(uint16 s) override { mark(s); } void post(uint16) override {}
  void mark(int s) { Host h; done->push_back(s); vfs::setStamp((int)done->size()); fn(); }
  std::vector<int>* done; std::function<void()> fn;
};
// text == initial + piece_0 + ... where a clean piece appears exactly and a disturbed one as any sequence of prefixes of its
// remaining lines (iostreams offer unwritten bytes again when the file is closed)
bool matches(const std::string& text, const std::string& initial, const std::vector<std::string>& piece, const std::vector<char>& clean) {
  if (text.compare(0, initial.size(), initial) != 0) return false;
  std::set<size_t> pos = {initial.size()};
  for (size_t k = 0; k < piece.size(); k++) {
    std::set<size_t> nx;
    if (clean[k]) { for (size_t p : pos) if (text.compare(p, piece[k].size(), piece[k]) == 0) nx.insert(p + piece[k].size()); }
    else { nx = pos; std::vector<size_t> work(pos.begin(), pos.end()); while (!work.empty()) { size_t p = work.back(); work.pop_back(); for (size_t b = 0; b < piece[k].size(); b++) if (b == 0 || piece[k][b - 1] == '\n') for (size_t l = 1; b + l <= piece[k].size() && p + l <= text.size() && text[p + l - 1] == piece[k][b + l - 1]; l++) if (nx.insert(p + l).second) work.push_back(p + l); } }
    pos.swap(nx); if (pos.empty()) return false;
  }
  return pos.count(text.size()) > 0;
}
std::string shown(std::string s) { std::string o; for (char c : s.substr(0, 200)) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; } return o; }
void run() {
  setStepBudget(20000000); vfs::reset(); clk::on(1);
  AnOpt ao; AnSpec a = genAnalysis(ao); a.nObs = 1; a.ppOrder = 0;
  if (a.kind == 1 || a.kind == 2) if (a.steps < 9 && chance(1, 8)) a.steps = range(9, 12);
  if (a.recs.empty()) { RecSpec r; r.file = "reac0.txt"; for (auto& d : a.m.dofs()) if (!d.e) { r.nodes = {d.ent}; r.dofs = {d.type}; break; } a.recs.push_back(r); }
  for (auto& r : a.recs) {
    if (r.autoDofs && chance(1, 2)) {      // more nodes constrained in the same DoFs
      auto d = recDofs(a, r); for (size_t n = 0; n < a.m.pos.size(); n++) { bool all = (int)n != r.nodes[0]; for (int t : d) { bool h = false; for (auto& f : a.m.fix) h |= f.node == (int)n && f.type == t; all = all && h; } if (all) r.nodes.push_back((int)n); } }
    if (chance(1, 12)) { r.nodes.clear(); r.dofs = {Dof::UX}; r.autoDofs = false; }
  }
  if (!a.m.fix.empty() && chance(1, 20)) {   // DoFs chosen automatically, but not all nodes are held like the first one
    auto held = [&](int n) { std::set<int> s; for (auto& f : a.m.fix) if (f.node == n) s.insert(f.type); return s; };
    RecSpec& r = a.recs[0]; r.autoDofs = true; r.dofs.clear(); r.nodes = {a.m.fix[draw(a.m.fix.size())].node}; auto h0 = held(r.nodes[0]); std::vector<int> bad, good;
    for (size_t n = 0; n < a.m.pos.size(); n++) if ((int)n != r.nodes[0]) { auto h = held((int)n); (std::includes(h.begin(), h.end(), h0.begin(), h0.end()) ? good : bad).push_back((int)n); }
    if (bad.empty()) { sample("all nodes held alike"); return; }
    r.nodes.insert(r.nodes.end(), good.begin(), good.end()); r.nodes.insert(r.nodes.begin() + 1 + draw(r.nodes.size()), bad[draw(bad.size())]);
    AnRun q; vfs::enable(true); Outcome o = attempt([&] { q.create(a); q.solve(); }); vfs::enable(false); stat("fault.nodes-held-differently"); sample(a.str() + "; nodes of the recorder are not held alike");
    SIM_CHECK(o.loud(), "mixed-nodes", "a recorder that has to choose the DoFs of nodes held differently ends with %s", kindName(o.kind)); return;
  }
  bool again = a.steps < 20 && chance(1, 3);
  std::string base = isolated([&] {
    vfs::enable(true); AnRun r; std::vector<int> done; Outcome o = attempt([&] { r.create(a); r.so->addPostProcessor(new Mark(r.st, &done, [&] { checkMemory(a, r, "during the analysis"); })); r.solve(); }); vfs::enable(false);
    if (o.kind != OK) return std::string();
    checkMemory(a, r, "after the analysis");
    std::string out = fmt("%llu %llu ", (unsigned long long)vfs::writes(), (unsigned long long)vfs::opens());
    for (size_t i = 0; i < a.recs.size(); i++) if (!a.recs[i].file.empty()) {
      SIM_CHECK(vfs::exists(a.recs[i].file), "file-missing", "%s was not written", a.recs[i].file.c_str());
      auto p = checkFile(a, r, i, vfs::get(a.recs[i].file)); out += fmt("%zu ", p.size()); for (auto& x : p) out += fmt("%zu ", x.size()) + x;
    }
    if (again) {       // the same solver and recorders once more: curves and files start anew
      r.in.snaps.clear(); r.full->res.clear(); vfs::enable(true); o = attempt([&] { r.solve(); }); vfs::enable(false);
      SIM_CHECK(o.kind == OK, "again", "solving a second time ended with %s %s", kindName(o.kind), o.what.c_str());
      checkMemory(a, r, "after a second solution"); for (size_t i = 0; i < a.recs.size(); i++) if (!a.recs[i].file.empty()) checkFile(a, r, i, vfs::get(a.recs[i].file));
    }
    return out; });
  if (base.empty()) { stat("skipped.baseline-failed"); sample("baseline did not converge"); return; }
  if (again) stat("second-solves");
  std::vector<std::vector<std::string>> want(a.recs.size()); u64 nw, no;
  { char* e; nw = strtoull(base.c_str(), &e, 10); no = strtoull(e, &e, 10); e++; for (size_t i = 0; i < a.recs.size(); i++) if (!a.recs[i].file.empty()) { size_t n = strtoull(e, &e, 10); e++; for (size_t k = 0; k < n; k++) { size_t l = strtoull(e, &e, 10); e++; want[i].push_back(std::string(e, l)); e += l; } } }
  // disturbed
  std::map<std::string, std::string> stale;
  for (auto& r : a.recs) if (!r.file.empty() && chance(1, 4)) { stale[r.file] = chance(1, 2) ? "old\n0\t0\n1\t5\n2\t7\n" : "torn 1 2"; vfs::put(r.file, stale[r.file]); stat("fault.stale-file"); }
  static const vfs::FaultKind ks[] = {vfs::WRITE_EIO, vfs::OPEN_FAIL, vfs::WRITE_TORN, vfs::DISK_FULL, vfs::WRITE_SHORT, vfs::WRITE_EINTR, vfs::CLOSE_FAIL};
  bool crash = chance(1, 2); std::string fs; int nf = range(0, crash ? 2 : 4);
  for (int i = 0; i < nf + (crash ? 1 : 0); i++) {
    auto k = i == nf ? vfs::CRASH_AT : ks[draw(7)]; std::string path; const RecSpec& r = a.recs[draw(a.recs.size())]; u64 hiW = nw, hiO = no; if (!r.file.empty() && chance(3, 4)) { path = r.file; hiW = 2 * a.steps + 3; hiO = a.steps + 1; }
    u64 n = k == vfs::OPEN_FAIL || k == vfs::CLOSE_FAIL ? (u64)range(1, (int)std::max<u64>(hiO, 1)) : (u64)range(1, (int)std::max<u64>(hiW, 1)); u64 arg = k == vfs::DISK_FULL ? (chance(1, 3) ? 1000000 : (u64)range(1, 6)) : (u64)range(0, 30);
    vfs::addFault({k, n, arg, path, false}); fs += fmt(" %s@%llu+%llu%s%s", vfs::faultName[k], (unsigned long long)n, (unsigned long long)arg, path.empty() ? "" : ":", path.c_str()); }
  std::vector<int> done; AnRun r; vfs::enable(true);
  Outcome o = attempt([&] { r.create(a); r.so->addPostProcessor(new Mark(r.st, &done, [&] { checkMemory(a, r, "under faults"); })); vfs::setStamp(0); r.solve(); });
  vfs::enable(false); u64 fired = vfs::firedFaults();
  sample(a.str() + "; faults:" + (fs.empty() ? " none" : fs));
  SIM_CHECK(o.kind == OK || o.kind == CRASH, "stopped", "disk faults (%s) ended the analysis with %s %s", fs.c_str(), kindName(o.kind), o.what.c_str());
  if (o.kind == OK) checkMemory(a, r, "after an analysis with output faults");
  u64 rows = 0;
  for (size_t i = 0; i < a.recs.size(); i++) {
    const std::string& f = a.recs[i].file; if (f.empty()) continue;
    std::vector<char> clean(want[i].size(), 1); bool opened = false, created = false;
    for (auto& op : vfs::history()) if (op.path == f) {
      if (op.type == 'o' && op.ok && op.len == 2) opened = true; if (op.type == 'o' && op.ok) created = true;
      if (!op.ok && op.type != 'c' && op.type != 'r') if (op.stamp >= 0 && op.stamp < (int)clean.size()) clean[op.stamp] = 0;
    }
    // what the crash left undone
    std::vector<std::string> pieces = want[i]; size_t complete = done.size();
    if (o.kind == CRASH && complete < pieces.size()) { pieces.resize(complete + 1); clean.resize(complete + 1); clean[complete] = 0; }
    std::string init = opened ? "" : (stale.count(f) ? stale[f] : "");
    std::string text = vfs::exists(f) ? vfs::get(f) : "";
    SIM_CHECK(created || stale.count(f) || !vfs::exists(f), "file", "%s exists although it was never opened", f.c_str());
    SIM_CHECK(matches(text, init, pieces, clean), o.kind == CRASH ? "crash-history" : "fault-history", "%s after faults (%s) at step %zu holds '%s', undisturbed rows '%s'", f.c_str(), fs.c_str(), complete, shown(text).c_str(), [&] { std::string s; for (auto& p : want[i]) s += p; return shown(s); }().c_str());
    for (size_t k = 0; k < clean.size(); k++) if (clean[k]) rows++;
  }
  stat("rows-compared", rows); if (o.kind == CRASH) stat("crashes");
  vfs::clearFaults();
  if (chance(1, 2)) {
    AnRun r2; vfs::enable(true); o = attempt([&] { r2.create(a); r2.solve(); }); vfs::enable(false);
    SIM_CHECK(o.kind == OK, "restart", "running again after the faults ended with %s %s", kindName(o.kind), o.what.c_str());
    checkMemory(a, r2, "after a restart");
    for (size_t i = 0; i < a.recs.size(); i++) if (!a.recs[i].file.empty()) { std::string w; for (auto& p : want[i]) w += p; SIM_CHECK(vfs::get(a.recs[i].file) == w, "restart", "running again after the faults leaves %s different from the undisturbed one", a.recs[i].file.c_str()); }
    stat("restarts");
  }
  simtime(a.kind == 2 ? a.t1 - a.t0 : 1);
  if (rows && (fired || crash)) nontrivial();
}
Register reg({"C06", run, 4000000, 40000000,
  "a whole analysis with one or two reaction recorders (chosen or automatic DoFs, with or without file): curves are compared with the sums of the reactions an observer saw after every state, files row by row; then under seeded open/write/close faults, full disk, stale files and a crash inside any write the file must be the concatenation of the undisturbed rows, each row whose own operations succeeded exactly once and in order; a restart must restore the undisturbed file; nontrivial: a fault or crash fired and at least one row had to survive",
  "real: all solvers, FEStorage, ReactionProcessor, VtkProcessor, elements, iostreams; simulated: disk, clock"});
}
