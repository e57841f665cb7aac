// C04: output, log and clock faults against bit-identical in-memory results.
#include "analysis.h"
using namespace sim;
using namespace mdl;
namespace {
std::string diff(const std::string& a, const std::string& b) {
  size_t la = 0, i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') la++; i++; }
  return fmt("results differ in part %zu (lengths %zu and %zu)", la, a.size(), b.size());
}
void run() {
  setStepBudget(20000000); vfs::reset(); clk::on(1);
  AnOpt ao; AnSpec a = genAnalysis(ao); if (!a.vtk && a.recs.empty()) a.vtk = true, a.vtkName = "res";
  bool log = chance(1, 6);
  std::string base = isolated([&] { std::string d; vfs::enable(true); AnRun r; Outcome o = attempt([&] { r.create(a); r.solve(); }); vfs::enable(false); d = fmt("%llu %llu ", (unsigned long long)vfs::writes(), (unsigned long long)vfs::opens()); return d + (o.kind == OK ? r.digest() : std::string("failed")); });
  char* e; u64 nw = strtoull(base.c_str(), &e, 10), no = strtoull(e, &e, 10); base = e + 1;
  if (base == "failed") { stat("skipped.baseline-failed"); sample("baseline did not converge"); return; }
  // faults
  static const vfs::FaultKind ks[] = {vfs::OPEN_FAIL, vfs::WRITE_EIO, vfs::WRITE_TORN, vfs::DISK_FULL, vfs::WRITE_SHORT, vfs::WRITE_EINTR, vfs::CLOSE_FAIL};
  int nf = range(0, 4); std::string fs; int mode = (int)draw(4);
  if (log) nw += 40;
  for (int i = 0; i < nf; i++) { auto k = ks[draw(7)]; u64 n = k == vfs::OPEN_FAIL || k == vfs::CLOSE_FAIL ? (u64)range(1, (int)no + (log ? 2 : 0)) : (u64)range(1, (int)std::max<u64>(nw, 1)); u64 arg = k == vfs::DISK_FULL ? (chance(1, 2) ? 1000000 : (u64)range(1, 80)) : (u64)range(0, 30); vfs::addFault({k, n, arg, "", false}); fs += fmt(" %s@%llu", vfs::faultName[k], (unsigned long long)n); }
  if (mode == 1) { for (auto& r : a.recs) if (!r.file.empty() && chance(1, 2)) vfs::noWrite(r.file); if (a.vtk && chance(1, 2)) for (int s = 0; s <= a.steps; s++) vfs::noWrite(a.vtkName + fmt("%d.vtk", s)); fs += " read-only files"; stat("fault.read-only-files"); }
  if (mode == 2 && chance(1, 2)) for (auto& r : a.recs) if (!r.file.empty()) { vfs::put(r.file, "stale 1 2 3\nstale"); stat("fault.stale-file"); }
  AnSpec b = a; if (chance(1, 8)) { if (b.vtk) b.vtkName = "no/such/dir/"; for (auto& r : b.recs) if (!r.file.empty() && chance(1, 2)) { r.file = "missing/"; } fs += " bad names"; stat("fault.bad-name"); }
  int cm = range(1, 4); clk::on(cm); if (cm > 1) stat(fmt("fault.clock-mode-%d", cm).c_str());
  static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]);
  AnRun r; vfs::enable(true);
  Outcome o = attempt([&] { if (log) { LogInitializer li; } r.create(b); r.solve(); });
  u64 fired = vfs::firedFaults(); mem::fill(-1);
  std::string desc = a.str() + "; faults:" + (fs.empty() ? " none" : fs) + fmt(", clock mode %d%s", cm, log ? ", log file on" : "");
  sample(desc);
  SIM_CHECK(o.kind == OK, "analysis-stopped", "output or clock faults (%s) ended the analysis with %s %s", fs.c_str(), kindName(o.kind), o.what.c_str());
  std::string d = r.digest();
  SIM_CHECK(d == base, "results-changed", "output or clock faults (%s) changed in-memory results: %s", fs.c_str(), diff(base, d).c_str());
  o = attempt([&] { r.destroy(); }); vfs::enable(false);
  SIM_CHECK(o.kind == OK, "teardown", "destroying the analysis ended with %s", kindName(o.kind));
  stat("faults-fired", fired); simtime(a.kind == 2 ? a.t1 - a.t0 : 1); if (log) stat("runs-with-log-file");
  if (fired || mode == 1) nontrivial();
}
Register reg({"C04", run, 4000000, 40000000,
  "a whole analysis (linear, nonlinear, transient, hyperelastic) with vtk writer, reaction recorders and observers is run undisturbed in an isolated copy and then under seeded open/write/close faults, full disk, read-only and badly named files, failing log file and misbehaving clocks; DoF values, reactions, derivatives, element results and reaction curves of every callback must be bit-identical; nontrivial: at least one output fault fired",
  "real: all solvers, FEStorage, VtkProcessor, ReactionProcessor, elements, easylogging++, iostreams; simulated: disk, clock, memory contents"});
}
