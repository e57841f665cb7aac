// C11: several analyses interleaved and nested in one process.
#include "analysis.h"
#include <climits>
using namespace sim;
using namespace mdl;
namespace {
struct Job { AnSpec a; std::string prefix, base, files; bool nested = false; AnRun* r = nullptr; bool ownEq = false; math::EquationSolver* eq = nullptr; bool done = false; Outcome o; std::string got; };
std::vector<Job>* J; math::EquationSolver* sharedEq; long countdown; int nestedIdx; bool nestedRunning; u64 yields; u64 hooksDuringOther; std::vector<int> active;
std::string filesOf(const std::string& prefix) { std::string s; for (auto& f : vfs::list()) if (f.compare(0, prefix.size(), prefix) == 0) s += f + fmt(" %zu\n", vfs::get(f).size()) + vfs::get(f); return s; }
void body(Job& j, bool destroyLater);
void onHook(const char* w, bool callback) {         // callback: a place where user code runs, which may run another analysis
  Host h; step(); yields++;
  if (nestedIdx >= 0 && !nestedRunning && callback && --countdown <= 0) { int i = nestedIdx; nestedIdx = -1; nestedRunning = true; ev("nested %d at %s", i, w); { Sut s; body((*J)[i], false); } nestedRunning = false; }
  if (nestedRunning) return;             // a nested analysis runs to its end at this point
  sched::yield(w);
}
void onCallback(const char* w) { onHook(w, true); }
void onFile() { onHook("file", false); }
long memCount; int memGap; u64 memYields;
void onMem() { if (--memCount > 0) return; { Host h; memCount = 1 + (long)draw(memGap); memYields++; } onHook("memory", false); }
long pcGap; u64 pcYields;
long pctLeft, pctTotal;
void onPct() { { Host h; ev("demote %d", sched::current()); pcYields++; sched::demote(); } onHook("block", false); if (--pctLeft > 0) { Host h; sched::preempt(1 + (long)draw(pctTotal), onPct); } }
void onPc() { long next; { Host h; next = 1 + (long)draw(++pcYields > 2000 ? 40 * pcGap : chance(1, 2) ? pcGap : 8); } onHook("block", false); sched::preempt(next, onPc); }
void body(Job& j, bool destroyLater) {
  { Host h; j.r = new AnRun; }
  j.o = attempt([&] { j.r->create(j.a, j.eq ? j.eq : j.ownEq ? sharedEq : nullptr); j.r->solve(); });
  Host h; j.got = j.o.kind == OK ? j.r->digest() : std::string("failed"); j.done = true;
  if (!destroyLater && j.o.kind == OK) { Outcome d; { Sut s; d = attempt([&] { j.r->destroy(); }); } SIM_CHECK(d.kind == OK, "teardown", "destroying analysis %s while others run ended with %s", j.prefix.c_str(), kindName(d.kind)); }
}
void run() {
  setStepBudget(30000000); vfs::reset(); clk::on(1); int n = range(2, 4); std::vector<Job> jobs(n); J = &jobs; yields = 0; nestedRunning = false; nestedIdx = -1; std::string desc; long blocks = 0;
  int twins = (int)draw(4), theme = chance(1, 3) ? (int)draw(5) : -1;   // theme: all analyses of one kind, 4: all with rigid bodies
  for (int i = 0; i < n; i++) {
    Job& j = jobs[i]; j.prefix = fmt("job%d_", i); AnOpt o; o.prefix = j.prefix; o.maxNodes = 3; o.maxElems = 3; o.rare = false; if (theme >= 0) { o.kind = theme == 4 ? 1 : theme; o.rigid = theme == 4; }
    if (i && twins == 1) { j.a = jobs[i - 1].a; auto ren = [&](std::string& s) { if (!s.empty()) s = j.prefix + s.substr(jobs[i - 1].prefix.size()); }; ren(j.a.vtkName); for (auto& r : j.a.recs) ren(r.file); }
    else j.a = genAnalysis(o);
    j.a.task = i; j.ownEq = chance(1, 2);
    std::string b = isolated([&] { vfs::enable(true); sched::preempt(LONG_MAX, nullptr); AnRun r; Outcome q = attempt([&] { r.create(j.a, nullptr); r.solve(); }); std::string d = q.kind == OK ? r.digest() : std::string("failed"); vfs::enable(false);
      if (q.kind == OK) { vfs::enable(true); attempt([&] { r.destroy(); }); vfs::enable(false); } return fmt("%ld %zu ", LONG_MAX - sched::blocksLeft(), d.size()) + d + filesOf(j.prefix); });
    char* e; blocks += strtol(b.c_str(), &e, 10); size_t len = strtoull(e, &e, 10); size_t at = e + 1 - b.c_str(); j.base = b.substr(at, len); j.files = b.substr(at + len);
    if (j.base == "failed") { stat("skipped.baseline-failed"); sample("baseline did not converge"); return; }
    desc += (i ? " || " : "") + j.a.str();
  }
  bool pct = chance(1, 4) && blocks > 0;      // few preemptions, long pauses
  int mode = pct ? 0 : (int)draw(3); static HookEq* heq; heq = new HookEq; sharedEq = heq;    // 0: interleaved, 1: nested, 2: both
  bool nest = mode != 0; if (nest) { nestedIdx = n - 1; countdown = 1 + (long)draw(chance(1, 2) ? 40 : 400); }
  static const int fills[] = {-1, 0x00, 0xff, 0x41}; mem::fill(fills[draw(4)]); sched::setPolicy(pct ? 3 : (int)draw(3));
  int spawnN = nest ? n - 1 : n; if (mode == 1) spawnN = 1;
  // with equation solvers of their own the analyses are also interleaved inside library routines (like threads): wherever an array is requested or released
  bool fine = pct || chance(1, 3); memYields = 0; if (fine) { for (auto& j : jobs) j.eq = new HookEq; static const int gaps[] = {3, 30, 300, 3000}; memGap = gaps[draw(4)]; memCount = 1 + (long)draw(memGap); if (!pct) mem::yieldHook(onMem); }
  bool pcs = fine && !pct && chance(1, 2); pcYields = 0; if (pcs) { static const int gaps[] = {100, 600, 3000, 20000}; pcGap = gaps[draw(4)]; }
  hookPoint = onCallback; vfs::yieldHook(onFile); vfs::enable(true); u64 sw0 = sched::switches();
  for (int i = 0; i < spawnN; i++) sched::spawn([&, i] { bool later; { Host h; later = chance(1, 3); } body(jobs[i], later); });
  if (pct) { pctTotal = blocks; pctLeft = range(1, 4); sched::preempt(1 + (long)draw(pctTotal), onPct); }
  if (pcs) sched::preempt(1 + (long)draw(pcGap), onPc);
  sched::run(); sched::preempt(0, nullptr);
  hookPoint = nullptr; vfs::yieldHook(nullptr); mem::yieldHook(nullptr); mem::fill(-1); u64 sw = sched::switches() - sw0;
  sample(desc + fmt("; mode %d, %llu switches, %llu yield points%s", mode, (unsigned long long)sw, (unsigned long long)yields, nest && jobs[n - 1].done ? ", last one nested" : ""));
  int ran = 0;
  for (auto& j : jobs) {
    if (!j.done) continue; ran++;
    SIM_CHECK(j.o.kind == OK, "stopped", "analysis %s ends with %s %s when others run, alone it succeeds", j.prefix.c_str(), kindName(j.o.kind), j.o.what.c_str());
    if (j.got != j.base) { size_t p = 0, line = 0; while (p < j.got.size() && p < j.base.size() && j.got[p] == j.base[p]) { if (j.got[p] == '\n') line++; p++; } violation("results", "results of analysis %s (%s) differ from running alone, first in part %zu", j.prefix.c_str(), j.a.str().c_str(), line); }
  }
  Outcome d = attempt([&] { for (auto& j : jobs) if (j.done && j.r->so) j.r->destroy(); }); SIM_CHECK(d.kind == OK, "teardown", "destroying the analyses ended with %s", kindName(d.kind)); vfs::enable(false);
  for (auto& j : jobs) if (j.done) SIM_CHECK(filesOf(j.prefix) == j.files, "files", "files of analysis %s differ from running alone", j.prefix.c_str());
  stat("analyses", ran); stat("switches", sw); stat("yield-points", yields); if (fine) { stat("interleaved-inside-routines"); stat("yield-points.memory", memYields); if (pct) { stat("long-pauses"); stat("long-pauses.blocks", pcYields); } if (pcs) { stat("preempted-between-blocks"); stat("yield-points.blocks", pcYields); } } if (nest && jobs[n - 1].done) stat("nested"); simtime(ran);
  if (sw > 2 || (nest && jobs[n - 1].done)) nontrivial();
}
Register reg({"C11", run, 4000000, 40000000,
  "2 to 4 whole analyses (linear, nonlinear, transient, hyperelastic; sometimes identical twins) run as tasks that a seeded scheduler switches at element routines, post-processor callbacks, equation solver calls and file operations, in a third of the runs (equation solvers of their own) also at array allocations and at any basic block of library code, like threads; some are nested inside a callback of another one; results, callback sequence and files of each must be bit-identical to an isolated run; nontrivial: more than two task switches or a nested analysis",
  "real: all solvers, FEStorage, post-processors, elements, default equation solver; simulated: task scheduling, disk, clock, memory contents"});
}
