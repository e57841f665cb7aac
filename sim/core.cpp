#include "core.h"
#include "vfs.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <new>
#include <set>
#include <sstream>
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "easylogging++.h"

extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_get_report_description();
extern "C" int __asan_report_present();
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:symbolize=0:print_legend=0:"
         "max_malloc_fill_size=0:quarantine_size_mb=16:malloc_context_size=2";
}

namespace sim {

bool verbose = false;
static std::string g_tier = "quick";
const std::string& tier() { return g_tier; }

std::vector<Property>& properties() { static std::vector<Property> p; return p; }

// ------------------------------------------------------------------ result shared with the parent
static const u32 MAXTAPE = 60000;
struct Result {
  int status;                // 0 running, 1 ok, 2 violation
  char cls[96];
  char msg[1600];
  u64 hash, nev, steps;
  u32 nontriv;
  u32 tapeLen;
  u32 tape[MAXTAPE];
  u32 nstats;
  struct { char name[44]; u64 v; } stats[160];
  char sample[1400];
  double simtime;
  u32 known;
  char knownCls[8][96];
};
static Result* R = nullptr;
static bool g_inRun = false;

// ------------------------------------------------------------------ choices
static u64 g_rng[2];
static u64 splitmix(u64& x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void seedRng(u64 s) { g_rng[0] = splitmix(s); g_rng[1] = splitmix(s) | 1; }
static u64 nextRng() { u64 s1 = g_rng[0]; const u64 s0 = g_rng[1]; g_rng[0] = s0; s1 ^= s1 << 23; g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return g_rng[1] + s0; }
static bool g_replay = false;
static std::vector<u32>* g_tapeIn = nullptr;

u64 draw(u64 n) {
  if (n <= 1) return 0;
  if (n > 0xFFFFFFFFull) n = 0xFFFFFFFFull;
  u32 i = R->tapeLen;
  u64 v;
  if (g_replay) v = i < g_tapeIn->size() ? std::min<u64>((*g_tapeIn)[i], n - 1) : 0;
  else v = nextRng() % n;
  if (i < MAXTAPE) R->tape[R->tapeLen++] = (u32)v;
  else if (!g_replay) v = 0;
  return v;
}
bool chance(u32 num, u32 den) { return draw(den) >= den - num; }
int range(int lo, int hi) { return lo + (int)draw((u64)(hi - lo) + 1); }
double real(double lo, double hi, u32 st) { return lo + (hi - lo) * (double)draw(st + 1) / st; }

// ------------------------------------------------------------------ events
void hashBytes(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  u64 h = R->hash;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  R->hash = h;
}
std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
static void rawErr(const char* s, size_t n);
void ev(const char* f, ...) {
  char b[1024]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
  if (n < 0) n = 0; if (n >= (int)sizeof b) n = sizeof b - 1;
  hashBytes(b, n); R->nev++;
  if (verbose) { rawErr(b, n); rawErr("\n", 1); }
}
void stat(const char* name, u64 v) {
  for (u32 i = 0; i < R->nstats; i++) if (!strcmp(R->stats[i].name, name)) { R->stats[i].v += v; return; }
  if (R->nstats < 160) { snprintf(R->stats[R->nstats].name, 44, "%s", name); R->stats[R->nstats++].v = v; }
}
void nontrivial() { R->nontriv = 1; }
void sample(const std::string& s) { snprintf(R->sample, sizeof R->sample, "%s", s.c_str()); }
void simtime(double s) { R->simtime += s; }
static u64 g_budget = 0;
void setStepBudget(u64 n) { g_budget = n ? R->steps + n : 0; }
u64 steps() { return R->steps; }
void step() {
  R->steps++;
  if (g_budget && R->steps > g_budget) {
    g_budget = 0;
    violation("no-progress", "step budget exhausted: the code under test keeps running without finishing");
  }
}

// ------------------------------------------------------------------ verdict
void finishOk() { if (R->status == 0) R->status = 1; _exit(0); }
static std::vector<std::pair<std::string, std::string>> g_known;   // (property, class) listed findings
static std::string g_curProp;
bool knownFinding(const char* cls) {
  for (auto& k : g_known) if (k.first == g_curProp && k.second == cls) {
    bool seen = false;
    for (u32 i = 0; i < R->known; i++) if (!strcmp(R->knownCls[i], cls)) seen = true;
    if (!seen && R->known < 8) snprintf(R->knownCls[R->known++], 96, "%s", cls);
    return true;
  }
  return false;
}
void violation(const char* cls, const char* f, ...) {
  if (R->status == 0) {
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list a; va_start(a, f); vsnprintf(R->msg, sizeof R->msg, f, a); va_end(a);
    R->status = 2;
    if (verbose) { rawErr("VIOLATION ", 10); rawErr(R->cls, strlen(R->cls)); rawErr(": ", 2); rawErr(R->msg, strlen(R->msg)); rawErr("\n", 1); }
  }
  _exit(0);
}
static void onDeath() {
  if (!g_inRun || !R || R->status != 0) return;
  const char* d = __asan_report_present() ? __asan_get_report_description() : "sanitizer";
  snprintf(R->cls, sizeof R->cls, "memory-error:%s", d ? d : "?");
  snprintf(R->msg, sizeof R->msg, "invalid memory access in code under test (%s)", d ? d : "?");
  R->status = 2;
}

// ------------------------------------------------------------------ attempts
struct Att { sigjmp_buf jb; volatile int kind; volatile int code; Att* prev; };
static Att* g_att = nullptr;
static volatile int g_sut = 0;
bool inAttempt() { return g_att != nullptr; }
bool inSut() { return g_sut > 0; }
Host::Host() : saved(g_sut) { g_sut = 0; }
Host::~Host() { g_sut = saved; }
Sut::Sut() : saved(g_sut) { g_sut = 1; }
Sut::~Sut() { g_sut = saved; }
const char* kindName(Kind k) { static const char* n[] = {"ok", "exception", "abort", "exit", "crash"}; return n[k]; }

static void onAbort(int) {
  if (g_att) { g_att->kind = ABORT; siglongjmp(g_att->jb, 1); }
  if (R && g_inRun && R->status == 0) {
    snprintf(R->cls, sizeof R->cls, "unexpected-abort");
    snprintf(R->msg, sizeof R->msg, "the code under test aborted where it must not");
    R->status = 2;
  }
  _exit(0);
}
void crashNow() { if (g_att) { g_att->kind = CRASH; siglongjmp(g_att->jb, 1); } violation("harness", "crash outside attempt"); }
void* saveTaskGlobals() { return g_att; }
void loadTaskGlobals(void* a, int s) { g_att = (Att*)a; g_sut = s; }
int sutFlag() { return g_sut; }

// The logging library swallows allocation failures of its own dispatch, together with the abort of a
// fatal message. It is part of the environment: no allocation fails inside it.
static int g_log = 0;
extern "C" long sim_noSwitch;                    // fiber.cpp
extern "C" void __real__ZN2el4base6Writer15processDispatchEv(void*);
extern "C" void __wrap__ZN2el4base6Writer15processDispatchEv(void* w) { struct In { In() { g_log++; } ~In() { g_log--; sim_noSwitch--; } } in; __real__ZN2el4base6Writer15processDispatchEv(w); }
Outcome attempt(const std::function<void()>& f) {
  Outcome o;
  Att a; a.kind = OK; a.code = 0; a.prev = g_att;
  int savedSut = g_sut, savedLog = g_log; long savedNoSwitch = sim_noSwitch;
  if (sigsetjmp(a.jb, 1) == 0) {
    g_att = &a;
    try {
      Sut s;
      f();
    } catch (const std::exception& e) {
      g_sut = 0; a.kind = EXC; o.what = e.what();
    } catch (...) { g_sut = 0; a.kind = EXC; o.what = "?"; }
  }
  g_att = a.prev; g_sut = savedSut; g_log = savedLog; sim_noSwitch = savedNoSwitch;
  o.kind = (Kind)a.kind; o.code = a.code;
  ev("attempt -> %s %d", kindName(o.kind), o.code);
  return o;
}

std::string isolated(const std::function<std::string()>& f) {
  Host hg;
  int fd = memfd_create("iso", 0);
  fflush(nullptr);
  Result* mine = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mine->status = 0; mine->hash = 1; mine->tapeLen = R->tapeLen;
  pid_t pid = fork();
  if (pid == 0) {
    R = mine; g_att = nullptr;
    std::string s = f();
    g_sut = 0; g_inRun = false;
    size_t o = 0; while (o < s.size()) { ssize_t w = ::syscall(1, fd, s.data() + o, s.size() - o); if (w <= 0) break; o += w; }
    R->status = 1;
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (mine->status == 2) violation(mine->cls, "%s", mine->msg);
  if (mine->status == 0) {
    if (WIFSIGNALED(st)) violation(fmt("signal-%d", WTERMSIG(st)).c_str(), "undisturbed reference run killed by signal %d", WTERMSIG(st));
    violation("reference-run-ended", "the undisturbed reference run ended unexpectedly (status %d)", st);
  }
  u64 n = ::lseek(fd, 0, SEEK_END); std::string out(n, 0); if (::pread(fd, &out[0], n, 0) != (ssize_t)n) violation("harness", "isolated read"); ::close(fd);
  munmap(mine, sizeof(Result));
  hashBytes(out.data(), out.size());
  return out;
}

// ------------------------------------------------------------------ allocator
namespace mem {
static int g_fill = -1; static u64 g_cnt = 0, g_failAt = 0, g_live = 0; static bool g_forever = false, g_fired = false;
void fill(int p) { g_fill = p; }
void failAt(u64 n, bool forever) { g_failAt = n ? g_cnt + n : 0; g_forever = forever; g_fired = false; }
u64 count() { return g_cnt; }
void resetCount() { g_cnt = 0; }
u64 liveBlocks() { return g_live; }
bool fired() { return g_fired; }
static void (*g_yield)() = nullptr;
void yieldHook(void (*f)()) { g_yield = f; }
static inline void yieldPoint() { if (g_yield && g_inRun && g_sut > 0) g_yield(); }
// replay only: which blocks are alive (diagnosis of leaks)
static std::map<void*, u64>* g_liveSet = nullptr; static u64 g_seq = 0, g_mark = 0;
extern "C" size_t __asan_get_alloc_stack(void* addr, void** trace, size_t size, int* thread_id);
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t size);
void mark() { g_mark = g_seq; }
void dumpSinceMark() {
  if (!verbose || !g_liveSet) return; Host hh;
  for (auto& x : *g_liveSet) if (x.second > g_mark) {
    void* tr[24]; int tid; size_t k = __asan_get_alloc_stack((char*)x.first - 16, tr, 24, &tid); fprintf(stderr, "live block %p:\n", x.first);
    for (size_t i = 0; i < k; i++) { char b[300]; __sanitizer_symbolize_pc(tr[i], "    %f %S", b, sizeof b); fprintf(stderr, "%s\n", b); }
  }
}
struct Hdr { u64 magic; u64 size; };
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" int __asan_address_is_poisoned(void const volatile*);
static const u64 MS = 0x5157414c4c4f4353ull, MH = 0x484f5354414c4c4full;
static void* get(size_t n, bool nothrow, bool& fail) {
  fail = false;
  bool s = g_inRun && g_sut > 0;
  if (s && g_log) step();
  else if (s) {
    g_cnt++;
    if ((R->steps & 1023) == 0) {}
    step();
    if (g_failAt && (g_cnt == g_failAt || (g_forever && g_cnt > g_failAt))) { g_fired = true; fail = true; return nullptr; }
    if (n > (size_t)1 << 31) { fail = true; return nullptr; }
  }
  Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
  if (!h) { fail = true; return nullptr; }
  h->magic = s ? MS : MH; h->size = n;
  if (s) g_live++;
  if (g_fill >= 0 && s) memset(h + 1, g_fill, n);
  if (s && verbose) { Host hh; if (!g_liveSet) g_liveSet = new std::map<void*, u64>; (*g_liveSet)[h + 1] = ++g_seq; }
  __asan_poison_memory_region(h, sizeof(Hdr));     // keeps the left red zone effective
  return h + 1;
}
// heap-freed shadow: ASan marks every byte of a freed chunk; a live block has its first byte (or, for
// an empty block, nothing) addressable
__attribute__((no_sanitize_address)) static bool h_size0_freed(void* p) {
  Hdr* h = (Hdr*)p - 1;
  if (!__asan_address_is_poisoned(p)) return false;
  // either an empty live block or a freed one: look at the user-poisoned header's shadow value
  unsigned char sh = *(unsigned char*)(((uintptr_t)h >> 3) + 0x7fff8000ull);
  return sh != 0xf7;
}
static void put(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  // a block freed before keeps its (quarantined) state and free() reports the double free
  if (h_size0_freed(p)) { free(h); return; }
  __asan_unpoison_memory_region(h, sizeof(Hdr));
  if (h->magic == MS) { g_live--; if (g_liveSet) { Host hh; g_liveSet->erase(p); } }
  h->magic = 0;
  free(h);
}
}  // namespace mem
}  // namespace sim

void* operator new(size_t n) { bool f; void* p = sim::mem::get(n, false, f); if (f) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { sim::mem::yieldPoint(); bool f; void* p = sim::mem::get(n, false, f); if (f) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { bool f; return sim::mem::get(n, true, f); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool f; return sim::mem::get(n, true, f); }
void operator delete(void* p) noexcept { sim::mem::put(p); }
void operator delete[](void* p) noexcept { sim::mem::put(p); sim::mem::yieldPoint(); }
void operator delete(void* p, size_t) noexcept { sim::mem::put(p); }
void operator delete[](void* p, size_t) noexcept { sim::mem::put(p); sim::mem::yieldPoint(); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::mem::put(p); }

// out-of-range access to a standard container: undefined behaviour in the shipped build
namespace std {
void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept {
  const char* b = file ? strrchr(file, '/') : nullptr;
  (void)line; (void)func;
  ::sim::violation("memory-error:container", "out-of-range container access (%s: %s)", b ? b + 1 : "?", cond ? cond : "?");
}
}

extern "C" void exit(int code) {
  if (sim::g_inRun && sim::g_att) { sim::g_att->kind = sim::EXIT; sim::g_att->code = code; siglongjmp(sim::g_att->jb, 1); }
  if (sim::g_inRun) sim::violation("unexpected-exit", "exit(%d) called by code under test", code);
  fflush(nullptr);
  _exit(code);
}

// ------------------------------------------------------------------ clock
namespace sim { namespace clk {
static int g_mode = 0; static u64 g_now = 1700000000ull * 1000000000ull, g_reads = 0, g_x = 12345;
void on(int m) { g_mode = m; g_now = 1700000000ull * 1000000000ull; g_reads = 0; g_x = 12345 + m; }
u64 reads() { return g_reads; }
static u64 tick() {
  g_reads++;
  g_x = g_x * 6364136223846793005ull + 1442695040888963407ull;
  u64 r = g_x >> 40;
  switch (g_mode) {
    case 2: g_now += (r % 1000) * 1000000000ull; break;                    // runs fast, jumps forward
    case 3: if (r & 1) g_now -= (r % 5000) * 1000000000ull; else g_now += 1000; break;   // jumps backwards
    case 4: break;                                                          // stopped
    default: g_now += 1000;
  }
  return g_now;
}
}}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  REAL(int, clock_gettime, clockid_t, struct timespec*);
  if (!sim::g_inRun || !sim::clk::g_mode) return real(c, t);
  sim::u64 n = sim::clk::tick(); t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
extern "C" int gettimeofday(struct timeval* t, void* z) noexcept {
  REAL(int, gettimeofday, struct timeval*, void*);
  if (!sim::g_inRun || !sim::clk::g_mode) return real(t, z);
  sim::u64 n = sim::clk::tick(); t->tv_sec = n / 1000000000ull; t->tv_usec = (n % 1000000000ull) / 1000; return 0;
}
extern "C" time_t time(time_t* p) noexcept {
  REAL(time_t, time, time_t*);
  if (!sim::g_inRun || !sim::clk::g_mode) return real(p);
  time_t v = sim::clk::tick() / 1000000000ull; if (p) *p = v; return v;
}
extern "C" clock_t clock(void) noexcept {
  typedef clock_t (*F)(void); static F real = (F)dlsym(RTLD_NEXT, "clock");
  if (!sim::g_inRun || !sim::clk::g_mode) return real();
  return sim::clk::tick() / 1000;
}

// ------------------------------------------------------------------ driver
namespace sim {
static int g_errfd = 2;
static void rawErr(const char* s, size_t n) { ssize_t r = ::syscall(1 /*write*/, g_errfd, s, n); (void)r; }

struct RunOut { int status; std::string cls, msg; u64 hash; std::vector<u32> tape; };

static int g_capfd = -1;
static void childRun(const Property& p) {
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  struct rlimit cpu = {40, 45}; setrlimit(RLIMIT_CPU, &cpu);
  if (!verbose) {
    int fd = g_capfd; dup2(fd, 1); dup2(fd, 2); g_errfd = 2;
  }
  signal(SIGABRT, onAbort);
  g_curProp = p.id;
  g_inRun = true;
  p.run();
  finishOk();
}
static Result* newResult() {
  void* m = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (Result*)m;
}
static void resetResult() {
  R->status = 0; R->cls[0] = R->msg[0] = R->sample[0] = 0; R->hash = 1469598103934665603ull; R->nev = R->steps = 0;
  R->nontriv = 0; R->tapeLen = 0; R->nstats = 0; R->simtime = 0; R->known = 0;
}
// one run in a forked child; tape == nullptr: fresh choices from seed
static RunOut oneRun(const Property& p, u64 seed, std::vector<u32>* tape) {
  resetResult();
  g_replay = tape != nullptr; g_tapeIn = tape; seedRng(seed);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) { childRun(p); _exit(0); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == 0) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
      snprintf(R->cls, sizeof R->cls, "hang"); snprintf(R->msg, sizeof R->msg, "no end after 40 s of CPU time");
      R->hash = 0;
    } else if (WIFSIGNALED(st)) {
      snprintf(R->cls, sizeof R->cls, "signal-%d", WTERMSIG(st)); snprintf(R->msg, sizeof R->msg, "killed by signal %d", WTERMSIG(st));
    } else {
      snprintf(R->cls, sizeof R->cls, "unexpected-exit"); snprintf(R->msg, sizeof R->msg, "process ended with status %d", WEXITSTATUS(st));
    }
    R->status = 2;
  }
  RunOut o; o.status = R->status; o.cls = R->cls; o.msg = R->msg; o.hash = R->hash;
  if (o.status == 2) o.tape.assign(R->tape, R->tape + R->tapeLen);
  return o;
}

static double now() { static auto t0 = std::chrono::steady_clock::now(); return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

static std::vector<u32> minimise(const Property& p, std::vector<u32> t, const std::string& cls, double secs) {
  double end = now() + secs;
  auto bad = [&](std::vector<u32>& c) { RunOut o = oneRun(p, 0, &c); if (o.status == 2 && o.cls == cls) { c = o.tape; return true; } return false; };
  auto trim = [](std::vector<u32>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
  trim(t);
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t w = std::max<size_t>(1, t.size() / 2); w >= 1 && now() < end; w /= 2) {   // delete blocks
      for (size_t i = 0; i + w <= t.size() && now() < end;) {
        std::vector<u32> c(t); c.erase(c.begin() + i, c.begin() + i + w);
        size_t was = t.size();
        if (bad(c)) { trim(c); if (c.size() < was) { t = c; progress = true; continue; } }
        i += w;
      }
      if (w == 1) break;
    }
    for (size_t w = std::max<size_t>(1, t.size() / 2); w >= 1 && now() < end; w /= 2) {   // zero blocks
      for (size_t i = 0; i + w <= t.size() && now() < end; i += w) {
        bool any = false; for (size_t k = i; k < i + w; k++) any |= t[k] != 0;
        if (!any) continue;
        std::vector<u32> c(t); std::fill(c.begin() + i, c.begin() + i + w, 0);
        if (bad(c)) { trim(c); if (c.size() <= t.size()) { t = c; progress = true; } }
      }
      if (w == 1) break;
    }
    for (size_t i = 0; i < t.size() && now() < end; i++) {                                // lower values
      u32 lo = 0, hi = t[i];
      while (hi > lo + 1 && now() < end) {
        u32 m = lo + (hi - lo) / 2; std::vector<u32> c(t); c[i] = m;
        if (bad(c) && c.size() <= t.size() + 4 && i < c.size() && c[i] == m) { trim(c); t = c; hi = m; progress = true; if (i >= t.size()) break; }
        else lo = m;
      }
    }
  }
  return t;
}

static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}

static void writeReplay(const std::string& path, const std::string& prop, const std::string& cls, const std::string& msg, u64 hash, u64 seed, const std::vector<u32>& t) {
  std::ofstream f(path);
  f << "nla3d-sim-replay 1\nproperty " << prop << "\nseed " << seed << "\nclass " << cls << "\nhash " << std::hex << hash << std::dec << "\ntape " << t.size();
  for (auto v : t) f << ' ' << v;
  f << "\n# " << msg << "\n";
}

static const Property* findProp(const std::string& id) { for (auto& p : properties()) if (id == p.id) return &p; return nullptr; }

static int doReplay(const std::string& path, bool quiet) {
  std::ifstream f(path); std::string w, prop, cls; u64 hash = 0; size_t n = 0; std::vector<u32> t; u64 seed;
  f >> w >> w; f >> w >> prop >> w >> seed >> w; std::getline(f, cls); cls = cls.substr(1); f >> w >> std::hex >> hash >> std::dec >> w >> n;
  for (size_t i = 0; i < n; i++) { u32 v; f >> v; t.push_back(v); }
  const Property* p = findProp(prop);
  if (!f || !p) { fprintf(stderr, "bad replay file\n"); return 2; }
  verbose = !quiet;
  RunOut o = oneRun(*p, 0, &t);
  if (!quiet) printf("replay %s: %s %s\n%s\nsample: %s\n", prop.c_str(), o.status == 2 ? "violation" : "no violation", o.cls.c_str(), o.msg.c_str(), R->sample);
  if (o.status != 2) return 0;
  return (o.cls == cls && (o.hash == hash || cls == "hang")) ? 1 : 2;
}

struct Shared {
  std::atomic<u64> next, runs, nontriv, distinct, distinctNon, events, steps, dchecks, dfail, stop;
  std::atomic<u64> viol;
  u64 simtimeMicro;   // per worker accumulated via atomics below
  std::atomic<u64> simMicro;
  struct { char name[44]; u64 v; } st[8][200]; u32 nst[8];
  struct V { u64 idx, hash; char cls[96]; char msg[1600]; u32 n; u32 tape[MAXTAPE]; } v[8];
  std::atomic<u32> nv;
  char samples[8][2][1400];
  char known[8][8][96]; u32 nknown[8]; u64 knownRuns[8];
  std::atomic<u64> table[1 << 21];
};
static bool insertHash(Shared* s, u64 h) {
  if (h == 0) h = 1;
  u64 m = (1 << 21) - 1;
  for (u64 i = h & m, k = 0; k < 64; k++, i = (i + 1) & m) {
    u64 e = s->table[i].load();
    if (e == h) return false;
    if (e == 0) { u64 z = 0; if (s->table[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
  }
  return false;
}

static int doRun(int argc, char** argv) {
  std::string id, evidence, replayDir = "replays", self; u64 seed = 1, runs = 0; double secs = 60; int jobs = 8; u64 only = ~0ull;
  std::string knownFile;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") id = v; else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "--runs") runs = strtoull(v.c_str(), 0, 10);
    else if (k == "--secs") secs = atof(v.c_str()); else if (k == "--jobs") jobs = atoi(v.c_str()); else if (k == "--evidence") evidence = v;
    else if (k == "--replays") replayDir = v; else if (k == "--tier") g_tier = v; else if (k == "--index") only = strtoull(v.c_str(), 0, 10);
    else if (k == "--known") knownFile = v;
  }
  const Property* pp = findProp(id);
  if (!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
  const Property p = *pp;
  if (jobs > 8) jobs = 8;
  if (!runs) runs = g_tier == "thorough" ? p.thoroughRuns : p.quickRuns;
  std::map<std::string, std::string> knownText;
  if (!knownFile.empty()) {   // lines: <status> <property> <class> <text...>
    std::ifstream f(knownFile); std::string line;
    while (std::getline(f, line)) {
      std::istringstream s(line); std::string st, pr, c; s >> st >> pr >> c; std::string rest; std::getline(s, rest);
      if (st == "known:" && pr == "property=" + id && c.compare(0, 6, "class=") == 0) { g_known.push_back({id, c.substr(6)}); knownText[c.substr(6)] = rest; }
    }
  }
  char self_path[4096]; ssize_t sl = readlink("/proc/self/exe", self_path, sizeof self_path - 1); self_path[sl > 0 ? sl : 0] = 0;
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared* S = (Shared*)m;
  double t0 = now();
  u64 h0 = 0; for (char c : id) h0 = h0 * 131 + c;
  if (only != ~0ull) {   // debug: one run
    R = newResult(); verbose = true;
    u64 x = seed * 0x9E3779B97F4A7C15ull ^ h0 * 0xD1B54A32D192ED03ull ^ only * 0x2545F4914F6CDD1Dull;
    RunOut o = oneRun(p, splitmix(x), nullptr);
    printf("%s %s %s\nsample: %s\n", o.status == 2 ? "violation" : "ok", o.cls.c_str(), o.msg.c_str(), R->sample);
    return o.status == 2;
  }
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; w++) {
    pid_t pid = fork();
    if (pid) { pids.push_back(pid); continue; }
    R = newResult();
    g_capfd = memfd_create("cap", 0);
    u64 mine = 0;
    while (!S->stop.load()) {
      u64 i = S->next.fetch_add(1);
      if (i >= runs) break;
      if (now() - t0 > secs) { S->stop = 1; break; }
      u64 x = seed * 0x9E3779B97F4A7C15ull ^ h0 * 0xD1B54A32D192ED03ull ^ i * 0x2545F4914F6CDD1Dull;
      u64 sd = splitmix(x);
      if (ftruncate(g_capfd, 0)) {} lseek(g_capfd, 0, SEEK_SET);
      RunOut o = oneRun(p, sd, nullptr);
      S->runs++; S->events += R->nev; S->steps += R->steps; S->simMicro += (u64)(R->simtime * 1e6);
      if (insertHash(S, o.hash)) { S->distinct++; if (R->nontriv) S->distinctNon++; }
      if (R->nontriv) S->nontriv++;
      for (u32 k = 0; k < R->nstats; k++) {
        u32 q = 0; for (; q < S->nst[w]; q++) if (!strcmp(S->st[w][q].name, R->stats[k].name)) break;
        if (q == S->nst[w]) { if (q >= 200) continue; memcpy(S->st[w][q].name, R->stats[k].name, 44); S->nst[w]++; }
        S->st[w][q].v += R->stats[k].v;
      }
      if (R->known) S->knownRuns[w]++;
      for (u32 k = 0; k < R->known; k++) { bool seen = false; for (u32 q = 0; q < S->nknown[w]; q++) seen |= !strcmp(S->known[w][q], R->knownCls[k]); if (!seen && S->nknown[w] < 8) memcpy(S->known[w][S->nknown[w]++], R->knownCls[k], 96); }
      if (R->nontriv && mine < 2) memcpy(S->samples[w][mine++], R->sample, 1400);
      if (o.status == 2) {
        u32 k = S->nv.fetch_add(1);
        if (k < 8) { auto& V = S->v[k]; V.idx = i; V.hash = o.hash; snprintf(V.cls, 96, "%s", o.cls.c_str()); snprintf(V.msg, 1600, "%s", o.msg.c_str()); V.n = o.tape.size(); std::copy(o.tape.begin(), o.tape.end(), V.tape); V.idx = i; }
        if (S->viol.fetch_add(1) >= 3) { S->stop = 1; break; }
      } else if (i % 61 == 0) {     // determinism sample
        RunOut o2 = oneRun(p, sd, nullptr);
        S->dchecks++; if (o2.hash != o.hash || o2.status != o.status) { S->dfail++; fprintf(stderr, "determinism: run index %llu differs\n", (unsigned long long)i); }
      }
    }
    _exit(0);
  }
  for (pid_t q : pids) { int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {} }
  double searchSecs = now() - t0;
  // ---- gate and report violations
  int rc = 0; std::string repPath, vcls, vmsg; u32 nv = std::min<u32>(S->nv.load(), 8); int gateFail = 0;
  R = newResult(); g_capfd = memfd_create("cap", 0);
  std::vector<u32> order; for (u32 k = 0; k < nv; k++) order.push_back(k);
  std::sort(order.begin(), order.end(), [&](u32 a, u32 b) { return S->v[a].idx < S->v[b].idx; });
  for (u32 k : order) {
    auto& V = S->v[k]; std::vector<u32> t(V.tape, V.tape + V.n); std::string cls = V.cls;
    RunOut a = oneRun(p, 0, &t), b = oneRun(p, 0, &t);
    bool hang = cls == "hang";
    if (a.status != 2 || b.status != 2 || a.cls != cls || b.cls != cls || (!hang && (a.hash != b.hash || a.hash != V.hash))) { gateFail++; fprintf(stderr, "gate: run %llu (%s) did not reproduce (%s/%s)\n", (unsigned long long)V.idx, cls.c_str(), a.cls.c_str(), b.cls.c_str()); continue; }
    std::vector<u32> mt = hang ? t : minimise(p, t, cls, 25);
    RunOut c = oneRun(p, 0, &mt);
    if (c.status != 2 || c.cls != cls) { mt = t; c = oneRun(p, 0, &mt); }
    std::string smp = R->sample;
    repPath = replayDir + "/" + id + "-" + std::to_string(seed) + "-" + std::to_string(V.idx) + ".replay";
    writeReplay(repPath, id, cls, c.msg + " | " + smp, c.hash, seed, mt);
    std::string cmd = std::string("'") + self_path + "' replay-quiet '" + repPath + "' >/dev/null 2>&1";
    int st = system(cmd.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) { gateFail++; fprintf(stderr, "gate: fresh-process replay of %s differs\n", repPath.c_str()); continue; }
    rc = 1; vcls = cls; vmsg = c.msg;
    printf("violation class: %s\n%s\nminimised run: %s\n", cls.c_str(), c.msg.c_str(), smp.c_str());
    break;
  }
  if (nv && rc == 0) rc = 2;
  // ---- evidence
  std::map<std::string, u64> st; std::set<std::string> kn; u64 kruns = 0;
  for (int w = 0; w < jobs; w++) { for (u32 q = 0; q < S->nst[w]; q++) st[S->st[w][q].name] += S->st[w][q].v; for (u32 q = 0; q < S->nknown[w]; q++) kn.insert(S->known[w][q]); kruns += S->knownRuns[w]; }
  for (auto& k : kn) printf("KNOWN-FINDING: property=%s %s (%s)\n", id.c_str(), k.c_str(), knownText[k].c_str());
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << g_tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << S->runs.load() << ",\n  \"distinct_nontrivial\": " << S->distinctNon.load() << ",\n";
    f << "  \"rule\": \"" << jesc(p.rule) << "\",\n";
    f << "  \"distinct_event_logs\": " << S->distinct.load() << ",\n  \"distinct_measure\": \"FNV-64 hash of the complete event log of a run (schedule decisions, I/O operations with sizes, fault firings, callback order and values)\",\n";
    f << "  \"nontrivial_runs\": " << S->nontriv.load() << ",\n  \"events\": " << S->events.load() << ",\n  \"steps\": " << S->steps.load() << ",\n";
    f << "  \"simulated_seconds\": " << S->simMicro.load() / 1e6 << ",\n";
    f << "  \"search_wall_s\": " << searchSecs << ",\n  \"runs_per_hour\": " << (u64)(S->runs.load() / std::max(searchSecs, 1e-3) * 3600) << ",\n";
    f << "  \"determinism_rechecks\": " << S->dchecks.load() << ",\n  \"determinism_mismatches\": " << S->dfail.load() << ",\n";
    f << "  \"components\": \"" << jesc(p.components) << "\",\n  \"faults_injected\": {";
    bool first = true; for (auto& x : st) if (x.first.compare(0, 6, "fault.") == 0) { f << (first ? "" : ", ") << "\"" << jesc(x.first.substr(6)) << "\": " << x.second; first = false; }
    f << "},\n  \"probes\": {"; first = true; for (auto& x : st) if (x.first.compare(0, 6, "fault.") != 0) { f << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second; first = false; }
    f << "},\n  \"known_finding_runs\": " << kruns << ",\n  \"samples\": ["; first = true;
    for (int w = 0; w < jobs && w < 3; w++) for (int q = 0; q < 2; q++) if (S->samples[w][q][0]) { f << (first ? "" : ", ") << "\"" << jesc(S->samples[w][q]) << "\""; first = false; }
    f << "]\n },\n \"assumptions\": [\"sampling, not enumeration\", \"process crash model: bytes handed to write() survive, stream buffers do not; power loss is not modelled because the program never syncs\"],\n";
    f << " \"wall_s\": " << now() - t0 << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  printf("%s: %llu runs, %llu distinct, %.1f s, determinism mismatches %llu\n", id.c_str(), (unsigned long long)S->runs.load(), (unsigned long long)S->distinct.load(), now() - t0, (unsigned long long)S->dfail.load());
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n", id.c_str(), repPath.c_str());
  if (rc == 2) fprintf(stderr, "violations found but none reproduced (%d gate failures)\n", gateFail);
  return rc;
}
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // personality: no address randomisation is needed, nothing hashes addresses
  __sanitizer_set_death_callback(onDeath);
  el::Configurations c; c.setToDefault();
  c.setGlobally(el::ConfigurationType::Enabled, "false");
  c.setGlobally(el::ConfigurationType::ToFile, "false");
  c.setGlobally(el::ConfigurationType::ToStandardOutput, "false");
  c.set(el::Level::Fatal, el::ConfigurationType::Enabled, "true");
  c.set(el::Level::Fatal, el::ConfigurationType::ToStandardOutput, "true");
  el::Loggers::reconfigureAllLoggers(c);
  int rc = 3;
  if (argc > 1 && !strcmp(argv[1], "run")) rc = doRun(argc, argv);
  else if (argc > 2 && !strcmp(argv[1], "replay")) { R = newResult(); g_capfd = 2; rc = doReplay(argv[2], false); }
  else if (argc > 2 && !strcmp(argv[1], "replay-quiet")) { R = newResult(); g_capfd = open("/dev/null", O_WRONLY); rc = doReplay(argv[2], true); }
  else if (argc > 1 && !strcmp(argv[1], "list")) { for (auto& p : properties()) printf("%s\n", p.id); rc = 0; }
  else fprintf(stderr, "usage: sim run --prop ID ... | replay FILE | list\n");
  fflush(stdout); fflush(stderr);
  _exit(rc);
}
