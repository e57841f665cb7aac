#include "fiber.h"
#include <ucontext.h>
#include <link.h>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <pthread.h>
extern "C" void __sanitizer_start_switch_fiber(void** save, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* save, const void** bottom, size_t* size);
// While this is above zero nobody is switched: a function-local static is being initialised, a mutex is held (a thread would make
// the others wait), a log statement runs (the logging library, built without its thread support, is environment).
extern "C" { long sim_noSwitch = 0; }
#define noSwitch sim_noSwitch
namespace sim {
struct TaskState; 
void* saveTaskGlobals();               // core.cpp: current attempt chain and SUT flag
void loadTaskGlobals(void* att, int sut);
int sutFlag();
namespace sched {
static long pcLeft = 0; static void (*pcHook)() = nullptr;
void preempt(long first, void (*f)()) { pcHook = f; pcLeft = first; }
void pcHit() { if (noSwitch > 0 || !inSut()) { pcLeft = 1; return; } pcLeft = 0; pcHook(); }
struct Task { ucontext_t ctx; char* stack; Body body; bool done = false; void* fake = nullptr; void* att = nullptr; int sut = 0; int id; void* exc[2] = {nullptr, nullptr}; long prio = 0; std::string tls; };
// thread-local variables of the program: each task has its own, as threads have
static char* tlsAt = nullptr; static size_t tlsSize = 0, tlsInit = 0; static const char* tlsImage;
static int findTls(dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tlsAt = (char*)i->dlpi_tls_data; tlsSize = i->dlpi_phdr[k].p_memsz; tlsInit = i->dlpi_phdr[k].p_filesz; tlsImage = (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); } return 1; }
static void swapTls(std::string& with) { if (!tlsAt) return; std::string now(tlsAt, tlsSize); memcpy(tlsAt, with.data(), tlsSize); with.swap(now); }
static const size_t STK = 512 * 1024;
static std::vector<Task*> T; static ucontext_t mainCtx; static void* mainFake; static const void* mainBottom; static size_t mainSize;
static int cur = -1; static u64 nsw = 0; static int policy = 0; static long lowest = 0;
int current() { return cur; }
u64 switches() { return nsw; }
void setPolicy(int p) { policy = p; lowest = 0; }
long blocksLeft() { return pcLeft; }
void demote() { if (cur >= 0) T[cur]->prio = --lowest; }
static void entry() {
  const void* b; size_t s;
  __sanitizer_finish_switch_fiber(nullptr, &b, &s);
  mainBottom = b; mainSize = s;
  Task* t = T[cur];
  { Sut g; t->body(); }
  t->done = true;
  __sanitizer_start_switch_fiber(nullptr, mainBottom, mainSize);
  swapcontext(&t->ctx, &mainCtx);
}
void spawn(const Body& b) {
  Host h;
  Task* t = new Task; t->stack = (char*)malloc(STK); t->body = b; t->id = (int)T.size();
  static int found = dl_iterate_phdr(findTls, nullptr); (void)found; if (tlsAt) { t->tls.assign(tlsImage, tlsInit); t->tls.resize(tlsSize); }
  getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, (void (*)())entry, 0);
  T.push_back(t);
}
static void switchTo(int i) {
  Task* t = T[i]; cur = i; nsw++;
  void* att = saveTaskGlobals(); int sut = sutFlag();
  loadTaskGlobals(t->att, t->sut); void** eg = (void**)__cxxabiv1::__cxa_get_globals(); void* e0[2] = {eg[0], eg[1]}; eg[0] = t->exc[0]; eg[1] = t->exc[1];
  swapTls(t->tls);
  __sanitizer_start_switch_fiber(&mainFake, t->stack, STK);
  swapcontext(&mainCtx, &t->ctx);
  __sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
  swapTls(t->tls);
  t->exc[0] = eg[0]; t->exc[1] = eg[1]; eg[0] = e0[0]; eg[1] = e0[1];
  t->att = saveTaskGlobals(); t->sut = sutFlag();
  loadTaskGlobals(att, sut);
  cur = -1;
}
void yield(const char* where) {
  if (cur < 0 || noSwitch > 0) return;
  Host h;
  bool sw = policy == 3 ? false : policy == 0 ? true : policy == 1 ? chance(1, 4) : chance(1, 24);
  if (policy == 3) { long best = lowest; for (auto t : T) if (!t->done) best = std::max(best, t->prio); sw = T[cur]->prio < best; }
  if (!sw) return;
  ev("yield %d %s", cur, where);
  Task* t = T[cur];
  __sanitizer_start_switch_fiber(&t->fake, mainBottom, mainSize);
  swapcontext(&t->ctx, &mainCtx);
  const void* b; size_t s;
  __sanitizer_finish_switch_fiber(t->fake, &b, &s);
}
void run() {
  Host h;
  for (;;) {
    std::vector<int> ready; for (auto t : T) if (!t->done) ready.push_back(t->id);
    if (ready.empty()) break;
    int i = ready[draw(ready.size())];
    if (policy == 3) { for (int r : ready) if (T[r]->prio > T[i]->prio) i = r; }
    ev("run %d", i);
    switchTo(i);
  }
  for (auto t : T) { free(t->stack); delete t; }
  T.clear();
}
}}

// every basic block of library code compiled for C11 comes here
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() { if (__builtin_expect(sim::sched::pcLeft > 0, 0) && --sim::sched::pcLeft == 0) sim::sched::pcHit(); }
extern "C" {
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*); int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r) sim_noSwitch++; return r; }
void __wrap___cxa_guard_release(void* g) { sim_noSwitch--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { sim_noSwitch--; __real___cxa_guard_abort(g); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); if (!r) sim_noSwitch++; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { sim_noSwitch--; return __real_pthread_mutex_unlock(m); }
}
// el::base::Writer::construct(int, const char*, ...): a log statement begins, it ends with processDispatch (core.cpp)
asm(".text\n.globl __wrap__ZN2el4base6Writer9constructEiPKcz\n.type __wrap__ZN2el4base6Writer9constructEiPKcz,@function\n__wrap__ZN2el4base6Writer9constructEiPKcz:\n endbr64\n movq sim_noSwitch@GOTPCREL(%rip), %r11\n incq (%r11)\n jmp __real__ZN2el4base6Writer9constructEiPKcz\n");
// functions of the logging library
extern "C" __attribute__((no_sanitize("address"), no_instrument_function)) void __cyg_profile_func_enter(void*, void*) { sim_noSwitch++; }
extern "C" __attribute__((no_sanitize("address"), no_instrument_function)) void __cyg_profile_func_exit(void*, void*) { sim_noSwitch--; }
