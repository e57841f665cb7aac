// Deterministic simulator core: choice tape, event log, outcome capture, fault plan bookkeeping.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <csetjmp>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// ---- choices ---------------------------------------------------------------------------------
// Every decision of a run is drawn here. 0 is always the simplest choice (no fault, smallest).
u64 draw(u64 n);                       // uniform in [0, n)
bool chance(u32 num, u32 den);         // probability num/den; 0 on the tape means false
int range(int lo, int hi);             // inclusive, 0 on the tape means lo
double real(double lo, double hi, u32 steps = 64);   // lattice value, 0 on the tape means lo
template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
template <class T> void shuffle(std::vector<T>& v) {   // identity for an all-zero tape
  for (size_t i = 0; i + 1 < v.size(); i++) { size_t j = i + draw(v.size() - i); std::swap(v[i], v[j]); }
}

// ---- events, statistics ------------------------------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hashBytes(const void* p, size_t n);      // goes to the event-log hash only
inline void hashD(double d) { hashBytes(&d, sizeof d); }
void stat(const char* name, u64 n = 1);
void nontrivial();                             // this run exercised what the property is about
void sample(const std::string& s);             // human readable description of the run
void simtime(double seconds);                  // adds simulated time covered
void step();                                   // counts towards the step budget (liveness)
void setStepBudget(u64 n);
u64 steps();

// ---- verdict -----------------------------------------------------------------------------------
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)
[[noreturn]] void finishOk();
// A known finding (listed in known_findings.json) is counted, not raised.
bool knownFinding(const char* cls);

// ---- running code under test -------------------------------------------------------------------
enum Kind { OK, EXC, ABORT, EXIT, CRASH };
struct Outcome {
  Kind kind = OK;
  int code = 0;
  std::string what;
  bool loud() const { return kind == EXC || kind == ABORT || (kind == EXIT && code != 0); }
};
const char* kindName(Kind k);
// Runs f as code under test. abort()/assert/fatal log, exit() and simulated crashes come back as
// outcomes; memory errors end the run as a violation.
Outcome attempt(const std::function<void()>& f);
[[noreturn]] void crashNow();                   // simulated process crash (only inside attempt)
bool inAttempt();

// Runs f in a forked copy of the process (pristine state, nothing leaks back) and returns its string.
// A violation inside is a violation of this run. f must not draw.
std::string isolated(const std::function<std::string()>& f);

struct Host { int saved; Host(); ~Host(); };    // harness code called back from code under test
struct Sut { int saved; Sut(); ~Sut(); };       // code under test called from harness code
bool inSut();

// ---- allocator -----------------------------------------------------------------------------------
namespace mem {
void fill(int pattern);                         // -1: leave as is; else byte used to fill new blocks
void failAt(u64 nth, bool forever);             // nth (1-based) SUT allocation from now on fails; 0: off
u64 count();                                    // SUT allocations since last resetCount
void resetCount();
u64 liveBlocks();                               // live blocks allocated by the SUT
void mark(); void dumpSinceMark();              // replay only: print blocks allocated since mark() and still alive
bool fired();
void yieldHook(void (*f)());                      // called when the SUT requests or releases an array (vectors, matrices, file buffers)
}

// ---- simulated clock -----------------------------------------------------------------------------
namespace clk { void on(int mode); u64 reads(); }

// ---- registered properties -----------------------------------------------------------------------
struct Property {
  const char* id;
  void (*run)();
  u64 quickRuns, thoroughRuns;
  const char* rule;
  const char* components;                       // real / stub
};
std::vector<Property>& properties();
struct Register { Register(const Property& p) { properties().push_back(p); } };
const std::string& tier();
extern bool verbose;
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

}  // namespace sim
