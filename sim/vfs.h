// In-memory disk reached through interposed libc calls.
#pragma once
#include "core.h"
#include <memory>
namespace sim { namespace vfs {
enum FaultKind { OPEN_FAIL, WRITE_EIO, WRITE_TORN, DISK_FULL, WRITE_SHORT, WRITE_EINTR, CLOSE_FAIL,
                 CRASH_AT, READ_EIO, READ_EINTR, READ_SHORT, NKINDS };
extern const char* const faultName[NKINDS];
struct Fault {
  FaultKind kind; u64 n;     // fires on the n-th (1-based) operation of its class
  u64 arg;                   // torn/short: bytes delivered; disk full: number of failing writes
  std::string path;          // if not empty: only operations on this path count
  bool fired = false; u64 seen = 0; u64 left = 0; bool active = false;
};
struct Op { char type; std::string path; u64 len; bool ok; std::string data; int stamp; };  // o,w,r,c
void reset();                              // empty disk, no faults, counters zero
void enable(bool on);
void put(const std::string& path, const std::string& data);
bool exists(const std::string& path);
std::string get(const std::string& path);
std::vector<std::string> list();
void erase(const std::string& path);
void addFault(const Fault& f);
void clearFaults();
u64 firedFaults();
void readChunk(u64 n);                     // cap every read (0: no cap)
void noWrite(const std::string& path);     // path can never be opened for writing
u64 opens(); u64 writes(); u64 reads(); u64 closes();
std::vector<Op>& history();
void setStamp(int s);                      // tag for history entries (e.g. current step)
void yieldHook(void (*f)());               // called at every write/open (scheduler)
void ignoreInHash(const std::string& path);
}}
