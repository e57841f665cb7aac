// Cooperative tasks with a seeded scheduler: the simulator decides at every yield point who runs.
#pragma once
#include "core.h"
namespace sim { namespace sched {
typedef std::function<void()> Body;
void spawn(const Body& b);            // code under test, run as a task (not started yet)
void run();                            // runs all tasks to completion under the seeded scheduler
void yield(const char* where);         // no-op outside run()
int current();                         // task number, -1 outside
u64 switches();
void preempt(long first, void (*f)()); // f is called at the first-th next basic block of library code (C11 build only); f arms the next one; 0: off
void setPolicy(int p);                 // 0 uniform, 1 sticky, 2 rare preemptions, 3 priorities: a task runs until it ends or is demoted
void demote();                         // policy 3: the running task waits until the others have ended (or are demoted themselves)
long blocksLeft();                     // blocks up to the call of f
}}
