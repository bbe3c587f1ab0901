// Cooperative scheduler: threads created while sched::run() is active become coroutines, every scheduling decision is a
// symbolic choice.  See sched_rt.cc.
#pragma once
#include <functional>
#include "sym.h"
extern "C" void sched_yield_point();          // a place where another thread may run (counts against the budget)
namespace sched {
// runs body; at synchronisation operations up to `budget` preemptions are chosen symbolically; in addition one preemption
// takes place at the k-th memory access of namespace odc code (k < 0: none).  choose(n) picks one of n runnable threads.
void run(const std::function<void()>& body, int budget, long k, int (*choose)(int));
long points();                                // memory accesses counted by the last run
int threads();                                // threads created by the last run
int switches();
inline int choose(int n) { return sym::choice(0, n - 1); }
}
