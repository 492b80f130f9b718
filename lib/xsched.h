// Controlled scheduler: runs the instrumented code under test on real threads, one at a time, and enumerates the
// schedules. Scheduling points: synchronisation operations on objects used by two threads, racing memory accesses,
// file-system calls on shared descriptors, HDF5 calls. Up to a bound of preemptions.
#pragma once
#include "vp.h"
#include <memory>
#include <exception>

namespace sched {
struct Thread {            // a thread of the harness; violations found in it are rethrown by join()
  struct Rec; std::shared_ptr<Rec> r;
  Thread(const std::function<void()> &f); void join();
};
// A scenario whose body runs under the scheduler, one process per schedule.
// small: few schedules, explored by one process instead of distributing them.
// setup runs once per process, before schedules are enumerated; bound: preemptions.
void scenario(const std::string &name, int bound, const std::function<void(vp::Ctx &)> &setup, const std::function<void(vp::Ctx &)> &body, int timeoutMs = 20000, bool small = false);
inline void run(const std::vector<std::function<void()> > &fs) { std::vector<Thread> t; for (auto &f : fs) t.emplace_back(f); std::exception_ptr e; for (auto &x : t) try { x.join(); } catch (...) { if (!e) e = std::current_exception(); } if (e) std::rethrow_exception(e); }
bool isFreed(const void *p);      // memory given back during this execution
}
