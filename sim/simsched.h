// Seeded scheduler for real threads. Every instrumented memory access of the
// library is a possible switch point; exactly one thread runs at any time.
#ifndef SIM_SCHED_H
#define SIM_SCHED_H
#include <cstdint>
#include <functional>
#include <vector>

namespace sim { namespace sched {

struct Segment{int thread; long n;};      // thread runs n switch points
struct Policy{
    int mode=0;                           // 0 explicit segments, 1 random walk, 2 change points, 3 after stores to static memory, 4 one thread at a time
    uint64_t seed=1; int rate=100;        // mode 1: one switch in rate; mode 2: number of change points; mode 3: one switch in rate after such a store
    long horizon=100000;                  // mode 2: expected length
    std::vector<Segment> segments;        // mode 0
};
struct Report{
    bool finished=false, deadlock=false;
    long points=0, switches=0, static_stores=0, static_loads=0, heap_accesses=0, blocked=0;
    uint64_t interleaving=0;              // hash over the executed segments
    std::vector<Segment> executed;
};
// runs the bodies to completion under the policy
Report run(const Policy& p,const std::vector<std::function<void()>>& bodies);
long work_done(bool start);                // accesses and calls since the start of counting, without threads
bool in_scheduler();                      // this thread is in the scheduler, not in the code under test
void yield_point();                       // explicit switch point (outside instrumented code)
}}
#endif
