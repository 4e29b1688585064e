// Interface between a concurrent scenario (compiled with -fsanitize=thread, never linked with the
// real runtime) and the exhaustive scheduler in sched.cpp.
#ifndef MC_SCHED_H
#define MC_SCHED_H
#include <cstddef>
#include <cstdint>

namespace mcs {
enum { MAXT = 6, MAXOPS = 32 };

struct OpRec {
    int tid, kind, arg;
    int call, ret;  // step numbers; ret < 0: still blocked at the end
    int res;
};

struct Scenario {
    const char* name;
    int shards;
    int threads;                    // at most MAXT - 1
    void (*prepare)();              // main context, makes the set-up choices
    void (*body)(int tid);          // fibers 1..threads
    void (*finish)();               // main context, destroys the shared object
    const char* (*verdict)(const OpRec* h, int n);  // nullptr: the history is fine
    int (*bound)(bool thorough, int scale);         // preemption bound
    int (*spurious)(bool thorough, int scale);      // spurious wake-up budget
};

void add(const Scenario& s);
int choose(int n);
void note(const char* fmt, ...);
void set_threads(int n);   // from prepare
void call(int kind, int arg);
void ret(int res);
void fail(const char* msg);
void untracked(bool on);   // harness bookkeeping: no race detection, no arena
bool thorough();
int scale();
}  // namespace mcs
#endif
