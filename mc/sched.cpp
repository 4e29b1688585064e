// Exhaustive scheduler for real multi-threaded code.  The scenario is compiled with
// -fsanitize=thread, but the __tsan_* entry points, the pthread synchronisation functions and the heap
// are defined here: threads are fibers of one OS thread, every synchronisation operation is a
// scheduling point, and all schedules up to a preemption bound are run (depth first, by re-execution).
// On every execution: vector clock race detection that honours the memory orders, use after free and
// out of bounds on the heap, deadlock and livelock detection, and the scenario's own verdict on the
// call/return history.
#include "mc/core.hpp"
#include "mc/sched.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <new>

using mc::core;
using mc::fail;

namespace {

enum { NT = mcs::MAXT };
typedef uint32_t Clk;
struct VC {
    Clk c[NT];
    void join(const VC& o) {
        for (int i = 0; i < NT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
    void clear() {
        for (int i = 0; i < NT; ++i)
            c[i] = 0;
    }
};

enum Op { NONE, START, CALL, LOCK, RDLOCK, TRYLOCK, NOTIFY, ATOMIC, WAITING, YIELD, DONE };
const char* op_name(int o) {
    static const char* n[] = {"none", "start", "call", "lock", "rdlock", "trylock", "notify", "atomic", "wait", "yield", "done"};
    return n[o];
}

struct Fiber {
    void* sp;
    char* stack;
    Op op;
    void* obj;
    void* mtx;          // WAITING: mutex to reacquire
    bool timed;
    bool signalled, timedout;
    VC vc, frel, facq;  // clock; release fence; pending acquire
    bool has_frel;
    // spinning
    bool spinning;
    const void* spin_loc;
    const void* spin_pc;
    uint64_t spin_ver;
    int spin_rounds;
    uint64_t yield_at;
    int barren;         // steps in a row that changed nothing
    uint64_t barren_ver;
    bool first_after_call, fresh;
};

struct Mutex {
    void* a;
    int owner;      // -1 free
    int readers;
    VC vc, rvc;
};

enum { STK = 256 * 1024, NMUTEX = 64, ARENA = 1 << 22, NSH = 1 << 16, NLOC = 256 };
Fiber fib[NT];
int nthreads, cur = 0;
void* main_sp;
bool active = false, in_rt = false;
Mutex mtx[NMUTEX];
int nmtx;
int preempt, preempt_bound, spurious_left, timeouts_left;
uint64_t steps, gver;
int last_run;
mcs::OpRec hist[mcs::MAXOPS];
int nhist, open_op[NT];
int clock_;
int live_blocks;

alignas(64) char arena[ARENA];
uint8_t astate[ARENA];  // 0 never allocated, 1 live, 2 freed
size_t atop;

struct Sh {
    uintptr_t a;
    uint32_t gen;
    Clk pw[NT], pr[NT], aw[NT], ar[NT];
};
Sh sh[NSH];
uint32_t gen = 1;
int shused;

struct Loc {
    const void* a;
    VC rel;
    uint64_t ver;
};
Loc loc[NLOC];
int nloc;

struct Guard {
    bool old;
    Guard() : old(in_rt) {
        in_rt = true;
    }
    ~Guard() {
        in_rt = old;
    }
};
bool off() {
    return !active || in_rt;
}

const char* tname(int t) {
    static const char* n[] = {"main", "T1", "T2", "T3", "T4", "T5"};
    return n[t];
}

// ---- fibers --------------------------------------------------------------------------------------
extern "C" void mc_switch(void** from, void* to);
__asm__(
    ".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n");

const mcs::Scenario* scen;

void fiber_main() {
    in_rt = false;
    try {
        scen->body(cur);
    } catch (...) {
        in_rt = true;
        fail("an exception left %s", tname(cur));
    }
    in_rt = true;
    fib[cur].op = DONE;
    mc_switch(&fib[cur].sp, main_sp);
    abort();
}

void make_fiber(int t) {
    Fiber& f = fib[t];
    char* st = f.stack;
    memset((void*)&f, 0, sizeof f);
    f.stack = st ? st : (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    void** top = (void**)(f.stack + STK - 64);
    *--top = nullptr;  // fake return address of fiber_main (alignment)
    *--top = (void*)&fiber_main;
    for (int i = 0; i < 6; ++i)
        *--top = nullptr;
    f.sp = top;
    f.op = START;
    f.fresh = true;
    f.vc = fib[0].vc;
    f.vc.c[t] = 1;
    open_op[t] = -1;
}

// give control to the scheduler; returns when this fiber is chosen to perform the operation
void point(Op op, void* obj) {
    Fiber& f = fib[cur];
    f.op = op;
    f.obj = obj;
    int me = cur;
    mc_switch(&f.sp, main_sp);
    (void)me;
}

bool enabled(int t);
void sync_point(Op op, void* obj) {
    if (cur == 0)
        return;
    Fiber& f = fib[cur];
    if (op != CALL && f.first_after_call) {
        f.first_after_call = false;
        // nothing shared happened since the call: only stop if the operation cannot proceed
        f.op = op;
        f.obj = obj;
        if (enabled(cur))
            return;
    }
    point(op, obj);
}

Mutex& mutex_of(void* a) {
    for (int i = 0; i < nmtx; ++i)
        if (mtx[i].a == a)
            return mtx[i];
    if (nmtx == NMUTEX)
        fail("harness error: too many mutexes");
    Mutex& m = mtx[nmtx++];
    m.a = a;
    m.owner = -1;
    m.readers = 0;
    m.vc.clear();
    m.rvc.clear();
    return m;
}

void forget_mutex(void* a) {
    for (int i = 0; i < nmtx; ++i)
        if (mtx[i].a == a) {
            if (mtx[i].owner >= 0)
                fail("a locked mutex is destroyed");
            mtx[i] = mtx[--nmtx];
            return;
        }
}

Loc& loc_of(const void* a) {
    for (int i = 0; i < nloc; ++i)
        if (loc[i].a == a)
            return loc[i];
    if (nloc == NLOC)
        fail("harness error: too many atomic locations");
    Loc& l = loc[nloc++];
    l.a = a;
    l.rel.clear();
    l.ver = 0;
    return l;
}

bool enabled(int t) {
    Fiber& f = fib[t];
    switch (f.op) {
        case DONE:
        case NONE:
            return false;
        case LOCK: {
            Mutex& m = mutex_of(f.obj);
            return m.owner < 0 && m.readers == 0;
        }
        case RDLOCK:
            return mutex_of(f.obj).owner < 0;
        case WAITING:
            if (!f.signalled)
                return false;
            {
                Mutex& m = mutex_of(f.mtx);
                return m.owner < 0 && m.readers == 0;
            }
        case ATOMIC:
        case TRYLOCK:
            if (f.spinning)
                return f.obj == f.spin_loc && loc_of(f.spin_loc).ver != f.spin_ver;
            if (f.barren >= 8)
                return gver != f.barren_ver;
            return true;
        case YIELD:
            return gver != f.yield_at;
        default:
            return true;
    }
}

// ---- memory --------------------------------------------------------------------------------------
Sh& shadow(uintptr_t a) {
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 48;
    for (;; i = (i + 1) & (NSH - 1)) {
        Sh& s = sh[i];
        if (s.gen != gen) {
            if (++shused > NSH / 2)
                fail("harness error: shadow memory exhausted");
            s.gen = gen;
            s.a = a;
            memset(s.pw, 0, sizeof(Clk) * NT * 4);
            return s;
        }
        if (s.a == a)
            return s;
    }
}

void race(uintptr_t a, const char* mine, int other, const char* theirs) {
    fail("data race: %s by %s is not ordered with the %s by %s%s", mine, tname(cur), theirs, tname(other),
         a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA ? " (heap)" : " (shared object)");
}

void access(const volatile void* p, size_t n, bool write, bool atomic) {
    uintptr_t a = (uintptr_t)p;
    Fiber& f = fib[cur];
    if (cur != 0 && a >= (uintptr_t)f.stack && a < (uintptr_t)f.stack + STK)
        return;
    if (a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA) {
        size_t o = a - (uintptr_t)arena;
        for (size_t i = 0; i < n; ++i)
            if (astate[o + i] != 1)
                fail("%s by %s touches %s heap memory", write ? "a write" : "a read", tname(cur), astate[o + i] == 2 ? "freed" : "unallocated");
    } else if (cur == 0 && a > (uintptr_t)__builtin_frame_address(0) && a < (uintptr_t)__builtin_frame_address(0) + (1 << 20))
        return;  // stack of the main context
    const char* mine = atomic ? (write ? "atomic write" : "atomic read") : (write ? "write" : "read");
    for (size_t i = 0; i < n; ++i) {
        Sh& s = shadow(a + i);
        for (int t = 0; t < NT; ++t) {
            if (t == cur)
                continue;
            Clk k = f.vc.c[t];
            if (s.pw[t] > k)
                race(a, mine, t, "write");
            if (write && s.pr[t] > k)
                race(a, mine, t, "read");
            if (!atomic) {
                if (s.aw[t] > k)
                    race(a, mine, t, "atomic write");
                if (write && s.ar[t] > k)
                    race(a, mine, t, "atomic read");
            }
        }
        Clk me = f.vc.c[cur];
        if (atomic)
            (write ? s.aw : s.ar)[cur] = me;
        else
            (write ? s.pw : s.pr)[cur] = me;
    }
}

inline void plain(const volatile void* p, size_t n, bool w) {
    if (off())
        return;
    Guard g;
    access(p, n, w, false);
}

void* arena_alloc(size_t n, size_t al = 16) {
    size_t o = (atop + 16 + al - 1) / al * al;
    if (o + n + 32 > ARENA)
        fail("harness error: arena exhausted");
    memset(arena + o, 0xA5, n);
    memset(astate + o, 1, n ? n : 1);
    // size in front of the block
    *(size_t*)(arena + o - 8) = n;
    atop = o + (n ? n : 1);
    ++live_blocks;
    return arena + o;
}

bool in_arena(const void* p) {
    return (const char*)p >= arena && (const char*)p < arena + ARENA;
}

void arena_free(void* p) {
    size_t o = (char*)p - arena;
    if (astate[o] != 1)
        fail("%s frees a block that is not allocated", tname(cur));
    size_t n = *(size_t*)((char*)p - 8);
    if (active)
        access(p, n ? n : 1, true, false);
    memset(astate + o, 2, n ? n : 1);
    --live_blocks;
}

// ---- atomics -------------------------------------------------------------------------------------
// memory orders as in the tsan interface: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
bool acq(int mo) {
    return mo == 1 || mo == 2 || mo == 4 || mo == 5;
}
bool rel(int mo) {
    return mo >= 3;
}

void at_before(const volatile void* p) {
    sync_point(ATOMIC, (void*)p);
}

void do_acquire(Loc& l, int mo) {
    if (acq(mo))
        fib[cur].vc.join(l.rel);
    else
        fib[cur].facq.join(l.rel);
}

void do_release(Loc& l, int mo, bool rmw) {
    Fiber& f = fib[cur];
    if (!rmw)
        l.rel.clear();
    if (rel(mo)) {
        l.rel.join(f.vc);
    } else if (f.has_frel)
        l.rel.join(f.frel);
    ++f.vc.c[cur];
}

// called after an atomic operation: detects waiting in a loop
void at_after(const volatile void* p, bool changed, const void* pc, Loc& l) {
    Fiber& f = fib[cur];
    if (changed) {
        ++l.ver;
        ++gver;
        f.barren = 0;
        f.spinning = false;
        f.spin_loc = nullptr;
        return;
    }
    ++f.barren;
    f.barren_ver = gver;
    if (f.spin_loc == (const void*)p && f.spin_pc == pc) {
        f.spinning = true;
        f.spin_ver = l.ver;
    } else {
        f.spinning = false;
        f.spin_loc = (const void*)p;
        f.spin_pc = pc;
        f.spin_rounds = 0;
    }
}

template<typename T>
T at_load(const volatile T* p, int mo, const void* pc) {
    if (off())
        return *p;
    Guard g;
    at_before(p);
    access(p, sizeof(T), false, true);
    Loc& l = loc_of((const void*)p);
    do_acquire(l, mo);
    T v = *p;
    at_after(p, false, pc, l);
    return v;
}
template<typename T>
void at_store(volatile T* p, T v, int mo, const void* pc) {
    if (off()) {
        *p = v;
        return;
    }
    Guard g;
    at_before(p);
    access(p, sizeof(T), true, true);
    Loc& l = loc_of((const void*)p);
    do_release(l, mo, false);
    *p = v;
    at_after(p, true, pc, l);
}
template<typename T, typename F>
T at_rmw(volatile T* p, int mo, const void* pc, F f) {
    if (off()) {
        T o = *p;
        *p = f(o);
        return o;
    }
    Guard g;
    at_before(p);
    access(p, sizeof(T), true, true);
    Loc& l = loc_of((const void*)p);
    do_acquire(l, mo);
    do_release(l, mo, true);
    T o = *p, n = f(o);
    *p = n;
    at_after(p, n != o, pc, l);
    return o;
}
template<typename T>
int at_cas(volatile T* p, T* e, T d, int mo, int fmo, const void* pc) {
    if (off()) {
        if (*p == *e) {
            *p = d;
            return 1;
        }
        *e = *p;
        return 0;
    }
    Guard g;
    at_before(p);
    Loc& l = loc_of((const void*)p);
    T o = *p;
    if (o == *e) {
        access(p, sizeof(T), true, true);
        do_acquire(l, mo);
        do_release(l, mo, true);
        *p = d;
        at_after(p, true, pc, l);
        return 1;
    }
    access(p, sizeof(T), false, true);
    do_acquire(l, fmo);
    *e = o;
    at_after(p, false, pc, l);
    return 0;
}

// ---- mutexes and condition variables --------------------------------------------------------------
void acquired(Mutex& m) {
    Fiber& f = fib[cur];
    m.owner = cur;
    f.vc.join(m.vc);
    f.vc.join(m.rvc);
    ++gver;
    f.barren = 0;
    f.spinning = false;
    f.spin_loc = nullptr;
}
int m_lock(void* a) {
    if (off())
        return 0;
    Guard g;
    Mutex* m = &mutex_of(a);
    if (cur == 0) {
        if (m->owner >= 0)
            fail("the main context waits for a mutex held by %s", tname(m->owner));
    } else
        sync_point(LOCK, a);
    acquired(mutex_of(a));
    return 0;
}
int m_trylock(void* a, const void* pc) {
    if (off())
        return 0;
    Guard g;
    sync_point(TRYLOCK, a);
    Mutex& m = mutex_of(a);
    Loc& l = loc_of(a);
    if (m.owner >= 0 || m.readers > 0) {
        at_after(a, false, pc, l);
        return EBUSY;
    }
    acquired(m);
    return 0;
}
void released(Mutex& m) {
    Fiber& f = fib[cur];
    m.owner = -1;
    m.vc = f.vc;
    ++f.vc.c[cur];
    ++loc_of(m.a).ver;
    ++gver;
}
int m_unlock(void* a) {
    if (off())
        return 0;
    Guard g;
    if (core().flag && cur != 0) {
        // somebody tries locks: it matters how long they are held
        fib[cur].first_after_call = false;
        point(NOTIFY, nullptr);
    }
    Mutex& m = mutex_of(a);
    if (m.owner == cur)
        released(m);
    else if (m.readers > 0) {
        --m.readers;
        m.rvc.join(fib[cur].vc);
        ++fib[cur].vc.c[cur];
        ++loc_of(a).ver;
    } else
        fail("%s unlocks a mutex it does not hold", tname(cur));
    return 0;
}
int c_wait(void* c, void* a, bool timed) {
    if (off())
        return 0;
    Guard g;
    if (cur == 0)
        fail("the main context waits on a condition variable");
    Mutex& m = mutex_of(a);
    if (m.owner != cur)
        fail("%s waits on a condition variable without holding its mutex", tname(cur));
    Fiber& f = fib[cur];
    f.first_after_call = false;
    f.signalled = f.timedout = false;
    f.timed = timed;
    f.mtx = a;
    released(m);
    point(WAITING, c);
    acquired(mutex_of(a));
    return f.timedout ? ETIMEDOUT : 0;
}
int c_notify(void* c, bool all) {
    if (off())
        return 0;
    Guard g;
    if (cur != 0)
        sync_point(NOTIFY, c);
    ++gver;
    int w[NT], n = 0;
    for (int t = 1; t <= nthreads; ++t)
        if (fib[t].op == WAITING && fib[t].obj == c && !fib[t].signalled)
            w[n++] = t;
    if (n == 0)
        return 0;
    if (all) {
        for (int i = 0; i < n; ++i)
            fib[w[i]].signalled = true;
    } else {
        int i = n > 1 ? mc::choose(n) : 0;
        fib[w[i]].signalled = true;
        mc::note("(wakes %s)", tname(w[i]));
    }
    return 0;
}

// ---- the scheduler -------------------------------------------------------------------------------
void describe_blocked(std::string& s) {
    for (int t = 1; t <= nthreads; ++t)
        if (fib[t].op != DONE)
            s += std::string(" ") + tname(t) + ":" + (fib[t].spinning ? "spin" : op_name(fib[t].op));
}

void schedule() {
    last_run = 0;
    int idle_rounds = 0;
    for (;;) {
        int alt[2 * NT], kind[2 * NT], n = 0;
        bool cur_en = last_run > 0 && enabled(last_run);
        if (cur_en) {
            alt[n] = last_run;
            kind[n++] = 0;
        }
        if (!cur_en || preempt < preempt_bound) {
            for (int t = 1; t <= nthreads; ++t)
                if (t != last_run && enabled(t)) {
                    alt[n] = t;
                    kind[n++] = 0;
                }
            for (int t = 1; t <= nthreads; ++t) {
                Fiber& f = fib[t];
                if (f.op == WAITING && !f.signalled) {
                    Mutex& m = mutex_of(f.mtx);
                    if (m.owner >= 0 || m.readers > 0)
                        continue;
                    if (spurious_left > 0) {
                        alt[n] = t;
                        kind[n++] = 1;
                    }
                    if (f.timed && timeouts_left > 0) {
                        alt[n] = t;
                        kind[n++] = 2;
                    }
                }
            }
        }
        // "nobody can run but for a spurious wake-up" still is a state in which somebody may wait for ever
        bool only_extra = n > 0;
        for (int i = 0; i < n; ++i)
            if (kind[i] == 0)
                only_extra = false;
        if (only_extra) {
            int i = mc::choose(n + 1);
            if (i == 0)
                n = 0;
            else {
                alt[0] = alt[i - 1];
                kind[0] = kind[i - 1];
                n = 1;
            }
        }
        if (n == 0) {
            // nobody can run: let those that only wait actively have another look
            bool any = false;
            for (int t = 1; t <= nthreads; ++t) {
                Fiber& f = fib[t];
                if (((f.spinning || f.barren >= 8) && (f.op == ATOMIC || f.op == TRYLOCK)) || f.op == YIELD) {
                    f.spinning = false;
                    f.barren = 0;
                    f.yield_at = ~0ull;
                    any = true;
                } else if (f.op == WAITING && f.timed && !f.signalled && idle_rounds < 60) {
                    f.signalled = f.timedout = true;
                    any = true;
                }
            }
            if (any && ++idle_rounds < 200)
                continue;
            if (any) {
                std::string s;
                describe_blocked(s);
                fail("livelock: nothing can change any more, but:%s", s.c_str());
            }
            break;
        }
        int i = n > 1 ? mc::choose(n) : 0;
        int t = alt[i];
        if (cur_en && t != last_run)
            ++preempt;
        Fiber& f = fib[t];
        if (kind[i]) {
            f.signalled = true;
            if (kind[i] == 1)
                --spurious_left;
            else {
                f.timedout = true;
                --timeouts_left;
            }
            mc::note("%s %s", tname(t), kind[i] == 1 ? "wakes up spuriously" : "times out");
        }
        if (core().log_on && t != last_run)
            mc::note("-> %s", tname(t));
        last_run = t;
        ++steps;
        if (steps > 20000)
            fail("livelock: an operation does not finish within 20000 steps");
        cur = t;
        mc_switch(&main_sp, f.sp);
        cur = 0;
        core().st.transitions++;
    }
    // who is left?
    for (int t = 1; t <= nthreads; ++t) {
        Fiber& f = fib[t];
        if (f.op == DONE || f.op == WAITING)
            continue;
        std::string s;
        describe_blocked(s);
        fail("deadlock:%s", s.c_str());
    }
}

void exec(const mcs::Scenario& s) {
    Guard g;
    scen = &s;
    ++gen;
    shused = 0;
    memset(astate, 0, atop + 64 < ARENA ? atop + 64 : ARENA);
    atop = 64;
    nmtx = nloc = nhist = clock_ = 0;
    steps = 1;
    preempt = 0;
    live_blocks = 0;
    preempt_bound = s.bound(core().thorough, core().bound_scale);
    if (core().flag && preempt_bound > 3)
        preempt_bound = 3;
    spurious_left = s.spurious(core().thorough, core().bound_scale);
    timeouts_left = 2;
    cur = 0;
    fib[0].barren = 0;
    gver = 0;
    memset((void*)fib[0].vc.c, 0, sizeof fib[0].vc);
    fib[0].vc.c[0] = 1;
    fib[0].has_frel = false;
    fib[0].spinning = false;
    fib[0].first_after_call = false;
    nthreads = s.threads;
    for (int t = 1; t < NT; ++t)
        fib[t].op = NONE;
    active = true;
    in_rt = false;
    try {
        s.prepare();
    } catch (mc::SkipExec&) {
        in_rt = true;
        active = false;
        return;
    }
    in_rt = true;
    ++fib[0].vc.c[0];
    for (int t = 1; t <= nthreads; ++t)
        make_fiber(t);
    ++fib[0].vc.c[0];
    schedule();
    bool stuck = false;
    for (int t = 1; t <= nthreads; ++t) {
        fib[0].vc.join(fib[t].vc);
        stuck = stuck || fib[t].op != DONE;
    }
    const char* v = s.verdict(hist, nhist);
    if (v)
        fail("%s", v);
    mc::Hash h;
    for (int i = 0; i < nhist; ++i) {
        h.u(uint64_t(hist[i].tid * 100 + hist[i].kind));
        h.u(uint64_t(hist[i].res + 1000));
        h.u(hist[i].ret < 0);
    }
    mc::outcome(h.get());
    if (!stuck) {
        in_rt = false;
        s.finish();
        in_rt = true;
        if (live_blocks != 0)
            fail("heap memory is still allocated after the queue is gone");
    }
    active = false;
}

std::vector<mcs::Scenario>& all() {
    static std::vector<mcs::Scenario> v;
    return v;
}

#define PC __builtin_return_address(0)

}  // namespace

namespace mcs {
void add(const Scenario& s) {
    all().push_back(s);
}
int choose(int n) {
    Guard g;
    return mc::choose(n);
}
void note(const char* f, ...) {
    Guard g;
    if (!core().log_on)
        return;
    va_list ap;
    va_start(ap, f);
    mc::vappend(core().log, f, ap);
    va_end(ap);
    core().log += "; ";
}
void set_threads(int n) {
    nthreads = n;
}
void call(int kind, int arg) {
    Guard g;
    if (cur != 0) {
        fib[cur].first_after_call = false;
        fib[cur].barren = 0;
        fib[cur].spinning = false;
        fib[cur].spin_loc = nullptr;
        if (!fib[cur].fresh)
            sync_point(CALL, nullptr);
        fib[cur].fresh = false;
        fib[cur].first_after_call = true;
    }
    if (nhist == MAXOPS)
        ::fail("harness error: too many operations");
    OpRec& o = hist[nhist];
    o.tid = cur;
    o.kind = kind;
    o.arg = arg;
    o.call = ++clock_;
    o.ret = -1;
    o.res = 0;
    open_op[cur] = nhist++;
    if (core().log_on)
        mc::note("%s calls %c(%d)", tname(cur), kind, arg);
}
void ret(int res) {
    Guard g;
    OpRec& o = hist[open_op[cur]];
    o.ret = ++clock_;
    o.res = res;
    fib[cur].first_after_call = false;
    if (core().log_on)
        mc::note("%s %c = %d", tname(cur), o.kind, res);
}
void fail(const char* m) {
    Guard g;
    ::fail("%s", m);
}
static bool ut_old;
void untracked(bool on) {
    if (on) {
        ut_old = in_rt;
        in_rt = true;
    } else
        in_rt = ut_old;
}
bool thorough() {
    return core().thorough;
}
int scale() {
    return core().bound_scale;
}
}  // namespace mcs

// ---- interposed functions --------------------------------------------------------------------------
void* operator new(size_t n) {
    if (off()) {
        void* p = malloc(n ? n : 1);
        if (!p)
            abort();
        return p;
    }
    Guard g;
    return arena_alloc(n);
}
void* operator new[](size_t n) {
    return operator new(n);
}
void operator delete(void* p) noexcept {
    if (!p)
        return;
    if (in_arena(p)) {
        Guard g;
        arena_free(p);
    } else
        free(p);
}
void operator delete[](void* p) noexcept {
    operator delete(p);
}
void operator delete(void* p, size_t) noexcept {
    operator delete(p);
}
void operator delete[](void* p, size_t) noexcept {
    operator delete(p);
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    return m_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    return m_trylock(m, PC);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    return m_trylock(m, PC) ? ETIMEDOUT : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) {
    return m_trylock(m, PC) ? ETIMEDOUT : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    return m_unlock(m);
}
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) {
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!off()) {
        Guard g;
        forget_mutex(m);
    }
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    return m_lock(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    return m_trylock(m, PC);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (off())
        return 0;
    Guard g;
    sync_point(RDLOCK, m);
    Mutex& x = mutex_of(m);
    ++x.readers;
    fib[cur].vc.join(x.vc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    return m_unlock(m);
}
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) {
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) {
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
    return m_lock((void*)m);
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
    return m_trylock((void*)m, PC);
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    return m_unlock((void*)m);
}
int pthread_spin_init(pthread_spinlock_t*, int) {
    return 0;
}
int pthread_spin_destroy(pthread_spinlock_t*) {
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    return c_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    return c_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
    return c_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    return c_notify(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    return c_notify(c, true);
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) {
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) {
    return 0;
}
int sched_yield(void) {
    if (!off() && cur != 0) {
        Guard g;
        fib[cur].yield_at = gver;
        fib[cur].first_after_call = false;
        point(YIELD, nullptr);
    }
    return 0;
}
int nanosleep(const struct timespec*, struct timespec*) {
    return sched_yield();
}
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) {
    return sched_yield();
}
int usleep(unsigned) {
    return sched_yield();
}

#define RW(n)                                                    \
    void __tsan_read##n(void* p) { plain(p, n, false); }         \
    void __tsan_write##n(void* p) { plain(p, n, true); }         \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { plain(p, n, true); } \
    void __tsan_read_write##n(void* p) { plain(p, n, true); }    \
    void __tsan_unaligned_read_write##n(void* p) { plain(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { plain(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { plain(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { plain(p, n, false); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    plain(s, n, false);
    plain(d, n, true);
    return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    return __tsan_memcpy(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    plain(d, n, true);
    return memset(d, c, n);
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (!off()) {
        plain(s, n, false);
        plain(d, n, true);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (!off()) {
        plain(s, n, false);
        plain(d, n, true);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (!off())
        plain(d, n, true);
    return __real_memset(d, c, n);
}
void __tsan_atomic_thread_fence(int mo) {
    if (off())
        return;
    Guard g;
    Fiber& f = fib[cur];
    if (acq(mo))
        f.vc.join(f.facq);
    if (rel(mo)) {
        f.frel = f.vc;
        f.has_frel = true;
        ++f.vc.c[cur];
    }
}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T)                                                                                                     \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return at_load<T>(p, mo, PC); }                         \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_store<T>(p, v, mo, PC); }                         \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T o) { return T(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T o) { return T(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T o) { return T(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T o) { return T(o | v); }); }  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T o) { return T(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [=](T o) { return T(~(o & v)); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int f) { return at_cas<T>(p, e, d, mo, f, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int f) { return at_cas<T>(p, e, d, mo, f, PC); }   \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int f) { at_cas<T>(p, &e, d, mo, f, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

static void setup() {
    for (size_t i = 0; i < all().size(); ++i) {
        const mcs::Scenario* s = &all()[i];
        mc::add_choice(s->name, [s] { exec(*s); }, s->shards, false);
    }
}
void mcs_register();
int main(int argc, char** argv) {
    mcs_register();
    return mc::main_(argc, argv, setup);
}
