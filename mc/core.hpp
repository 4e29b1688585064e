// Exhaustive explorer for sequential code: runs the real code for every choice sequence within a
// bound.  C++11, no dependency on efp.  Two styles of scenario:
//   * choice scenarios: a function that calls mc::choose(n) wherever it needs an input; it is
//     re-executed for every possible sequence of answers (depth first).
//   * worlds: a class with operations; every operation sequence up to a depth is run from a fresh
//     world (no state merging), and in addition a breadth-first search that merges states with equal
//     canonical keys goes deeper.
#ifndef MC_CORE_HPP
#define MC_CORE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <unordered_set>
#include <functional>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
    #define MC_ASAN 1
#elif defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define MC_ASAN 1
    #endif
#endif
#ifdef MC_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void*, size_t), void (*)(const volatile void*)
);
#endif

namespace mc {

struct Journal {
    volatile uint64_t execs;
    volatile uint32_t len;
    volatile uint32_t hang;
    volatile uint16_t c[8192];
};

struct Stats {
    uint64_t execs = 0, transitions = 0, states = 0, abandoned = 0;
    int depth = 0;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
};

struct Violation {
    std::string msg;
};

struct Core {
    Journal* j = nullptr;
    bool log_on = false;
    std::string log;
    bool thorough = false;
    bool flag = false;     // harness specific
    int bound_scale = 0;   // <0: reduced bounds (secondary compilers)
    unsigned shard = 0, shards = 1;
    // choice replay / enumeration
    std::vector<int> cur, cnt;
    size_t pos = 0;
    bool forced = false;  // replaying a fixed list: never enumerate
    Stats st;
    long mallocs = 0;      // live malloc blocks
    long bytes = 0;
    uint64_t alloc_calls = 0;
    uint64_t pending = 0;
    bool has_pending = false;
};

inline Core& core() {
    static Core c;
    return c;
}

// ---- logging / failing -------------------------------------------------------------------------
inline void vappend(std::string& s, const char* f, va_list ap) {
    char b[1024];
    vsnprintf(b, sizeof b, f, ap);
    s += b;
}

__attribute__((format(printf, 1, 2))) inline void note(const char* f, ...) {
    if (!core().log_on)
        return;
    va_list ap;
    va_start(ap, f);
    vappend(core().log, f, ap);
    va_end(ap);
    core().log += "; ";
}

__attribute__((format(printf, 1, 2), noreturn)) inline void fail(const char* f, ...) {
    std::string s;
    va_list ap;
    va_start(ap, f);
    vappend(s, f, ap);
    va_end(ap);
    // report and leave at once: the process state cannot be trusted any more
    fflush(stdout);
    printf("\nMCFAIL %s\nMCLOG %s\n", s.c_str(), core().log.c_str());
    fflush(stdout);
    _exit(97);
}

// MC_LIFETIME_ONLY: only the lifetime of elements, the sanitizers and leftovers are judged; a history in
// which the contents differ from the model is abandoned (another property's business)
struct SkipHistory {};
#ifdef MC_LIFETIME_ONLY
    #define MC_CHECK(cond, ...)              \
        do {                                 \
            if (!(cond))                     \
                throw ::mc::SkipHistory();   \
        } while (0)
#else
    #define MC_CHECK(cond, ...)              \
        do {                                 \
            if (!(cond))                     \
                ::mc::fail(__VA_ARGS__);     \
        } while (0)
#endif

// ---- choices -----------------------------------------------------------------------------------
inline bool shard_ok(size_t pos, int c0, int n1, int v) {
    if (core().shards <= 1 || pos != 1)
        return true;
    return (unsigned(c0) * unsigned(n1) + unsigned(v)) % core().shards == core().shard;
}

struct SkipExec {};

inline int choose(int n) {
    Core& c = core();
    if (n <= 0)
        fail("harness error: choose(%d)", n);
    if (c.pos < c.cur.size()) {
        int v = c.cur[c.pos];
        if (c.forced) {
            if (v >= n)
                fail("harness error: replay diverged (choice %d of %d)", v, n);
        } else if (c.cnt[c.pos] != n)
            fail("harness error: nondeterministic choice point (%d vs %d)", c.cnt[c.pos], n);
        c.j->c[c.pos] = uint16_t(v);
        ++c.pos;
        c.j->len = uint32_t(c.pos);
        return v;
    }
    if (c.forced)
        fail("harness error: replay list too short");
    int v = 0;
    if (c.pos == 1 && c.shards > 1) {
        while (v < n && !shard_ok(1, c.cur[0], n, v))
            ++v;
        if (v >= n) {
            // nothing for this shard below this first choice
            c.cur.push_back(n - 1);
            c.cnt.push_back(n);
            ++c.pos;
            throw SkipExec();
        }
    }
    c.cur.push_back(v);
    c.cnt.push_back(n);
    if (c.pos >= 8192)
        fail("harness error: too many choices");
    c.j->c[c.pos] = uint16_t(v);
    ++c.pos;
    c.j->len = uint32_t(c.pos);
    return v;
}

// true iff every choice made so far from position p on is the first alternative (used to check each
// prefix only once)
inline bool advance() {
    Core& c = core();
    while (!c.cur.empty()) {
        int p = int(c.cur.size()) - 1;
        int v = c.cur[p] + 1;
        if (p == 1 && c.shards > 1)
            while (v < c.cnt[p] && !shard_ok(1, c.cur[0], c.cnt[1], v))
                ++v;
        if (v < c.cnt[p]) {
            c.cur[p] = v;
            return true;
        }
        c.cur.pop_back();
        c.cnt.pop_back();
    }
    return false;
}

// ---- allocation accounting ---------------------------------------------------------------------
#ifdef MC_ASAN
inline void hook_malloc(const volatile void*, size_t) {
    ++core().mallocs;
    ++core().alloc_calls;
}
inline void hook_free(const volatile void* p) {
    if (p)
        --core().mallocs;
}
#endif

// ---- hashing -----------------------------------------------------------------------------------
struct Hash {
    uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    void u(uint64_t x) {
        a ^= x;
        a *= 0xff51afd7ed558ccdull;
        a ^= a >> 32;
        b += x * 0x9FB21C651E98DF25ull + 1;
        b = (b << 23 | b >> 41) * 0xD6E8FEB86659FD93ull;
    }
    void bytes(const void* p, size_t n) {
        const unsigned char* q = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i)
            u(q[i] + 256);
    }
    uint64_t get() const {
        return a ^ (b << 1 | b >> 63);
    }
};

// Object representation with pointers made position independent: words that point into the object
// become offsets, words that look like other addresses become a marker.
inline void hash_raw(Hash& h, const void* obj, size_t n) {
    const char* o = (const char*)obj;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w;
        memcpy(&w, o + i, 8);
        uint64_t base = (uint64_t)(uintptr_t)o;
        if (w >= base && w <= base + n)
            h.u((w - base) | (1ull << 62));
        else if (w >= 0x100000000ull && w < 0x800000000000ull && (w & 0xffff) != 0xa5a5)
            h.u(1ull << 61);
        else
            h.u(w);
    }
    for (; i < n; ++i)
        h.u((unsigned char)o[i]);
}

// ---- lifetime-tracked element ------------------------------------------------------------------
struct Registry {
    enum { N = 1 << 14 };
    const void* slot[N];
    int live = 0;
    Registry() {
        memset((void*)slot, 0, sizeof slot);
    }
    static size_t h(const void* p) {
        return ((uintptr_t)p >> 2) * 0x9E3779B97F4A7C15ull >> 50;
    }
    bool has(const void* p) const {
        for (size_t i = h(p);; i = (i + 1) & (N - 1)) {
            if (slot[i] == p)
                return true;
            if (!slot[i])
                return false;
        }
    }
    bool add(const void* p) {
        size_t i = h(p);
        for (;; i = (i + 1) & (N - 1)) {
            if (slot[i] == p)
                return false;
            if (!slot[i])
                break;
        }
        slot[i] = p;
        if (++live > N / 2)
            fail("more than %d element objects alive (unbounded growth)", int(N / 2));
        return true;
    }
    bool del(const void* p) {
        size_t i = h(p);
        for (;; i = (i + 1) & (N - 1)) {
            if (slot[i] == p)
                break;
            if (!slot[i])
                return false;
        }
        --live;
        // backward shift deletion
        size_t j = i;
        for (;;) {
            slot[i] = nullptr;
            for (;;) {
                j = (j + 1) & (N - 1);
                if (!slot[j])
                    return true;
                size_t k = h(slot[j]);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j))
                    continue;
                break;
            }
            slot[i] = slot[j];
            i = j;
        }
    }
};

inline Registry& reg() {
    static Registry r;
    return r;
}

enum { MOVED = -7777, DEAD = -8888 };

struct Tracked {
    int v;
    void born() {
        if (!reg().add(this))
            fail("element constructed on top of a live element");
    }
    static void alive(const void* p, const char* what) {
        if (!reg().has(p))
            fail("%s a destroyed or never constructed element", what);
    }
    Tracked() : v(0) {
        born();
    }
    Tracked(int x) : v(x) {
        born();
    }
    Tracked(const Tracked& o) {
        alive(&o, "copy from");
        v = o.v;
        born();
    }
    Tracked(Tracked&& o) noexcept {
        alive(&o, "move from");
        v = o.v;
        o.v = MOVED;
        born();
    }
    Tracked& operator=(const Tracked& o) {
        alive(this, "assignment to");
        alive(&o, "assignment from");
        v = o.v;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        alive(this, "move assignment to");
        alive(&o, "move assignment from");
        int x = o.v;
        o.v = MOVED;
        v = x;
        return *this;
    }
    ~Tracked() {
        if (!reg().del(this))
            fail("destruction of an element that is not alive");
        v = DEAD;
    }
    bool operator==(const Tracked& o) const {
        alive(this, "comparison of");
        alive(&o, "comparison with");
        return v == o.v;
    }
    bool operator!=(const Tracked& o) const {
        return !(*this == o);
    }
    bool operator<(const Tracked& o) const {
        alive(this, "comparison of");
        alive(&o, "comparison with");
        return v < o.v;
    }
};

inline int val(int x) {
    return x;
}
inline int val(const Tracked& t) {
    Tracked::alive(&t, "read of");
    return t.v;
}

inline int val(const std::string& s) {
    return s.empty() ? 0 : (s[0] == 'v' ? atoi(s.c_str() + 1) : DEAD);
}

// a recursive element: a list of Bags is a Bag. Copying one must never take it for a list of one.
// Trivially copyable, but equal ones differ in their bytes.
struct BagItem;
struct Bag {
    int v;
    unsigned stamp;
    static unsigned next() {
        static unsigned n = 0;
        return ++n;
    }
    Bag() : v(0), stamp(next()) {}
    explicit Bag(int x) : v(x), stamp(next()) {}
    Bag(std::initializer_list<BagItem>) : v(DEAD), stamp(0) {
        MC_CHECK(false, "a copy of an element was made through its initializer_list constructor");
    }
    bool operator==(const Bag& o) const {
        return v == o.v;
    }
    bool operator<(const Bag& o) const {
        return v < o.v;
    }
};
struct BagItem {
    int v;
    BagItem(const Bag& b) : v(b.v) {}
};
inline int val(const Bag& b) {
    return b.v;
}

// element values
template<typename T>
struct Mk {
    static T mk(int v) {
        return T(v);
    }
};
template<>
struct Mk<std::string> {
    static std::string mk(int v) {
        return v == 0 ? std::string() : "v" + std::to_string(v) + " a string too long for in-place storage";
    }
};
template<typename T>
T mk(int v) {
    return Mk<T>::mk(v);
}

// Storage for one object, filled with a pattern first so that reads of uninitialised members are
// deterministic and never look like valid values.
template<typename C>
struct Cell {
    alignas(C) unsigned char raw[sizeof(C)];
    bool live;
    Cell() : live(false) {}
    ~Cell() {
        if (live)
            get().~C();
    }
    Cell(const Cell&) = delete;
    Cell& operator=(const Cell&) = delete;
    void* blank() {
        if (live)
            get().~C();
        live = true;
        memset(raw, 0xA5, sizeof raw);
        __asm__ volatile("" : : "r"(raw) : "memory");
        return raw;
    }
    C& get() {
        return *reinterpret_cast<C*>(raw);
    }
    C& operator*() {
        return get();
    }
    C* operator->() {
        return &get();
    }
};

// ---- execution bracket -------------------------------------------------------------------------
struct Bracket {
    long m0;
    int l0;
    Bracket() {
        m0 = core().mallocs;
        l0 = reg().live;
    }
    // returns a description of what is left over, or nullptr
    const char* leftovers() const {
        if (reg().live != l0)
            return "element objects are still alive after every container is gone";
        if (core().mallocs != m0)
            return "heap memory is still allocated after every container is gone";
        return nullptr;
    }
};

inline void start_exec() {
    Core& c = core();
    c.pos = 0;
    c.j->len = 0;
    c.j->execs = c.j->execs + 1;
    c.log.clear();
}

inline void keep_sample() {
    Core& c = core();
    if (c.log_on && !c.log.empty()) {
        if (c.st.samples.size() >= 6)
            c.st.samples.erase(c.st.samples.begin() + 1);
        c.st.samples.push_back(c.log.substr(0, 600));
    }
}

inline bool sample_exec(uint64_t i) {
    return (i & (i - 1)) == 0 || i == 100 || i == 10000 || i == 1000000;
}

// may be called from inside an execution: stored outside of the allocation accounting
inline void outcome(uint64_t h) {
    core().pending = h;
    core().has_pending = true;
}

inline void flush_outcome() {
    Core& c = core();
    if (c.has_pending && c.st.outcomes.size() < 2000000)
        c.st.outcomes.insert(c.pending);
    c.has_pending = false;
}

// ---- choice scenarios --------------------------------------------------------------------------
typedef std::function<void()> Body;

inline void run_one(const Body& b, bool leakcheck) {
    start_exec();
    if (!leakcheck) {
        try {
            b();
        } catch (SkipExec&) {
        } catch (SkipHistory&) {
            ++core().st.abandoned;
        }
        return;
    }
    Bracket br;
    // reserve so that the explorer's own vectors do not disturb the accounting
    core().cur.reserve(8192);
    core().cnt.reserve(8192);
    core().log.reserve(4096);
    br = Bracket();
    try {
        b();
    } catch (SkipExec&) {
    } catch (SkipHistory&) {
        ++core().st.abandoned;
    }
    const char* l = br.leftovers();
    if (l) {
        // lazily initialised library state is not a leak: must reproduce (twice)
        bool again = true;
        for (int k = 0; k < 2 && again; ++k) {
            std::vector<int> cur = core().cur, cnt = core().cnt;
            size_t pos = core().pos;
            bool forced = core().forced;
            core().cur.resize(pos);
            core().forced = true;
            core().log.clear();
            core().pos = 0;
            Bracket b2;
            try {
                b();
            } catch (SkipExec&) {
            } catch (SkipHistory&) {
            }
            again = b2.leftovers() != nullptr;
            core().cur = cur;
            core().cnt = cnt;
            core().pos = pos;
            core().forced = forced;
        }
        if (again)
            fail("%s", l);
    }
}

// ---- scenario registry -------------------------------------------------------------------------
struct Scenario {
    std::string name;
    std::function<int()> shards;
    std::function<void()> explore;
    std::function<void(const std::vector<int>&)> replay;
};

inline std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> s;
    return s;
}

inline void add_choice(const std::string& name, const Body& body, int shards = 1, bool leak = true) {
    Scenario s;
    s.name = name;
    s.shards = [shards]() { return shards; };
    s.explore = [body, leak]() {
        Core& c = core();
        c.cur.clear();
        c.cnt.clear();
        do {
            c.log_on = sample_exec(c.st.execs + 1);
            size_t before = c.cur.size();
            (void)before;
            run_one(body, leak);
            ++c.st.execs;
            flush_outcome();
            if (int(c.pos) > c.st.depth)
                c.st.depth = int(c.pos);
            keep_sample();
            // everything beyond pos was not consumed by this execution: must not happen
            if (c.pos != c.cur.size())
                fail("harness error: execution consumed %zu of %zu choices", c.pos, c.cur.size());
        } while (advance());
    };
    s.replay = [body, leak](const std::vector<int>& l) {
        Core& c = core();
        c.forced = true;
        c.cur = l;
        c.cnt.clear();
        c.log_on = true;
        run_one(body, leak);
    };
    scenarios().push_back(s);
}

// ---- worlds ------------------------------------------------------------------------------------
// W: W(); static int nops(); bool enabled(int op); void apply(int op); void check(); void key(Hash&)
struct Bounds {
    int dfs, bfs, tdfs, tbfs;
    uint64_t max_states;
};

template<typename W>
void exec_history(const std::vector<int>& h, size_t check_from, Hash* key, std::vector<char>* en) {
    start_exec();
    Core& c = core();
    W* w = nullptr;
    try {
        w = new W();
        for (size_t i = 0; i < h.size(); ++i) {
            c.j->c[i] = uint16_t(h[i]);
            c.j->len = uint32_t(i + 1);
            w->apply(h[i]);
            if (i + 1 >= check_from)
                w->check();
        }
        if (key)
            w->key(*key);
        if (en)
            for (int o = 0; o < W::nops(); ++o)
                (*en)[o] = w->enabled(o);
    } catch (SkipHistory&) {
        ++c.st.abandoned;
        if (en)
            en->assign(size_t(W::nops()), 0);
    }
    delete w;
}

template<typename W>
void run_history(const std::vector<int>& h, size_t check_from, Hash* key, std::vector<char>* en) {
    core().log.reserve(4096);
    Bracket br;
    exec_history<W>(h, check_from, key, en);
    const char* l = br.leftovers();
    if (l) {
        for (int k = 0; k < 2; ++k) {
            Bracket b2;
            exec_history<W>(h, check_from, nullptr, nullptr);
            if (!b2.leftovers())
                return;
        }
        fail("%s", l);
    }
}

template<typename W>
void dfs_worlds(int depth) {
    Core& c = core();
    int n = W::nops();
    // all sequences of exactly `len` enabled ops for len = 1..depth; each sequence is executed from a
    // fresh world and checked after its last operation
    std::vector<int> h;
    std::vector<std::vector<char>> en;
    en.push_back(std::vector<char>(n));
    run_history<W>(h, 1, nullptr, &en[0]);
    std::vector<int> idx(1, -1);
    while (!idx.empty()) {
        int d = int(idx.size()) - 1;
        int o = idx[d] + 1;
        while (o < n
               && (!en[d][o]
                   || (d == 1 && c.shards > 1
                       && unsigned(h[0] * n + o) % c.shards != c.shard)))
            ++o;
        if (o >= n) {
            idx.pop_back();
            en.pop_back();
            if (!h.empty())
                h.pop_back();
            continue;
        }
        idx[d] = o;
        h.resize(d);
        h.push_back(o);
        bool leaf = d + 1 >= depth;
        c.log_on = sample_exec(c.st.execs + 1);
        std::vector<char> e(n);
        Hash k;
        run_history<W>(h, h.size(), &k, leaf ? nullptr : &e);
        outcome(k.get());
        flush_outcome();
        ++c.st.execs;
        ++c.st.transitions;
        keep_sample();
        if (!leaf) {
            en.push_back(e);
            idx.push_back(-1);
        } else
            h.pop_back();
    }
    c.st.depth = depth;
}

template<typename W>
void bfs_worlds(int depth, uint64_t max_states) {
    Core& c = core();
    int n = W::nops();
    struct Node {
        std::vector<unsigned char> h;
        std::vector<bool> en;
    };
    std::unordered_set<uint64_t> seen;
    std::vector<Node> cur, nxt;
    std::vector<char> e(n);
    Hash k0;
    run_history<W>(std::vector<int>(), 1, &k0, &e);
    seen.insert(k0.get());
    cur.push_back(Node {{}, std::vector<bool>(e.begin(), e.end())});
    int d = 0;
    bool capped = false;
    for (; d < depth && !cur.empty() && !capped; ++d) {
        nxt.clear();
        for (size_t i = 0; i < cur.size() && !capped; ++i) {
            for (int o = 0; o < n; ++o) {
                if (!cur[i].en[o])
                    continue;
                std::vector<int> h(cur[i].h.begin(), cur[i].h.end());
                h.push_back(o);
                Hash k;
                c.log_on = sample_exec(c.st.execs + 1);
                run_history<W>(h, h.size(), &k, &e);
                ++c.st.execs;
                ++c.st.transitions;
                keep_sample();
                if (seen.insert(k.get()).second) {
                    Node nd;
                    nd.h.assign(h.begin(), h.end());
                    nd.en.assign(e.begin(), e.end());
                    nxt.push_back(nd);
                    if (seen.size() >= max_states) {
                        capped = true;
                        break;
                    }
                }
            }
        }
        cur.swap(nxt);
    }
    c.st.states += seen.size();
    c.st.depth = capped ? d - 1 : d;
    printf("MCINFO bfs depth_completed=%d closed=%d capped=%d\n", capped ? d - 1 : d, int(cur.empty() && !capped), int(capped));
}

template<typename W>
void add_world(const std::string& name, Bounds b, int shards = 8) {
    {
        Scenario s;
        s.name = name + "/seq";
        s.shards = [shards]() { return shards; };
        s.explore = [b]() {
            int d = core().thorough ? b.tdfs : b.dfs;
            d += core().bound_scale;
            if (d < 2)
                d = 2;
            dfs_worlds<W>(d);
        };
        s.replay = [](const std::vector<int>& l) {
            core().log_on = true;
            run_history<W>(l, 1, nullptr, nullptr);
        };
        scenarios().push_back(s);
    }
    if (b.bfs > 0) {
        Scenario s;
        s.name = name + "/states";
        s.shards = []() { return 1; };
        s.explore = [b]() {
            int d = core().thorough ? b.tbfs : b.bfs;
            d += core().bound_scale;
            bfs_worlds<W>(d, core().thorough ? b.max_states * 8 : b.max_states);
        };
        s.replay = [](const std::vector<int>& l) {
            core().log_on = true;
            run_history<W>(l, 1, nullptr, nullptr);
        };
        scenarios().push_back(s);
    }
}

// ---- main --------------------------------------------------------------------------------------
inline int& hang_seconds() {
    static int s = 25;
    return s;
}

inline void on_alarm(int) {
    static uint64_t last = 0;
    static int same = 0;
    Core& c = core();
    if (c.j->execs == last) {
        if (++same >= hang_seconds()) {
            c.j->hang = 1;
            const char m[] = "\nMCFAIL execution does not terminate\n";
            ssize_t r = write(1, m, sizeof m - 1);
            (void)r;
            _exit(96);
        }
    } else {
        last = c.j->execs;
        same = 0;
    }
}

inline std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += char(ch);
        } else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += char(ch);
    }
    return o + "\"";
}

inline int main_(int argc, char** argv, void (*setup)()) {
    Core& c = core();
    std::string scenario, replay, journal;
    bool list = false, do_replay = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--list")
            list = true;
        else if (a == "--thorough")
            c.thorough = true;
        else if (a == "--flag")
            c.flag = true;
        else if (a == "--scale")
            c.bound_scale = atoi(next().c_str());
        else if (a == "--scenario")
            scenario = next();
        else if (a == "--shard") {
            std::string s = next();
            sscanf(s.c_str(), "%u/%u", &c.shard, &c.shards);
        } else if (a == "--journal")
            journal = next();
        else if (a == "--hang")
            hang_seconds() = atoi(next().c_str());
        else if (a == "--replay") {
            do_replay = true;
            replay = next();
        }
    }
    if (!journal.empty()) {
        int fd = open(journal.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Journal)) != 0)
            return 3;
        c.j = (Journal*)mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else
        c.j = (Journal*)calloc(1, sizeof(Journal));
    reg();
    setup();
    if (list) {
        for (auto& s : scenarios())
            printf("%s %d\n", s.name.c_str(), s.shards());
        return 0;
    }
#ifdef MC_ASAN
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    signal(SIGALRM, on_alarm);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    for (auto& s : scenarios())
        if (s.name == scenario) {
            if (do_replay) {
                std::vector<int> l;
                const char* p = replay.c_str();
                while (*p) {
                    l.push_back(int(strtol(p, (char**)&p, 10)));
                    if (*p == ',')
                        ++p;
                }
                s.replay(l);
                printf("MCREPLAY ok\nMCLOG %s\n", c.log.c_str());
                return 0;
            }
            s.explore();
            std::string o = "MCDONE {\"scenario\":" + jesc(scenario);
            char b[256];
            snprintf(
                b,
                sizeof b,
                ",\"execs\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%zu,\"depth\":%d,\"abandoned\":%llu",
                (unsigned long long)c.st.execs,
                (unsigned long long)c.st.transitions,
                (unsigned long long)c.st.states,
                c.st.outcomes.size(),
                c.st.depth,
                (unsigned long long)c.st.abandoned
            );
            o += b;
            o += ",\"samples\":[";
            for (size_t i = 0; i < c.st.samples.size(); ++i)
                o += (i ? "," : "") + jesc(c.st.samples[i]);
            o += "]}";
            printf("\n%s\n", o.c_str());
            fflush(stdout);
            _exit(0);
        }
    fprintf(stderr, "unknown scenario %s\n", scenario.c_str());
    return 3;
}

}  // namespace mc
#endif
