// Every sorting function on every short sequence and on structured families of longer ones.
#include "efp.hpp"
#include "mc/core.hpp"
#include <algorithm>
#include <pthread.h>
using namespace mc;

// key decides the order, tag tells equal elements apart
struct Item {
    Tracked k;
    int tag;
    Item() : k(0), tag(-1) {}
    Item(int key, int t) : k(key), tag(t) {}
};
static bool operator<(const Item& a, const Item& b) {
    return a.k < b.k;
}
static bool operator==(const Item& a, const Item& b) {
    return a.k == b.k && a.tag == b.tag;
}
static bool operator!=(const Item& a, const Item& b) {
    return !(a == b);
}
static int key_of(const Item& i) {
    return val(i.k);
}
static int key_of(int i) {
    return i;
}
static int key_of(double i) {
    return int(i);
}
static int key_of(const std::string& s) {
    return s.empty() ? -1 : s[0] - 'a';
}
static int tag_of(const Item& i) {
    return i.tag;
}
template<typename T>
static int tag_of(const T&) {
    return -1;
}
template<typename T>
struct Make {
    static T mk(int k, int) {
        return T(k);
    }
};
template<>
struct Make<Item> {
    static Item mk(int k, int t) {
        return Item(k, t);
    }
};
template<>
struct Make<std::string> {
    static std::string mk(int k, int) {
        return std::string(1, char('a' + k)) + " and a tail that does not fit into the object";
    }
};

enum Alg {
    SORT, SORT_U, TIM, INS, HEAP, QUICK, INTRO,                                      // default order
    SORT_BY, SORT_U_BY, TIM_BY, INS_BY, HEAP_BY, QUICK_BY, INTRO_BY, MERGE_BY, NALG  // given order
};
static const char* alg_name(int a) {
    static const char* n[] = {"sort", "sort_unstable", "timsort", "insertion_sort", "heapsort", "quicksort", "size_trosort", "sort_by", "sort_unstable_by",
                              "timsort_by", "insertion_sort_by", "heapsort_by", "quicksort_by", "size_trosort_by", "merge_sort_by"};
    return n[a];
}
static bool stable(int a) {
    return a == SORT || a == TIM || a == INS || a == SORT_BY || a == TIM_BY || a == INS_BY || a == MERGE_BY;
}

// strict weak orders on keys
struct Less {
    int o;
    bool k(int a, int b) const {
        switch (o) {
            case 0: return a < b;
            case 1: return a > b;
            case 2: return a % 2 < b % 2;
            case 3: return a / 2 > b / 2;
            default: return false;  // everything is equivalent
        }
    }
    template<typename T>
    bool operator()(const T& a, const T& b) const {
        return k(key_of(a), key_of(b));
    }
};

// free function comparators are used as well
template<typename T>
static bool fn_less(const T& a, const T& b) {
    return key_of(a) < key_of(b);
}

template<typename T>
static void run(int alg, const Less& c, efp::Vector<T>& v, int lo, int hi) {
    switch (alg) {
        case SORT: efp::sort(v); break;
        case SORT_U: efp::sort_unstable(v); break;
        case TIM: efp::timsort(v); break;
        case INS: efp::insertion_sort(v); break;
        case HEAP: efp::heapsort(v); break;
        case QUICK: efp::quicksort(v); break;
        case INTRO: efp::size_trosort(v); break;
        case SORT_BY: efp::sort_by(v, c); break;
        case SORT_U_BY: efp::sort_unstable_by(v, c); break;
        case TIM_BY: efp::timsort_by(v, c); break;
        case INS_BY: efp::insertion_sort_by(v, c); break;
        case HEAP_BY: efp::heapsort_by(v, c); break;
        case QUICK_BY: efp::quicksort_by(v, size_t(lo), size_t(hi), c); break;
        case INTRO_BY: efp::size_trosort_by(v, c); break;
        case MERGE_BY: efp::merge_sort_by(v, size_t(lo), size_t(hi), c); break;
    }
}

template<typename T>
static void one(int alg, int order, const std::vector<int>& in, int lo = 0, int hi = -2) {
    Less c = {alg >= SORT_BY ? order : 0};
    int n = int(in.size());
    if (hi == -2)
        hi = n - 1;
    if ((alg == QUICK_BY || alg == MERGE_BY) && n == 0)
        return;  // their inclusive bounds cannot name an empty range
    if (core().log_on) {
        std::string s;
        for (int i = 0; i < n && i < 140; ++i)
            s += std::to_string(in[i]) + " ";
        note("%s order %d [%d..%d] of %d: %s", alg_name(alg), c.o, lo, hi, n, s.c_str());
    }
    efp::Vector<T> v;
    for (int i = 0; i < n; ++i)
        v.push_back(Make<T>::mk(in[i], i));
    run(alg, c, v, lo, hi);
    MC_CHECK(int(v.size()) == n, "%s changed the length to %zu", alg_name(alg), v.size());
    std::vector<std::pair<int, int>> e;
    for (int i = 0; i < n; ++i)
        e.push_back(std::make_pair(in[i], i));
    std::stable_sort(e.begin() + lo, e.begin() + (hi + 1), [&](const std::pair<int, int>& a, const std::pair<int, int>& b) { return c.k(a.first, b.first); });
    bool tags = std::is_same<T, Item>::value;
    std::vector<char> seen(size_t(n), 0);
    Hash h;
    for (int i = 0; i < n; ++i) {
        int k = key_of(v[i]);
        h.u(uint64_t(k + 100));
        if (i < lo || i > hi)
            MC_CHECK(k == in[i] && (!tags || tag_of(v[i]) == i), "%s changed element %d outside of its range", alg_name(alg), i);
        if (stable(alg)) {
            MC_CHECK(k == e[i].first, "%s: element %d has key %d, expected %d", alg_name(alg), i, k, e[i].first);
            if (tags)
                MC_CHECK(tag_of(v[i]) == e[i].second, "%s: element %d is the one from position %d, expected %d (not stable)", alg_name(alg), i, tag_of(v[i]), e[i].second);
        } else {
            if (i > lo && i <= hi)
                MC_CHECK(!c.k(k, key_of(v[i - 1])), "%s: elements %d and %d are out of order", alg_name(alg), i - 1, i);
            if (tags) {
                int t = tag_of(v[i]);
                MC_CHECK(t >= 0 && t < n && !seen[t] && in[t] == k, "%s: element %d is not one of the original elements", alg_name(alg), i);
                seen[t] = 1;
            }
        }
    }
    if (!tags) {
        std::vector<int> a = in, b;
        for (int i = 0; i < n; ++i)
            b.push_back(key_of(v[i]));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        MC_CHECK(a == b, "%s lost or duplicated elements", alg_name(alg));
    }
    outcome(h.get());
}

// the stack a sort needs does not grow with the length: run on a small one, an overflow is a crash
static const size_t small_stack = 256 * 1024;

template<typename F>
static void on_small_stack(F f) {
    struct Call {
        F& f;
        std::exception_ptr thrown;
        static void* go(void* p) {
            Call& c = *static_cast<Call*>(p);
            try {
                c.f();
            } catch (...) {
                c.thrown = std::current_exception();
            }
            return nullptr;
        }
    } call = {f, nullptr};
    pthread_attr_t at;
    pthread_t th;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, small_stack);
    if (pthread_create(&th, &at, Call::go, &call) != 0)
        abort();
    pthread_join(th, nullptr);
    pthread_attr_destroy(&at);
    if (call.thrown)
        std::rethrow_exception(call.thrown);
}

// lengths no recursion per element survives, in the orders that are extreme for one sort or the other
static int choose_alg();

template<typename T>
static void deep(int n) {
    int alg = choose_alg();
    int f = choose(6);
    Less c = {0};
    std::vector<int> in;
    for (int i = 0; i < n; ++i)
        switch (f) {
            case 0: in.push_back(i); break;
            case 1: in.push_back(n - i); break;
            case 2: in.push_back(7); break;
            case 3: in.push_back(i < n / 2 ? i : n - i); break;
            case 4: in.push_back(i % 2); break;
            default: in.push_back(i + 1 < n ? i + 1 : 0);
        }
    note("%s of %d elements, order %d", alg_name(alg), n, f);
    efp::Vector<T> v;
    for (int i = 0; i < n; ++i)
        v.push_back(Make<T>::mk(in[i], i));
    on_small_stack([&] { run(alg, c, v, 0, n - 1); });
    std::sort(in.begin(), in.end());
    Hash h;
    MC_CHECK(int(v.size()) == n, "%s changed the length to %zu", alg_name(alg), v.size());
    for (int i = 0; i < n; ++i) {
        MC_CHECK(key_of(v[i]) == in[i], "%s: element %d has key %d, expected %d", alg_name(alg), i, key_of(v[i]), in[i]);
        h.u(uint64_t(in[i]));
    }
    outcome(h.get());
}

static int choose_alg() {
    return choose(NALG);
}
static int choose_order(int alg) {
    return alg >= SORT_BY ? choose(5) : 0;
}

// every sequence over {0..k-1} of every length up to maxn
template<typename T>
static void all(int k, int maxn) {
    int alg = choose_alg();
    int n = choose(maxn + 1);
    int o = choose_order(alg);
    std::vector<int> in;
    for (int i = 0; i < n; ++i)
        in.push_back(choose(k));
    one<T>(alg, o, in);
}

// every permutation of n
template<typename T>
static void perms(int n) {
    int alg = choose_alg();
    std::vector<int> rest, in;
    for (int i = 0; i < n; ++i)
        rest.push_back(i);
    while (!rest.empty()) {
        int i = choose(int(rest.size()));
        in.push_back(rest[i]);
        rest.erase(rest.begin() + i);
    }
    one<T>(alg, 0, in);
}

// the sorts that take bounds leave everything outside of them alone
template<typename T>
static void ranges(int k, int maxn) {
    int alg = choose(2) ? MERGE_BY : QUICK_BY;
    int n = 1 + choose(maxn);
    int lo = choose(n), hi = lo + choose(n - lo);
    int o = choose(2);
    std::vector<int> in;
    for (int i = 0; i < n; ++i)
        in.push_back(choose(k));
    one<T>(alg, o, in, lo, hi);
}

static const int lens[] = {16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 160, 161, 192, 193, 200, 255, 256, 257, 300};

// long sequences: sorted / reversed / constant / sawtooth / block patterns
template<typename T>
static void shapes() {
    int alg = choose_alg();
    int n = lens[choose(int(sizeof lens / sizeof *lens))];
    int o = alg >= SORT_BY ? choose(3) : 0;
    int f = choose(9);
    int p = choose(f == 4 || f == 5 ? 12 : f == 8 ? 24 : 1);
    std::vector<int> in;
    for (int i = 0; i < n; ++i)
        switch (f) {
            case 0: in.push_back(i); break;
            case 1: in.push_back(n - i); break;
            case 2: in.push_back(7); break;
            case 3: in.push_back(i < n / 2 ? i : n - i); break;
            case 4: in.push_back(i % (p + 2)); break;
            case 5: in.push_back(i * (2 * p + 3) % 101); break;
            case 6: in.push_back(i ^ 1); break;
            case 7: in.push_back(int(unsigned(i) * 2654435761u >> 20 & 63)); break;
            default: {
                // blocks of 32 in every order of four block keys
                int perm[4] = {0, 1, 2, 3};
                for (int q = 0; q < p; ++q)
                    std::next_permutation(perm, perm + 4);
                in.push_back(perm[(i / 32) % 4] * 40 + i % 32);
            }
        }
    one<T>(alg, o, in);
}

// sorted up to one element that sits anywhere else
template<typename T>
static void displaced(int n, int step) {
    int alg = choose_alg();
    int from = choose((n + step - 1) / step) * step;
    int to = choose((n + step - 1) / step) * step;
    std::vector<int> in;
    for (int i = 0; i < n; ++i)
        in.push_back(i / 2);
    int x = in[from];
    in.erase(in.begin() + from);
    in.insert(in.begin() + to, x);
    one<T>(alg, 0, in);
}

// runs of 32 that each start with a zeros, followed by ones: all ways two (or more) runs can meet
template<typename T>
static void runs(int nruns, int last, int step) {
    static const int stables[] = {SORT, SORT_BY, TIM, TIM_BY, MERGE_BY, INS_BY};
    int alg = stables[choose(6)];
    std::vector<int> in;
    for (int r = 0; r < nruns; ++r) {
        int len = r + 1 == nruns ? last : 32;
        int cnt = (len + step) / step + 1;
        int z = choose(cnt) * step;
        if (z > len)
            z = len;
        for (int i = 0; i < len; ++i)
            in.push_back(i < z ? 0 : 1);
    }
    one<T>(alg, 0, in);
}

static void setup() {
    bool t = core().thorough;
    int s = core().bound_scale < 0 ? 1 : 0;
    add_choice("all3-item", [=] { all<Item>(3, t ? 8 : 6 - s); }, 15);
    add_choice("all2-item", [=] { all<Item>(2, t ? 13 : 10 - 2 * s); }, 15);
    add_choice("all3-int", [=] { all<int>(3, t ? 7 : 5); }, 5);
    add_choice("all4-double", [=] { all<double>(4, t ? 6 : 4); }, 2);
    add_choice("all2-string", [=] { all<std::string>(2, t ? 8 : 6); }, 4);
    add_choice("perms-item", [=] { perms<Item>(t ? 8 : 7 - s); }, 8);
    add_choice("perms-string", [=] { perms<std::string>(t ? 6 : 5); }, 2);
    add_choice("ranges-item", [=] { ranges<Item>(3, t ? 6 : 5); }, 2);
    add_choice("shapes-item", [=] { shapes<Item>(); }, 4);
    add_choice("shapes-int", [=] { shapes<int>(); }, 2);
    add_choice("deep-int", [=] { deep<int>(t ? 20000 : 6000); }, 6);
    add_choice("displaced-33", [=] { displaced<Item>(33, 1); }, 4);
    add_choice("displaced-65", [=] { displaced<Item>(65, t ? 1 : 2 + s); }, 4);
    add_choice("displaced-130", [=] { displaced<Item>(130, t ? 3 : 13); }, 4);
    add_choice("runs-2", [=] { runs<Item>(2, 32, 1); }, 6);
    add_choice("runs-2short", [=] { runs<Item>(2, 1, 1); }, 1);
    add_choice("runs-2mid", [=] { runs<Item>(2, 17, t ? 1 : 2); }, 2);
    add_choice("runs-3", [=] { runs<Item>(3, 5, t ? 2 : 4); }, 2);
    add_choice("runs-4", [=] { runs<Item>(4, 32, t ? 6 : 16); }, 4);
    add_choice("runs-5", [=] { runs<Item>(5, 1, t ? 8 : 16); }, 4);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
