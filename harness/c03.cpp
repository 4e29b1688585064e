// Lifetimes: the same worlds as the functional properties, with elements that register their
// construction and destruction, heap accounting and sanitizers; contents are not judged here.
#define MC_LIFETIME_ONLY
#ifndef PART
    #define PART 0
#endif
#include "mc/array_world.hpp"
#include "mc/cyclic_world.hpp"
#include "mc/maybe_world.hpp"
#include "mc/string_world.hpp"
#include "mc/listfn.hpp"
using namespace mc;

// nested elements: containers of tracked elements as elements
namespace mc {
template<>
struct Mk<efp::Vector<Tracked>> {
    static efp::Vector<Tracked> mk(int v) {
        efp::Vector<Tracked> r;
        for (int i = 0; v && i <= v % 2; ++i)
            r.push_back(Tracked(v));
        return r;
    }
};
inline int val(const efp::Vector<Tracked>& x) {
    return x.empty() ? 0 : val(x[x.size() - 1]);
}
template<size_t n>
struct Mk<efp::ArrVec<Tracked, n>> {
    static efp::ArrVec<Tracked, n> mk(int v) {
        efp::ArrVec<Tracked, n> r;
        for (int i = 0; v && i <= v % 2; ++i)
            r.push_back(Tracked(v));
        return r;
    }
};
template<size_t n>
int val(const efp::ArrVec<Tracked, n>& x) {
    return x.empty() ? 0 : val(x[x.size() - 1]);
}
// read back by val(std::string) through the conversion
template<>
struct Mk<efp::String> {
    static efp::String mk(int v) {
        return efp::String(Mk<std::string>::mk(v).c_str());
    }
};
template<>
struct Mk<efp::Maybe<Tracked>> {
    static efp::Maybe<Tracked> mk(int v) {
        efp::Maybe<Tracked> r;
        if (v)
            r = Tracked(v);
        return r;
    }
};
inline int val(const efp::Maybe<Tracked>& x) {
    return x ? val(x.value()) : 0;
}
typedef efp::Enum<int, Tracked, efp::Vector<Tracked>> En;
template<>
struct Mk<En> {
    static En mk(int v) {
        return v == 0 ? En() : v % 2 ? En(Tracked(v)) : En(mc::mk<efp::Vector<Tracked>>(v));
    }
};
inline int val(const En& x) {
    return x.index() == 0 ? x.get<0>() : x.index() == 1 ? val(x.get<1>()) : val(x.get<2>());
}
template<>
struct AltMk<efp::Vector<Tracked>> {
    static efp::Vector<Tracked> mk(int v) {
        return Mk<efp::Vector<Tracked>>::mk(v);
    }
    static int val(const efp::Vector<Tracked>& x) {
        return mc::val(x);
    }
};
}  // namespace mc

// ---- queues, used by one thread ----------------------------------------------------------------
template<typename Q, typename A>
static void queue_histories(int len, bool blocking) {
    Q q;
    int inside = 0, v = 0;
    for (int i = 0; i < len; ++i) {
        int o = choose(3);
        if (o == 0) {
            note("enqueue");
            A x = mk<A>(++v);
            q.enqueue(x);
            ++inside;
        } else if (o == 1) {
            note("enqueue rvalue");
            q.enqueue(mk<A>(++v));
            ++inside;
        } else if (!blocking || inside > 0) {
            note("dequeue");
            auto m = q.dequeue();
            (void)m;
            inside = inside ? inside - 1 : 0;
        }
        outcome(uint64_t(i * 16 + inside));
    }
}
// a capacity bounded queue may hold less than was enqueued: model the drop for "may I block?"
template<typename Q, typename A, int cap>
static void bounded_blocking(int len) {
    Q q;
    int inside = 0, v = 0;
    for (int i = 0; i < len; ++i) {
        if (choose(2) == 0) {
            note("enqueue");
            q.enqueue(mk<A>(++v));
            inside = inside < cap ? inside + 1 : cap;
        } else if (inside > 0) {
            note("dequeue");
            A x(q.dequeue());
            (void)x;
            --inside;
        }
    }
}
template<typename A, size_t n>
static void double_buffer(int len) {
    efp::DoubleBuffer<A, n> q;
    int v = 0;
    for (int i = 0; i < len; ++i) {
        switch (choose(3)) {
            case 0: note("enqueue"); q.enqueue(mk<A>(++v)); break;
            case 1: note("swap"); q.swap_buffer(); break;
            default:
                note("dequeue");
                if (!q.empty()) {
                    A x(q.dequeue());
                    (void)x;
                }
        }
    }
}

// ---- tuples ------------------------------------------------------------------------------------
static void tuples() {
    typedef efp::Tuple<Tracked, int, efp::Vector<Tracked>, Heap> T;
    Cell<T> c[3];
    auto make = [](int v) { return T {Tracked(v), v, mk<efp::Vector<Tracked>>(v), Heap(v)}; };
    for (int i = 0; i < 3; ++i)
        new (c[i].blank()) T(make(i + 1));
    for (int i = 0; i < 3; ++i) {
        int o = choose(9);
        note("tuple op %d", o);
        T &x = *c[0], &y = *c[1], &z = *c[2];
        switch (o) {
            case 0: x = y; break;
            case 1: y = efp::move(z); break;
            case 2: z = make(5); break;
            case 3: efp::swap(x, z); break;
            case 4: new (c[1].blank()) T(x); break;
            case 5: {
                T t(efp::move(x));
                x = make(6);
                new (c[2].blank()) T(efp::move(t));
                break;
            }
            case 6: {
                T& r = x;
                x = r;
                break;
            }
            case 7: efp::get<2>(x).push_back(Tracked(4)); break;
            case 8: {
                efp::Vector<T> v;
                for (int k = 0; k < 3; ++k)
                    v.push_back(x);
                v.erase(1);
                y = v[1];
                break;
            }
        }
    }
}

// ---- sorting -----------------------------------------------------------------------------------
template<typename A>
static void sorts(int maxlen) {
    int n = choose(maxlen + 1);
    int alg = choose(9);
    note("sort %d of %d elements", alg, n);
    efp::Vector<A> v;
    for (int i = 0; i < n; ++i)
        v.push_back(mk<A>(1 + choose(3)));
    auto lt = [](const A& a, const A& b) { return val(a) < val(b); };
    switch (alg) {
        case 0: efp::sort_by(v, lt); break;
        case 1: efp::sort_unstable_by(v, lt); break;
        case 2: efp::timsort_by(v, lt); break;
        case 3: efp::insertion_sort_by(v, lt); break;
        case 4: efp::heapsort_by(v, lt); break;
        case 5: efp::sort_by(v, lt); v = efp::Vector<A>(v); efp::sort_by(v, lt); break;
        case 6:
            if (n)
                efp::quicksort_by(v, size_t(0), size_t(n - 1), lt);
            break;
        case 7:
            if (n)
                efp::merge_sort_by(v, size_t(0), size_t(n - 1), lt);
            break;
        default: efp::size_trosort_by(v, lt); break;
    }
}
static void sort_long() {
    int n = choose(5);
    static const int len[] = {31, 33, 64, 65, 100};
    int pat = choose(6), alg = choose(2);
    note("sort of %d, pattern %d", len[n], pat);
    efp::Vector<Tracked> v;
    for (int i = 0; i < len[n]; ++i)
        v.push_back(Tracked(pat == 0 ? i : pat == 1 ? -i : pat == 2 ? i % 7 : pat == 3 ? (i * 37) % 101 : pat == 4 ? i ^ 1 : (i < 50 ? i : 100 - i)));
    auto lt = [](const Tracked& a, const Tracked& b) { return a < b; };
    if (alg == 0)
        efp::sort_by(v, lt);
    else
        efp::sort_unstable_by(v, lt);
}

template<typename W>
static void world(const char* n, Bounds b, int sh) {
    add_world<W>(n, b, sh);
}

static void setup() {
    Bounds d3 = {3, 0, 4, 0, 0};
    Bounds d2 = {2, 3, 3, 4, 30000};
    Bounds t3 = {3, 0, 3, 0, 0};
    (void)d3;
    (void)d2;
    (void)t3;
#if PART == 0 || PART == 1
    world<ListWorld<efp::Vector<Tracked>>>("vector-tracked", Bounds {3, 4, 4, 6, 40000}, 8);
    world<ListWorld<efp::Vector<Tracked, UserAlloc<Tracked>>>>("vector-allocator", Bounds {2, 3, 3, 5, 40000}, 8);
    world<ListWorld<efp::Vector<efp::Vector<Tracked>>>>("vector-vector", d2, 4);
    world<ListWorld<efp::Vector<efp::ArrVec<Tracked, 2>>>>("vector-arrvec", d2, 4);
    world<ListWorld<efp::Vector<efp::Maybe<Tracked>>>>("vector-maybe", d2, 4);
    world<ListWorld<efp::Vector<efp::String>>>("vector-String", d2, 4);
    world<ListWorld<efp::Vector<En>>>("vector-enum", d2, 4);
    add_choice("vector-grown", [] { grown<ListWorld<efp::Vector<Tracked>>>(12, 70); }, 8);
    add_choice("vector-vector-grown", [] { grown<ListWorld<efp::Vector<efp::Vector<Tracked>>>>(6, 40); }, 4);
#endif
#if PART == 0 || PART == 2
    world<ListWorld<efp::ArrVec<Tracked, 1>>>("arrvec1-tracked", d2, 4);
    world<ListWorld<efp::ArrVec<Tracked, 3>>>("arrvec3-tracked", Bounds {3, 4, 4, 6, 40000}, 8);
    world<ListWorld<efp::ArrVec<efp::Vector<Tracked>, 2>>>("arrvec2-vector", d2, 4);
    world<ListWorld<efp::ArrVec<efp::ArrVec<Tracked, 2>, 2>>>("arrvec2-arrvec", d2, 4);
    world<ListWorld<efp::ArrVec<efp::String, 2>>>("arrvec2-String", d2, 4);
    world<ListWorld<efp::ArrVec<efp::Maybe<Tracked>, 2>>>("arrvec2-maybe", d2, 4);
    add_choice("arrvec20-grown", [] { grown<ListWorld<efp::ArrVec<Tracked, 20>>>(20, 20); }, 8);
    world<ArrayWorld<Tracked, 1>>("array1-tracked", t3, 2);
    world<ArrayWorld<Tracked, 3>>("array3-tracked", t3, 4);
    world<ArrayWorld<efp::Vector<Tracked>, 2>>("array2-vector", t3, 4);
    world<ArrayWorld<efp::ArrVec<Tracked, 2>, 2>>("array2-arrvec", t3, 4);
#endif
#if PART == 0 || PART == 3
    world<VcbWorld<Tracked, 1>>("vcb1-tracked", d3, 4);
    world<VcbWorld<Tracked, 3>>("vcb3-tracked", Bounds {3, 4, 4, 5, 40000}, 4);
    world<VcbWorld<efp::Vector<Tracked>, 2>>("vcb2-vector", d3, 4);
    world<VcqWorld<Tracked, 1>>("vcq1-tracked", d3, 4);
    world<VcqWorld<Tracked, 3>>("vcq3-tracked", Bounds {3, 4, 4, 5, 40000}, 4);
    world<VcqWorld<efp::Vector<Tracked>, 2>>("vcq2-vector", d3, 4);
    add_choice("vcb2-long", [] { deviations<VcbWorld<Tracked, 2>>(core().thorough ? 10 : 8, core().bound_scale < 0 ? 1 : 2); }, 4);
    add_choice("vcq2-long", [] { deviations<VcqWorld<Tracked, 2>>(core().thorough ? 8 : 6, core().bound_scale < 0 ? 1 : 2); }, 8);
    add_choice("vcq3-pushpop", [] { deviations<VcqWorld<Tracked, 3>>(core().thorough ? 18 : 12, 0); }, 4);
#endif
#if PART == 0 || PART == 4
    world<EnumWorld<int, Tracked, Heap, Wide, Small>>("enum-mixed", d3, 8);
    world<EnumWorld<Tracked, efp::Vector<Tracked>, Heap, std::string, Small>>("enum-mixed2", d3, 8);
    world<MaybeWorld<Tracked>>("maybe-tracked", d3, 8);
    world<MaybeWorld<Heap>>("maybe-heap", d3, 8);
    world<StringWorld<char>>("string", Bounds {2, 3, 3, 4, 40000}, 8);
    world<StringWorld<char, efp::Vector<char, UserAlloc<char>>>>("string-allocator", Bounds {2, 3, 3, 4, 40000}, 8);
    world<StringWorld<char32_t>>("u32string", Bounds {2, 0, 2, 0, 0}, 4);
    add_choice("string-grown", [] { string_grown<char>(core().thorough ? 24 : 10); }, 4);
    add_choice("tuples", tuples, 4);
    add_choice("blockingq", [] { queue_histories<efp::BlockingQ<Tracked, efp::dyn>, Tracked>(core().thorough ? 9 : 7, true); }, 4);
    add_choice("blockingq-cap2", [] { bounded_blocking<efp::BlockingQ<Tracked, 2>, Tracked, 2>(core().thorough ? 14 : 11); }, 4);
    add_choice("blockingq-cap1", [] { bounded_blocking<efp::BlockingQ<efp::Vector<Tracked>, 1>, efp::Vector<Tracked>, 1>(9); }, 2);
    add_choice("nonblockingq", [] { queue_histories<efp::NonBlockingQ<Tracked, efp::dyn>, Tracked>(core().thorough ? 9 : 7, false); }, 4);
    add_choice("nonblockingq-cap2", [] { queue_histories<efp::NonBlockingQ<Tracked, 2>, Tracked>(core().thorough ? 9 : 7, false); }, 4);
    add_choice("nonblockingq-cap1", [] { queue_histories<efp::NonBlockingQ<efp::Vector<Tracked>, 1>, efp::Vector<Tracked>>(6, false); }, 2);
    add_choice("doublebuffer-cap1", [] { double_buffer<Tracked, 1>(core().thorough ? 10 : 8); }, 4);
    add_choice("doublebuffer-cap2", [] { double_buffer<efp::Vector<Tracked>, 2>(core().thorough ? 10 : 8); }, 4);
    add_choice("sorts", [] { sorts<Tracked>(core().thorough ? 6 : 5); }, 4);
    add_choice("sorts-vector", [] { sorts<efp::Vector<Tracked>>(4); }, 4);
    add_choice("sorts-long", sort_long, 2);
#endif
#if PART == 0 || PART == 5
    #define U(K, ...) add_choice("list-functions-" #K, [] { unary<K<__VA_ARGS__>>(2); }, 1)
    U(KArray, Tracked, 2);
    U(KArrVec, Tracked, 2);
    U(KVector, Tracked, 3);
    U(KVcb, Tracked, 2);
    U(KVcq, Tracked, 2);
    U(KArrVecView, Tracked, 2);
    U(KVectorView, Tracked, 3);
    U(KArrayView, Tracked, 2);
    U(KStdVector, Tracked, 3);
    U(KStdArray, Tracked, 2);
    add_choice("list-functions-2a", [] { binary<KArray<Tracked, 2>, KVector<Tracked, 3>>(2); }, 1);
    add_choice("list-functions-2b", [] { binary<KArrVec<Tracked, 3>, KVcq<Tracked, 2>>(2); }, 1);
    add_choice("list-functions-2c", [] { binary<KVector<Tracked, 3>, KArrVec<Tracked, 2>>(2); }, 1);
    add_choice("list-functions-3", ternary<KVector<Tracked>, KArrVec<Tracked, 2>, KArray<Tracked, 2>>);
    add_choice("nested-1", nested<OArrVec<KVector<Tracked, 2>, 2>, KVector<Tracked, 2>, KArrVec<Tracked, 2>>);
    add_choice("nested-2", nested<OVector<KArrVec<Tracked, 2>>, KArrVec<Tracked, 2>, KVector<Tracked>>);
    add_choice("nested-3", nested<OArray<KArrVec<Tracked, 2>, 2>, KArrVec<Tracked, 2>, KArrVec<Tracked, 1>>);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
