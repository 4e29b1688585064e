// Kind and size of the results of the list functions, and heap use on static sequences.
#ifndef MC_RESULTS_HPP
#define MC_RESULTS_HPP
#include "mc/seq_kinds.hpp"

namespace mc {

// what the kind of a result must be
enum { RSIZE, RCAP, RDYN };

template<typename R>
struct KindOf;
template<typename A, size_t n>
struct KindOf<efp::Array<A, n>> {
    enum { kind = RSIZE };
    static size_t bound() {
        return n;
    }
    typedef A E;
};
template<typename A, size_t n>
struct KindOf<efp::ArrVec<A, n>> {
    enum { kind = RCAP };
    static size_t bound() {
        return n;
    }
    typedef A E;
};
template<typename A>
struct KindOf<efp::Vector<A>> {
    enum { kind = RDYN };
    static size_t bound() {
        return SIZE_MAX;
    }
    typedef A E;
};

static const char* kind_name(int k) {
    return k == RSIZE ? "Array" : k == RCAP ? "ArrVec" : "Vector";
}

template<typename R>
void is_result(const R& r, int kind, size_t bound, const char* what) {
    typedef KindOf<typename std::decay<R>::type> K;
    MC_CHECK(int(K::kind) == kind, "%s gives an %s, expected an %s", what, kind_name(K::kind), kind_name(kind));
    if (kind != RDYN)
        MC_CHECK(K::bound() == bound, "%s gives a bound of %zu, the inputs imply %zu", what, K::bound(), bound);
    MC_CHECK(efp::length(r) <= K::bound(), "%s overflows its result", what);
}

// heap allocations of an expression
struct NoHeap {
    uint64_t c0;
    const char* what;
    bool on;
    NoHeap(const char* w, bool on_) : c0(core().alloc_calls), what(w), on(on_) {}
    void done() const {
#ifdef MC_ASAN
        if (on && core().alloc_calls != c0)
            fail("%s on statically bounded sequences allocated heap memory", what);
#endif
    }
};

// evaluates expr without heap use, then checks the kind of its result
#define MC_RESULT(expr, kind, bound, stat)                   \
    do {                                                     \
        NoHeap nh(#expr, stat);                              \
        auto r_ = (expr);                                    \
        nh.done();                                           \
        is_result(r_, kind, bound, #expr);                   \
    } while (0)
#define MC_NOHEAP(stmt, stat)     \
    do {                          \
        NoHeap nh(#stmt, stat);   \
        stmt;                     \
        nh.done();                \
    } while (0)

inline int kmax(int a, int b) {
    return a > b ? a : b;
}
inline size_t smin(size_t a, size_t b) {
    return a < b ? a : b;
}

struct Dbl {
    template<typename T>
    int operator()(const T& x) const {
        return val(x) * 2;
    }
};
struct Cat {
    template<typename T, typename U>
    long operator()(const T& x, const U& y) const {
        return val(x) * 10L + val(y);
    }
};

template<typename K>
void res_unary() {
    M m = choose_contents<K>(0);
    int rot = choose_rot<K>();
    note("%s of %zu", K::name(), m.size());
    Cell<K> c;
    new (c.blank()) K();
    c->build(m, rot);
    typedef typename K::T T;
    const typename K::Seq& s = c->get();
    const bool st = int(K::kind) != KDYN;
    const size_t b = K::bound;
    auto dbl = [](const T& x) { return val(x) * 2; };
    auto odd = [](const T& x) { return val(x) % 2 == 1; };
    auto all = [](const T&) { return true; };
    auto idx = [](size_t i, const T& x) { return val(x) + int(i); };
    int k = int(K::kind);
    int kf = k == KSIZE ? RCAP : k;
    MC_RESULT(efp::map(dbl, s), k, b, st);
    MC_RESULT(efp::map_with_index(idx, s), k, b, st);
    MC_RESULT(efp::filter(odd, s), kf, b, st);
    MC_RESULT(efp::filter(all, s), kf, b, st);
    MC_RESULT(efp::append(s), k, b, st);
    MC_RESULT(efp::append(s, s), k, 2 * b, st);
    MC_RESULT(efp::append(s, s, s), k, 3 * b, st);
    MC_RESULT(efp::cartesian_map(dbl, s), k, b, st);
    MC_RESULT(efp::find_indices(all, s), kf, b, st);
    MC_RESULT(efp::elem_indices(mk<T>(1), s), kf, b, st);
    int sum = 0;
    auto add = [](int acc, const T& x) { return acc + val(x); };
    auto addr = [](const T& x, int acc) { return acc + val(x); };
    auto acc = [&](const T& x) { sum += val(x); };
    auto acci = [&](size_t i, const T& x) { sum += val(x) + int(i); };
    MC_NOHEAP(sum += efp::foldl(add, 0, s), st);
    MC_NOHEAP(sum += efp::foldr(addr, 0, s), st);
    MC_NOHEAP(efp::for_each(acc, s), st);
    MC_NOHEAP(efp::for_each_with_index(acci, s), st);
    MC_NOHEAP(efp::cartesian_for_each(acc, s), st);
    MC_NOHEAP(sum += int(efp::take(size_t(2), s).size()), true);
    MC_NOHEAP(sum += int(efp::drop(size_t(1), s).size()), true);
    MC_NOHEAP(sum += int(efp::slice(size_t(1), size_t(2), s).size()), true);
    MC_NOHEAP(sum += int(efp::take_while(odd, s).size()), true);
    MC_NOHEAP(sum += int(efp::drop_while(odd, s).size()), true);
    MC_NOHEAP(sum += int(efp::elem(mk<T>(2), s)), true);
    MC_NOHEAP(sum += int(bool(efp::elem_index(mk<T>(2), s))), true);
    MC_NOHEAP(sum += int(bool(efp::find_index(odd, s))), true);
    if (!m.empty()) {
        MC_NOHEAP(sum += val(efp::head(s)) + val(efp::last(s)), true);
        MC_NOHEAP(sum += int(efp::tail(s).size() + efp::init(s).size()), true);
    }
    outcome(uint64_t(sum));
}
template<typename K>
void res_views() {
    // compile-time bounds of views follow from the source
    M m = choose_contents<K>(0);
    note("%s of %zu", K::name(), m.size());
    Cell<K> c;
    new (c.blank()) K();
    c->build(m, 0);
    const typename K::Seq& s = c->get();
    const size_t b = int(K::kind) == KDYN ? SIZE_MAX : size_t(K::bound);
    int k = int(K::kind);
#define MC_VIEW(expr, size_, cap_)                                                                                                                  \
    do {                                                                                                                                            \
        typedef typename std::decay<decltype(expr)>::type R;                                                                                        \
        size_t cs = efp::CtSize<R>::value, cc = efp::CtCapacity<R>::value;                                                                          \
        MC_CHECK(cs == size_t(size_), "%s has a static size of %zd, expected %zd", #expr, ssize_t(cs), ssize_t(size_));                             \
        MC_CHECK(cc == size_t(cap_), "%s has a static capacity of %zd, expected %zd", #expr, ssize_t(cc), ssize_t(cap_));                           \
        MC_CHECK(efp::length(expr) <= cc, "%s is longer than its capacity", #expr);                                                                 \
    } while (0)
    const size_t D = SIZE_MAX;
    const bool ss = k == KSIZE;
    MC_VIEW(efp::take(efp::Size<2>(), s), ss ? smin(2, b) : D, smin(2, b));
    MC_VIEW(efp::take(efp::Size<9>(), s), ss ? smin(9, b) : D, smin(9, b));
    MC_VIEW(efp::drop(efp::Size<1>(), s), ss ? b - 1 : D, k == KDYN ? D : b - 1);
    MC_VIEW(efp::drop(efp::Size<9>(), s), ss ? 0 : D, k == KDYN ? D : 0);
    MC_VIEW(efp::take(size_t(2), s), D, b);
    MC_VIEW(efp::drop(size_t(2), s), D, b);
    if (!m.empty()) {
        MC_VIEW(efp::tail(s), ss ? b - 1 : D, k == KDYN ? D : b - 1);
        MC_VIEW(efp::init(s), ss ? b - 1 : D, k == KDYN ? D : b - 1);
    }
#undef MC_VIEW
}

template<typename K, typename L>
void res_binary() {
    M m = choose_contents<K>(0), n = choose_contents<L>(0);
    note("%s of %zu, %s of %zu", K::name(), m.size(), L::name(), n.size());
    Cell<K> c;
    Cell<L> d;
    new (c.blank()) K();
    new (d.blank()) L();
    c->build(m, 0);
    d->build(n, 0);
    typedef typename K::T T;
    typedef typename L::T U;
    const typename K::Seq& s = c->get();
    const typename L::Seq& t = d->get();
    int k = kmax(int(K::kind), int(L::kind));
    const bool st = k != KDYN;
    const size_t a = K::bound, b = L::bound;
    auto f = [](const T& x, const U& y) { return val(x) * 10L + val(y); };
    auto g = [](size_t i, const T& x, const U& y) { return val(x) * 10L + val(y) + long(i); };
    MC_RESULT(efp::map(f, s, t), k, smin(a, b), st);
    MC_RESULT(efp::map(f, t, s), k, smin(a, b), st);
    MC_RESULT(efp::map_with_index(g, s, t), k, smin(a, b), st);
    MC_RESULT(efp::append(s, t), k, a + b, st);
    MC_RESULT(efp::append(t, s, t), k, a + 2 * b, st);
    MC_RESULT(efp::cartesian_map(f, s, t), k, a * b, st);
    long sum = 0;
    auto h = [&](const T& x, const U& y) { sum += val(x) * 10L + val(y); };
    MC_NOHEAP(efp::for_each(h, s, t), st);
    MC_NOHEAP(efp::cartesian_for_each(h, s, t), st);
    auto r = efp::cartesian_map(f, s, t);
    MC_CHECK(efp::length(r) == m.size() * n.size(), "cartesian_map has %zu elements", size_t(efp::length(r)));
    auto q = efp::append(s, t);
    MC_CHECK(efp::length(q) == m.size() + n.size(), "append has %zu elements", size_t(efp::length(q)));
    outcome(uint64_t(sum));
}

// outer: Array / ArrVec / Vector of inner sequences, all filled to length `il` (capacity included)
template<typename Outer>
struct Fill;
template<typename I, size_t n>
struct Fill<efp::Array<I, n>> {
    enum { kind = KSIZE, bound = n };
    static void at(efp::Array<I, n>& o, size_t i, const I& x) {
        o[i] = x;
    }
};
template<typename I, size_t n>
struct Fill<efp::ArrVec<I, n>> {
    enum { kind = KCAP, bound = n };
    static void at(efp::ArrVec<I, n>& o, size_t, const I& x) {
        o.push_back(x);
    }
};
template<typename I>
struct Fill<efp::Vector<I>> {
    enum { kind = KDYN, bound = 0 };
    static void at(efp::Vector<I>& o, size_t, const I& x) {
        o.push_back(x);
    }
};

template<typename Outer, typename K, typename D>
void res_nested() {
    typedef Fill<Outer> F;
    size_t maxo = F::kind == KDYN ? 3 : size_t(F::bound);
    size_t no = F::kind == KSIZE ? maxo : size_t(choose(int(maxo) + 1));
    Outer o;
    size_t tot = 0;
    for (size_t i = 0; i < no; ++i) {
        M m = choose_contents<K>(0, 2);
        Cell<K> c;
        new (c.blank()) K();
        c->build(m, 0);
        F::at(o, i, c->get());
        tot += m.size();
    }
    M dm = choose_contents<D>(0, 2);
    Cell<D> d;
    new (d.blank()) D();
    d->build(dm, 0);
    note("%zu inner sequences, %zu elements, delimiter of %zu", no, tot, dm.size());
    const Outer& ko = o;
    const typename D::Seq& del = d->get();
    int kc = kmax(int(F::kind), int(K::kind));
    int ki = kmax(kc, int(D::kind));
    size_t ob = F::bound, ib = K::bound, db = D::bound;
    MC_RESULT(efp::concat(ko), kc, ob * ib, kc != KDYN);
    MC_RESULT(efp::intercalate(del, ko), ki, ob * (ib + db) - db, ki != KDYN);
    auto r = efp::concat(ko);
    MC_CHECK(efp::length(r) == tot, "concat has %zu elements, expected %zu", size_t(efp::length(r)), tot);
    auto q = efp::intercalate(del, ko);
    size_t e = tot + (no ? (no - 1) * dm.size() : 0);
    MC_CHECK(efp::length(q) == e, "intercalate has %zu elements, expected %zu", size_t(efp::length(q)), e);
    outcome(tot * 100 + dm.size());
}

}  // namespace mc
#endif
