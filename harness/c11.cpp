#ifndef PART
    #define PART 0
#endif
#include "mc/results.hpp"
using namespace mc;

template<typename K>
static void add_u(const char* el) {
    std::string n = std::string(K::name()) + std::to_string(int(K::hi)) + "-" + el;
    add_choice("results-" + n, res_unary<K>);
    add_choice("view-bounds-" + n, res_views<K>);
}
template<typename K, typename L>
static void add_b(const char* el = "int") {
    add_choice(std::string("results-") + K::name() + std::to_string(int(K::hi)) + "-" + L::name() + std::to_string(int(L::hi)) + "-" + el, res_binary<K, L>);
}
template<typename O, typename K, typename D>
static void add_n(const char* n) {
    add_choice(std::string("results-nested-") + n, res_nested<O, K, D>);
}

// ---- operations of the statically bounded containers themselves ---------------------------------
static int sink;
template<typename C>
static void seq_ops(C& a, C& b, int o, int v);
template<typename C>
static void common_ops(C& a, C& b, int o) {
    switch (o) {
        case 0: a = b; break;
        case 1: b = efp::move(a); break;
        case 2: {
            C t(a);
            a = t;
            break;
        }
        case 3: {
            C t(efp::move(a));
            a = efp::move(t);
            break;
        }
        case 4: efp::swap(a, b); break;
        case 5:
            for (auto& e : a)
                e = e + 1;
            break;
        case 6:
            for (size_t i = 0; i < efp::length(a); ++i)
                sink += efp::nth(i, a) + a[i] + a.data()[i];
            break;
    }
}
enum { COMMON = 7 };
template<size_t n>
static void arrvec_ops(int len) {
    typedef efp::ArrVec<int, n> C;
    C a, b;
    for (int i = 0; i < len; ++i) {
        int o = choose(COMMON + 8);
        NoHeap nh("an ArrVec operation", true);
        if (o < COMMON)
            common_ops(a, b, o);
        else
            switch (o - COMMON) {
                case 0:
                    if (a.size() < n)
                        a.push_back(i);
                    break;
                case 1:
                    if (a.size() > 0)
                        a.pop_back();
                    break;
                case 2:
                    if (a.size() < n)
                        a.insert(0, i);
                    break;
                case 3:
                    if (a.size() > 0)
                        a.erase(0);
                    break;
                case 4: a.clear(); break;
                case 5: a.resize(n); break;
                case 6: a.reserve(n); break;
                case 7: sink += a == b; break;
            }
        nh.done();
    }
}
template<size_t n>
static void array_ops(int len) {
    typedef efp::Array<int, n> C;
    C a, b;
    for (size_t i = 0; i < n; ++i)
        a[i] = b[i] = int(i);
    for (int i = 0; i < len; ++i) {
        int o = choose(COMMON + 2);
        NoHeap nh("an Array operation", true);
        if (o < COMMON)
            common_ops(a, b, o);
        else if (o == COMMON)
            sink += a == b;
        else
            a.resize(n);
        nh.done();
    }
}
template<size_t n>
static void vcb_ops(int len) {
    typedef efp::Vcb<int, n> C;
    C a, b;
    for (int i = 0; i < len; ++i) {
        int o = choose(COMMON + 1);
        NoHeap nh("a Vcb operation", true);
        if (o < COMMON)
            common_ops(a, b, o);
        else
            a.push_back(i);
        nh.done();
    }
}
template<size_t n>
static void vcq_ops(int len) {
    typedef efp::Vcq<int, n> C;
    C a, b;
    for (int i = 0; i < len; ++i) {
        int o = choose(COMMON + 2);
        NoHeap nh("a Vcq operation", true);
        if (o < COMMON)
            common_ops(a, b, o);
        else if (o == COMMON)
            a.push_back(i);
        else if (!a.empty())
            sink += a.pop_front();
        nh.done();
    }
}
static void value_ops() {
    typedef efp::Enum<int, double, char> E;
    typedef efp::Tuple<int, double> T;
    int o = choose(8);
    NoHeap nh("an Enum, Maybe or Tuple operation", true);
    efp::Maybe<int> m = o % 2 ? efp::Maybe<int>(3) : efp::Maybe<int>();
    E e = o % 3 == 0 ? E(1) : o % 3 == 1 ? E(2.5) : E('c');
    E f(e);
    e = f;
    f = E(4);
    sink += e.match([](int) { return 1; }, [](double) { return 2; }, [](char) { return 3; });
    efp::Maybe<int> m2 = m.fmap([](int x) { return x + 1; });
    m = m2;
    sink += m.has_value();
    m2 = efp::nothing;
    T t {1, 2.5}, u {2, 3.5};
    t = u;
    sink += t == u;
    auto c = efp::compose([](int x) { return x + 1; }, [](int x) { return x * 2; });
    sink += c(3);
    nh.done();
}
template<typename K>
static void stats() {
    M m = choose_contents<K>(0);
    Cell<K> c;
    new (c.blank()) K();
    c->build(m, 0);
    const typename K::Seq& s = c->get();
    double d = 0;
    if (m.size() < 2)
        return;
    NoHeap nh("a numeric function", true);
    d += efp::sum(s) + efp::product(s) + efp::max_elem(s) + efp::min_elem(s) + efp::max_min(s);
    d += efp::mean<double>(s) + efp::rms<double>(s) + efp::variance<double>(s) + efp::standard_deviation<double>(s);
    d += efp::sse<double>(s, s) + efp::mse<double>(s, s) + efp::rmse<double>(s, s) + efp::covariance<double>(s, s) + efp::correlation<double>(s, s);
    d += efp::autocovariance<double>(s, 1) + efp::fst(efp::linear_regression<double>(s, s)) + efp::fst(efp::linear_regression_with_index<double>(s));
    auto r = efp::remove_dc<double>(s);
    auto t = efp::detrend<double>(s);
    nh.done();
    sink += int(d) + int(efp::length(r)) + int(efp::length(t));
    is_result(r, K::kind, K::bound, "remove_dc");
    is_result(t, K::kind, K::bound, "detrend");
}
static void generated() {
    auto f = [](size_t i) { return int(i); };
    int n = choose(6);
    note("from_function %d", n);
    MC_RESULT(efp::from_function(efp::Size<4>(), f), RSIZE, 4, true);
    MC_RESULT(efp::from_function(efp::Size<1>(), f), RSIZE, 1, true);
    MC_RESULT(efp::from_function(size_t(n), f), RDYN, 0, false);
    MC_RESULT(efp::from_function(n, f), RDYN, 0, false);
}

template<typename T, size_t n>
using AV = efp::ArrVec<T, n>;

static void setup() {
#if PART == 0 || PART == 1
    add_u<KArray<int, 1>>("int");
    add_u<KArray<int, 4>>("int");
    add_u<KArrVec<int, 1>>("int");
    add_u<KArrVec<int, 4>>("int");
    add_u<KVector<int>>("int");
    add_u<KVcb<int, 3>>("int");
    add_u<KVcq<int, 3>>("int");
    add_u<KArrayView<int, 3>>("int");
    add_u<KArrVecView<int, 4>>("int");
    add_u<KVectorView<int>>("int");
    add_u<KStdArray<int, 3>>("int");
    add_u<KStdVector<int>>("int");
    add_u<KUserFixed<int, 3>>("int");
    add_u<KUserBounded<int, 3>>("int");
    add_u<KUserDynamic<int, 3>>("int");
    add_u<KString>("char");
    add_u<KStdString>("char");
    add_u<KStringView>("char");
    add_u<KArray<Tracked, 3>>("tracked");
    add_u<KArrVec<Tracked, 3>>("tracked");
    add_u<KVcq<Tracked, 2>>("tracked");
    add_choice("results-from-function", generated);
#endif
#if PART == 0 || PART == 2
    add_b<KArray<int, 2>, KArray<int, 3>>();
    add_b<KArray<int, 2>, KArrVec<int, 3>>();
    add_b<KArray<int, 3>, KArrVec<int, 2>>();
    add_b<KArray<int, 3>, KVcb<int, 2>>();
    add_b<KArray<int, 2>, KVcq<int, 3>>();
    add_b<KArray<int, 2>, KVector<int>>();
    add_b<KArrVec<int, 3>, KArrVec<int, 2>>();
    add_b<KArrVec<int, 2>, KVcb<int, 3>>();
    add_b<KArrVec<int, 2>, KVcq<int, 3>>();
    add_b<KArrVec<int, 3>, KVector<int>>();
    add_b<KVcb<int, 2>, KVcb<int, 3>>();
    add_b<KVcb<int, 2>, KVcq<int, 2>>();
    add_b<KVcq<int, 3>, KVcq<int, 2>>();
    add_b<KArrayView<int, 2>, KArrVecView<int, 3>>();
    add_b<KArrayView<int, 3>, KArray<int, 2>>();
    add_b<KArrVecView<int, 2>, KArrVec<int, 3>>();
    add_b<KArrVecView<int, 2>, KVectorView<int>>();
    add_b<KStdArray<int, 2>, KArray<int, 3>>();
    add_b<KStdArray<int, 2>, KStdArray<int, 2>>();
    add_b<KStdArray<int, 3>, KVcq<int, 2>>();
    add_b<KStdVector<int>, KArray<int, 2>>();
    add_b<KUserFixed<int, 2>, KUserBounded<int, 3>>();
    add_b<KUserBounded<int, 2>, KArray<int, 2>>();
    add_b<KVector<int>, KVcq<int, 2>>();
    add_b<KArray<Tracked, 2>, KArrVec<Tracked, 2>>("tracked");
#endif
#if PART == 0 || PART == 3
    add_n<efp::Array<efp::Array<int, 2>, 3>, KArray<int, 2>, KArray<int, 1>>("array-array-array");
    add_n<efp::Array<efp::Array<int, 2>, 1>, KArray<int, 2>, KArray<int, 2>>("array1-array-array");
    add_n<efp::Array<AV<int, 2>, 2>, KArrVec<int, 2>, KArray<int, 2>>("array-arrvec-array");
    add_n<efp::Array<AV<int, 1>, 3>, KArrVec<int, 1>, KArrVec<int, 2>>("array-arrvec-arrvec");
    add_n<efp::Array<efp::Array<int, 2>, 2>, KArray<int, 2>, KArrVec<int, 2>>("array-array-arrvec");
    add_n<efp::Array<efp::Array<int, 2>, 2>, KArray<int, 2>, KVector<int>>("array-array-vector");
    add_n<AV<efp::Array<int, 2>, 3>, KArray<int, 2>, KArray<int, 1>>("arrvec-array-array");
    add_n<AV<efp::Array<int, 3>, 1>, KArray<int, 3>, KArray<int, 2>>("arrvec1-array-array");
    add_n<AV<AV<int, 2>, 3>, KArrVec<int, 2>, KArrVec<int, 2>>("arrvec-arrvec-arrvec");
    add_n<AV<AV<int, 2>, 2>, KArrVec<int, 2>, KVector<int>>("arrvec-arrvec-vector");
    add_n<AV<efp::Vector<int>, 2>, KVector<int, 2>, KArray<int, 2>>("arrvec-vector-array");
    add_n<efp::Vector<efp::Array<int, 2>>, KArray<int, 2>, KArray<int, 1>>("vector-array-array");
    add_n<efp::Vector<AV<int, 2>>, KArrVec<int, 2>, KArrVec<int, 2>>("vector-arrvec-arrvec");
    add_n<efp::Array<efp::Vector<int>, 2>, KVector<int, 2>, KArray<int, 2>>("array-vector-array");
    add_choice("ops-arrvec", [] { arrvec_ops<2>(core().thorough ? 5 : 4); }, 4);
    add_choice("ops-array", [] { array_ops<3>(3); });
    add_choice("ops-vcb", [] { vcb_ops<3>(core().thorough ? 6 : 5); }, 4);
    add_choice("ops-vcq", [] { vcq_ops<2>(core().thorough ? 6 : 5); }, 4);
    add_choice("ops-values", value_ops);
    add_choice("stats-Array", stats<KArray<double, 4>>);
    add_choice("stats-ArrVec", stats<KArrVec<double, 5>>);
    add_choice("stats-Vcb", stats<KVcb<double, 4>>);
    add_choice("stats-Vcq", stats<KVcq<double, 4>>);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
