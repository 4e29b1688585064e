// Reductions and statistics against their definitions, evaluated in long double.
#ifndef PART
    #define PART 0
#endif
#include "mc/seq_kinds.hpp"
#include <cmath>
using namespace mc;
typedef long double LD;
typedef std::vector<LD> V;

static V to_ref(const M& m) {
    return V(m.begin(), m.end());
}
static LD rsum(const V& v) {
    LD s = 0;
    for (LD x : v)
        s += x;
    return s;
}
static LD rmean(const V& v) {
    return rsum(v) / LD(v.size());
}
static LD rcov(const V& a, const V& b, bool bessel) {
    LD ma = rmean(a), mb = rmean(b), s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        s += (a[i] - ma) * (b[i] - mb);
    return s / LD(a.size() - (bessel ? 1 : 0));
}
static LD rvar(const V& a, bool bessel) {
    return rcov(a, a, bessel);
}
static LD rsse(const V& a, const V& b) {
    LD s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        s += (a[i] - b[i]) * (a[i] - b[i]);
    return s;
}
static LD racov(const V& a, int lag, bool bessel, bool adj) {
    LD m = rmean(a), s = 0;
    size_t n = a.size();
    for (size_t i = 0; i + size_t(lag) < n; ++i)
        s += (a[i] - m) * (a[i + size_t(lag)] - m);
    LD d = LD(n) - (adj ? lag : 0) - (bessel ? 1 : 0);
    return s / d;
}
static void rreg(const V& x, const V& y, LD& b1, LD& b0) {
    LD mx = rmean(x), my = rmean(y), sxy = 0, sxx = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        sxy += (x[i] - mx) * (y[i] - my);
        sxx += (x[i] - mx) * (x[i] - mx);
    }
    b1 = sxy / sxx;
    b0 = my - b1 * mx;
}
static V index_of(size_t n) {
    V v;
    for (size_t i = 0; i < n; ++i)
        v.push_back(LD(i));
    return v;
}

template<typename R>
struct Eps {
    static LD e() {
        return 1e-10L;
    }
};
template<>
struct Eps<float> {
    static LD e() {
        return 2e-5L;
    }
};
// computations happen in the narrower of the element and result type
static LD g_eps;
template<typename R, typename T>
static void precision() {
    g_eps = std::max(Eps<R>::e(), Eps<T>::e());
}
static LD mag(const V& v) {
    LD m = 1;
    for (LD x : v)
        m = std::max(m, std::fabs(x));
    return m;
}
// |got - ref| within the rounding of n operations on numbers of the given magnitude
template<typename R>
static void near(LD got, LD want, LD scale, const char* what) {
    LD tol = std::max(Eps<R>::e(), g_eps) * (scale + std::fabs(want));
    MC_CHECK(std::fabs(got - want) <= tol, "%s is %.12Lg, expected %.12Lg", what, got, want);
}
#define NEAR(R, expr, want, scale) near<R>(LD(expr), want, scale, #expr)

// R: result type.  a, b: sequences of equal length n >= 1 with reference contents x, y
template<typename R, typename A, typename B>
static void pair_stats(const A& a, const B& b, const V& x, const V& y) {
    size_t n = x.size();
    LD m = std::max(mag(x), mag(y)), m2 = m * m * LD(n), e = g_eps;
    NEAR(R, efp::sse<R>(a, b), rsse(x, y), m2);
    NEAR(R, efp::mse<R>(a, b), rsse(x, y) / n, m2);
    NEAR(R, efp::rmse<R>(a, b), std::sqrt(rsse(x, y) / n), m * std::sqrt(LD(n)));
    LD my = rmean(y);
    if (std::fabs(my) > 1e-3L)
        NEAR(R, efp::nrmse_mean<R>(a, b), std::sqrt(rsse(x, y) / n) / my, m * m2 / (my * my));
    LD lo = y[0], hi = y[0];
    for (LD v : y) {
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    if (hi > lo)
        NEAR(R, efp::nrmse_max_min<R>(a, b), std::sqrt(rsse(x, y) / n) / (hi - lo), m * m2);
    auto both = [&](LD va, LD vb) { return va > 1e4L * e * m * m && vb > 1e4L * e * m * m; };
    NEAR(R, (efp::covariance<R>(a, b)), rcov(x, y, false), m2);
    if (both(rvar(x, false), rvar(y, false)))
        NEAR(R, (efp::correlation<R>(a, b)), rcov(x, y, false) / std::sqrt(rvar(x, false) * rvar(y, false)), m2 / std::sqrt(rvar(x, false) * rvar(y, false)));
    if (n > 1) {
        NEAR(R, (efp::covariance<R, true>(a, b)), rcov(x, y, true), m2);
        if (both(rvar(x, true), rvar(y, true)))
            NEAR(R, (efp::correlation<R, true>(a, b)), rcov(x, y, true) / std::sqrt(rvar(x, true) * rvar(y, true)), m2 / std::sqrt(rvar(x, true) * rvar(y, true)));
    }
    LD vx = rvar(x, false);
    if (n > 1 && vx > 1e4L * e * m * m) {
        LD b1, b0;
        rreg(x, y, b1, b0);
        auto t = efp::linear_regression<R>(a, b);
        near<R>(LD(efp::get<0>(t)), b1, m2 / vx, "slope of linear_regression");
        near<R>(LD(efp::get<1>(t)), b0, m * m2 / vx, "intercept of linear_regression");
    }
}
template<typename R, typename A>
static void single_stats(const A& a, const V& x, bool lags) {
    size_t n = x.size();
    LD m = mag(x), m1 = m * LD(n), m2 = m * m * LD(n), e = g_eps;
    NEAR(R, efp::mean<R>(a), rmean(x), m1);
    LD sq = 0;
    for (LD v : x)
        sq += v * v;
    NEAR(R, efp::rms<R>(a), std::sqrt(sq / n), m * std::sqrt(LD(n)));
    NEAR(R, efp::variance<R>(a), rvar(x, false), m2);
    // the square root amplifies the rounding of a vanishing variance
    LD sd = std::sqrt(rvar(x, false)), sds = sd > 0 ? m2 / sd : 1 + std::sqrt(m2 / e);
    NEAR(R, efp::standard_deviation<R>(a), sd, sds);
    if (n > 1) {
        NEAR(R, (efp::variance<R, true>(a)), rvar(x, true), m2);
        LD sb = std::sqrt(rvar(x, true));
        NEAR(R, (efp::standard_deviation<R, true>(a)), sb, sb > 0 ? m2 / sb : 1 + std::sqrt(m2 / e));
    }
    LD vx = rvar(x, false);
    bool varied = vx > 1e4L * e * m * m;
    for (int lag = 0; lag < int(n) && (lags || lag < 4); ++lag) {
        NEAR(R, (efp::autocovariance<R>(a, lag)), racov(x, lag, false, false), m2);
        NEAR(R, (efp::autocovariance<R, false, true>(a, lag)), racov(x, lag, false, true), m2);
        if (varied) {
            NEAR(R, (efp::autocorrelation<R>(a, lag)), racov(x, lag, false, false) / vx, m2 / vx);
            NEAR(R, (efp::autocorrelation<R, false, true>(a, lag)), racov(x, lag, false, true) / vx, m2 / vx);
        }
        if (n > 1) {
            NEAR(R, (efp::autocovariance<R, true>(a, lag)), racov(x, lag, true, false), m2);
            if (varied)
                NEAR(R, (efp::autocorrelation<R, true>(a, lag)), racov(x, lag, true, false) / rvar(x, true), m2 / vx);
        }
        if (int(n) - lag > 1) {
            NEAR(R, (efp::autocovariance<R, true, true>(a, lag)), racov(x, lag, true, true), m2);
            if (varied)
                NEAR(R, (efp::autocorrelation<R, true, true>(a, lag)), racov(x, lag, true, true) / rvar(x, true), m2 / vx);
        }
    }
    // the definition is symmetric in the lag, and beyond the length nothing overlaps
    for (int lag = 1; lag < int(n) && (lags || lag < 3); ++lag) {
        NEAR(R, (efp::autocovariance<R>(a, -lag)), racov(x, lag, false, false), m2);
        NEAR(R, (efp::autocovariance<R, false, true>(a, -lag)), racov(x, lag, false, true), m2);
        if (varied)
            NEAR(R, (efp::autocorrelation<R>(a, -lag)), racov(x, lag, false, false) / vx, m2 / vx);
        if (int(n) - lag > 1)
            NEAR(R, (efp::autocovariance<R, true, true>(a, -lag)), racov(x, lag, true, true), m2);
    }
    for (int lag : {int(n), int(n) + 1, int(n) + 7, 2147483647, -int(n), -int(n) - 1, -2147483647 - 1}) {
        NEAR(R, (efp::autocovariance<R>(a, lag)), 0, m2);
        if (n > 1)
            NEAR(R, (efp::autocovariance<R, true>(a, lag)), 0, m2);
    }
    auto dc = efp::remove_dc<R>(a);
    MC_CHECK(efp::length(dc) == n, "remove_dc has %zu elements", size_t(efp::length(dc)));
    for (size_t i = 0; i < n; ++i)
        near<R>(LD(efp::nth(i, dc)), x[i] - rmean(x), m1, "element of remove_dc");
    if (n > 1) {
        LD b1, b0;
        rreg(index_of(n), x, b1, b0);
        auto t = efp::linear_regression_with_index<R>(a);
        near<R>(LD(efp::get<0>(t)), b1, m1, "slope of linear_regression_with_index");
        near<R>(LD(efp::get<1>(t)), b0, m1 * n, "intercept of linear_regression_with_index");
        auto d = efp::detrend<R>(a);
        MC_CHECK(efp::length(d) == n, "detrend has %zu elements", size_t(efp::length(d)));
        for (size_t i = 0; i < n; ++i)
            near<R>(LD(efp::nth(i, d)), x[i] - (b1 * LD(i) + b0), m1 * n, "element of detrend");
    }
}
template<typename A>
static void reductions(const A& a, const V& x) {
    typedef efp::Element<A> T;
    LD s = 0, p = 1;
    for (LD v : x) {
        s += v;
        p *= v;
    }
    near<T>(LD(efp::sum(a)), s, mag(x) * LD(x.size() + 1), "sum");
    if (std::fabs(p) < 1e9L && x.size() < 8)
        near<T>(LD(efp::product(a)), p, std::fabs(p), "product");
    if (x.empty())
        return;
    LD lo = x[0], hi = x[0];
    for (LD v : x) {
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    MC_CHECK(efp::max_elem(a) == T(hi), "max_elem is %.12Lg, expected %.12Lg", LD(efp::max_elem(a)), hi);
    MC_CHECK(efp::min_elem(a) == T(lo), "min_elem is %.12Lg, expected %.12Lg", LD(efp::min_elem(a)), lo);
    near<T>(LD(efp::max_min(a)), hi - lo, mag(x), "max_min");
}

static int value(int i, bool uns) {
    static const int s[] = {-3, 0, 2, 7, -1}, u[] = {5, 0, 2, 9, 1};
    return uns ? u[i] : s[i];
}
template<typename K>
static M choose_values(int alpha, int maxlen, bool uns, int forced = -1) {
    int hi = K::hi < maxlen ? K::hi : maxlen;
    int n = forced >= 0 ? forced : K::lo + (hi > K::lo ? choose(hi - K::lo + 1) : 0);
    M m;
    for (int i = 0; i < n; ++i)
        m.push_back(value(choose(alpha), uns));
    return m;
}
// every content over a few values with signs
template<typename R, typename K>
static void small(int alpha, int maxlen) {
    bool uns = !std::numeric_limits<typename K::T>::is_signed;
    M m = choose_values<K>(alpha, maxlen, uns);
    precision<R, typename K::T>();
    int rot = choose_rot<K>();
    note("%s %s", K::name(), show(m).c_str());
    Cell<K> c;
    new (c.blank()) K();
    c->build(m, rot);
    const typename K::Seq& s = c->get();
    V x = to_ref(m);
    reductions(s, x);
    if (!m.empty())
        single_stats<R>(s, x, true);
    Hash h;
    for (int v : m)
        h.u(uint64_t(v));
    outcome(h.get());
}
template<typename R, typename K, typename L>
static void small2(int alpha, int maxlen) {
    bool uns = !std::numeric_limits<typename K::T>::is_signed || !std::numeric_limits<typename L::T>::is_signed;
    M m = choose_values<K>(alpha, maxlen, uns);
    precision<R, typename K::T>();
    if (int(m.size()) < int(L::lo) || int(m.size()) > int(L::hi) || m.empty())
        return;
    M n = choose_values<L>(alpha, maxlen, uns, int(m.size()));
    note("%s %s, %s %s", K::name(), show(m).c_str(), L::name(), show(n).c_str());
    Cell<K> c;
    Cell<L> d;
    new (c.blank()) K();
    new (d.blank()) L();
    c->build(m, 0);
    d->build(n, 0);
    const typename K::Seq& s = c->get();
    const typename L::Seq& t = d->get();
    pair_stats<R>(s, t, to_ref(m), to_ref(n));
    Hash h;
    for (int v : m)
        h.u(uint64_t(v));
    for (int v : n)
        h.u(uint64_t(v) + 1000);
    outcome(h.get());
}
static double shape(int pat, size_t i, size_t n) {
    switch (pat) {
        case 0: return double(i);
        case 1: return double(n - i) * -0.5;
        case 2: return i % 2 ? 1.25 : -1.25;
        case 3: return double((i * 37) % 11) - 5;
        case 4: return i == n / 2 ? 100 : 0;
        case 5: return 1000.0 + double(i % 3);
        default: return -0.125 * double(i % 17) - 1;
    }
}
// every length up to a bound and a few long ones, several shapes
template<typename R, typename T>
static void lengths(int lim) {
    static const int big[] = {100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1290, 1291, 2000, 5000};
    precision<R, T>();
    int l = choose(lim + 14);
    size_t n = l < lim ? size_t(l) + 1 : size_t(big[l - lim]);
    int p = choose(7), q = choose(7);
    bool ints = std::numeric_limits<T>::is_integer, tiny = sizeof(T) == 1;
    note("%zu elements, shapes %d %d", n, p, q);
    efp::Vector<T> a, b;
    V x, y;
    for (size_t i = 0; i < n; ++i) {
        double u = shape(p, i, n), w = shape(q, i, n);
        if (ints) {
            u = std::floor(u);
            w = std::floor(w);
        }
        if (tiny) {
            // keep all sums within the element type: sparse unit values
            u = i % 97 == size_t(p) ? 1 : 0;
            w = i % 89 == size_t(q) ? 1 : 0;
        }
        if (!std::numeric_limits<T>::is_signed) {
            u = std::fabs(u);
            w = std::fabs(w);
        }
        a.push_back(T(u));
        b.push_back(T(w));
        x.push_back(LD(T(u)));
        y.push_back(LD(T(w)));
    }
    if (ints && !tiny && n > 200) {
        // squares of ramps would not fit an int
        for (size_t i = 0; i < n; ++i) {
            a[i] = T(std::fmod(double(a[i]), 50));
            b[i] = T(std::fmod(double(b[i]), 50));
            x[i] = LD(a[i]);
            y[i] = LD(b[i]);
        }
    }
    reductions(a, x);
    single_stats<R>(a, x, n <= 12);
    pair_stats<R>(a, b, x, y);
    outcome(n * 49 + uint64_t(p * 7 + q));
}
// extremes for the order-only reductions
template<typename T>
static void extremes() {
    typedef std::numeric_limits<T> L;
    T inf = L::has_infinity ? L::infinity() : L::max();
    T v[] = {L::lowest(), T(L::lowest() / 2), T(0), T(1), T(L::max() / 2), L::max(), L::min(), inf, T(L::has_infinity ? -inf : L::lowest())};
    int n = 1 + choose(3);
    efp::Vector<T> a;
    V x;
    for (int i = 0; i < n; ++i) {
        T t = v[choose(L::has_infinity ? 9 : 7)];
        a.push_back(t);
        x.push_back(LD(t));
    }
    LD lo = x[0], hi = x[0];
    for (LD t : x) {
        lo = std::min(lo, t);
        hi = std::max(hi, t);
    }
    note("extremes of %d", n);
    MC_CHECK(LD(efp::max_elem(a)) == hi, "max_elem is %Lg, expected %Lg", LD(efp::max_elem(a)), hi);
    MC_CHECK(LD(efp::min_elem(a)) == lo, "min_elem is %Lg, expected %Lg", LD(efp::min_elem(a)), lo);
}
// the extreme elements of sequences of types that are no built-in numbers
struct Fixed {
    int raw;
    friend bool operator<(const Fixed& a, const Fixed& b) {
        return a.raw < b.raw;
    }
    friend bool operator>(const Fixed& a, const Fixed& b) {
        return a.raw > b.raw;
    }
};
static void other_extremes() {
    int n = 1 + choose(4);
    efp::Vector<Fixed> a;
    efp::ArrVec<std::string, 4> s;
    int lo = 100, hi = -100;
    for (int i = 0; i < n; ++i) {
        int k = choose(5) - 2;
        a.push_back(Fixed {k});
        s.push_back(std::string(1, char('d' + k)) + " and a tail that needs memory");
        lo = std::min(lo, k);
        hi = std::max(hi, k);
    }
    note("extremes of %d other elements", n);
    MC_CHECK(efp::max_elem(a).raw == hi && efp::min_elem(a).raw == lo, "the extremes are %d and %d, expected %d and %d", efp::max_elem(a).raw, efp::min_elem(a).raw, hi, lo);
    MC_CHECK(efp::max_elem(s)[0] == 'd' + hi && efp::min_elem(s)[0] == 'd' + lo, "the extreme strings are wrong");
}
template<typename A, typename B, typename W>
static void approx(const char* what) {
    // differences of exact multiples of half an epsilon around every base value
    static const double base[] = {0, 0.25, 0.5, 1, -0.25, -0.5, -1};
    W eps = std::numeric_limits<W>::epsilon();
    W b = W(base[choose(7)]), d = W(choose(13) - 6) / 2 * eps;
    int big = choose(3);
    A x = A(b);
    B y = B(b + d + W(big));
    W diff = W(x) > W(y) ? W(x) - W(y) : W(y) - W(x);
    note("is_approx of %s: %.20g and %.20g", what, double(x), double(y));
    MC_CHECK(bool(efp::is_approx(x, y)) == (diff <= eps), "is_approx(%.20g, %.20g) is %d", double(x), double(y), int(bool(efp::is_approx(x, y))));
    MC_CHECK(bool(efp::is_approx(y, x)) == (diff <= eps), "is_approx(%.20g, %.20g) is %d", double(y), double(x), int(bool(efp::is_approx(y, x))));
    outcome(uint64_t(diff <= eps));
}
static void approximately() {
    switch (choose(8)) {
        case 4: approx<int, float, float>("an int and a float"); break;
        case 5: approx<long, float, float>("a long and a float"); break;
        case 6: approx<long, double, double>("a long and a double"); break;
        case 7: approx<double, long double, long double>("a double and a long double"); break;
        case 0: approx<double, double, double>("doubles"); break;
        case 1: approx<float, float, float>("floats"); break;
        case 2: approx<float, double, double>("a float and a double"); break;
        case 3: approx<int, double, double>("an int and a double"); break;
    }
}
static void functions() {
    static const double v[] = {-7.5, -1, -0.25, 0, 0.5, 1, 3, 1e6};
    double a = v[choose(8)];
    note("functions of %g", a);
    MC_CHECK(efp::abs(a) == std::fabs(a), "abs is wrong");
    MC_CHECK(efp::abs(int(a)) == std::abs(int(a)), "abs is wrong");
    MC_CHECK(efp::square(a) == a * a && efp::square(int(a / 1000)) == int(a / 1000) * int(a / 1000), "square is wrong");
    MC_CHECK(efp::sin(a) == std::sin(a) && efp::cos(a) == std::cos(a) && efp::tan(a) == std::tan(a), "a trigonometric function is wrong");
    if (a >= 0)
        MC_CHECK(efp::sqrt(a) == std::sqrt(a), "sqrt is wrong");
    auto c = efp::complex_cast<true>(a);
    MC_CHECK(c.real() == a && c.imag() == 0 && efp::complex_cast<false>(c) == a && efp::complex_cast<true>(c) == c && efp::complex_cast<false>(a) == a, "complex_cast is wrong");
}

#define S1(R, K, ...) add_choice("stats-" #K "-" #__VA_ARGS__ "-to-" #R, [] { small<R, K<__VA_ARGS__>>(4, core().thorough ? 5 : 4); })
#define S2(R, K, L) add_choice("pairs-" #K "-" #L "-to-" #R, [] { small2<R, KK##K, KK##L>(3, core().thorough ? 4 : 3); })
typedef KVector<int> KKVi;
typedef KVector<double> KKVd;
typedef KVector<float> KKVf;
typedef KVector<unsigned> KKVu;
typedef KArray<double, 3> KKAd;
typedef KArrVec<double, 3> KKad;
typedef KVcb<double, 3> KKbd;
typedef KVcq<int, 3> KKqi;
typedef KStdVector<double> KKsd;
typedef KVectorView<double> KKvd;

static void setup() {
#if PART == 0 || PART == 1
    S1(double, KArray, double, 1);
    S1(double, KArray, double, 4);
    S1(double, KArrVec, double, 4);
    S1(double, KVector, double);
    S1(double, KVcb, double, 3);
    S1(double, KVcq, double, 3);
    S1(double, KVector, int);
    S1(double, KArray, int, 3);
    S1(double, KArrVec, int, 3);
    S1(double, KVector, float);
#endif
#if PART == 0 || PART == 2
    S1(double, KVectorView, double);
    S1(double, KArrVecView, double, 3);
    S1(double, KArrayView, double, 3);
    S1(double, KStdVector, double);
    S1(double, KUserFixed, double, 3);
    S1(double, KUserBounded, int, 3);
    S1(double, KUserDynamic, double, 3);
    S1(double, KStdArray, double, 3);
    S1(double, KVector, unsigned);
    S1(double, KVector, long long);
    S1(double, KVector, short);
    S1(float, KVector, float);
    S1(float, KArray, float, 3);
    S1(float, KVector, double);
    S1(float, KVector, int);
#endif
#if PART == 0 || PART == 3
    S2(double, Vd, Vd);
    S2(double, Vi, Vd);
    S2(double, Vi, Vi);
    S2(double, Vu, Vu);
    S2(float, Vf, Vf);
    S2(double, Ad, Vd);
    S2(double, Ad, ad);
    S2(double, bd, Ad);
    S2(double, qi, ad);
    S2(double, sd, vd);
    add_choice("extremes-double", extremes<double>);
    add_choice("extremes-float", extremes<float>);
    add_choice("extremes-int", extremes<int>);
    add_choice("extremes-schar", extremes<signed char>);
    add_choice("extremes-uchar", extremes<unsigned char>);
    add_choice("extremes-longlong", extremes<long long>);
    add_choice("functions", functions);
    add_choice("extremes-other", other_extremes);
    add_choice("is_approx", approximately);
#endif
#if PART == 0 || PART == 4
    add_choice("lengths-double", [] { lengths<double, double>(core().thorough ? 70 : 40); }, 4);
    add_choice("lengths-int", [] { lengths<double, int>(core().thorough ? 70 : 40); }, 4);
    add_choice("lengths-float", [] { lengths<double, float>(core().thorough ? 70 : 40); }, 4);
    add_choice("lengths-float-float", [] { lengths<float, float>(20); }, 4);
    add_choice("lengths-unsigned-char", [] { lengths<double, unsigned char>(core().thorough ? 70 : 40); }, 4);
    add_choice("lengths-signed-char", [] { lengths<double, signed char>(20); }, 4);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
