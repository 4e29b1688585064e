// Tuples, composition, swap, captured-function pointers and the basic value functions.
#include "mc/core.hpp"
#include "efp.hpp"
#include "efp/c_utility.hpp"
#include <memory>
using namespace mc;

// ---- component values ----------------------------------------------------------------------------
template<typename T>
struct V3;  // three distinct values and a way to identify them
#define V3_SIMPLE(T, a, b, c)                                   \
    template<>                                                  \
    struct V3<T> {                                              \
        static T mk(int i) {                                    \
            return i == 0 ? T(a) : i == 1 ? T(b) : T(c);        \
        }                                                       \
        static int id(const T& x) {                             \
            return x == T(a) ? 0 : x == T(b) ? 1 : x == T(c) ? 2 : -1; \
        }                                                       \
    };
V3_SIMPLE(int, 7, -3, 2147483647)
V3_SIMPLE(double, 0.5, -1e300, 3.0)
V3_SIMPLE(bool, false, true, true)
typedef unsigned char UC;
typedef long long LL;
V3_SIMPLE(UC, 0, 255, 7)
V3_SIMPLE(LL, 1, -(1ll << 62), 5)
V3_SIMPLE(std::string, "", "x", "a string too long for in-place storage")
V3_SIMPLE(efp::String, "", "y", "an efp string of some length, on the heap")
template<>
struct V3<Tracked> {
    static Tracked mk(int i) {
        return Tracked(100 + i);
    }
    static int id(const Tracked& t) {
        return val(t) - 100;
    }
};
template<>
struct V3<Bag> {
    static Bag mk(int i) {
        return Bag(100 + i);
    }
    static int id(const Bag& t) {
        return val(t) - 100;
    }
};
template<>
struct V3<efp::Vector<int>> {
    static efp::Vector<int> mk(int i) {
        efp::Vector<int> v;
        for (int k = 0; k < i; ++k)
            v.push_back(k + 10 * i);
        return v;
    }
    static int id(const efp::Vector<int>& v) {
        for (int i = 0; i < 3; ++i)
            if (v == mk(i))
                return i;
        return -1;
    }
};
template<>
struct V3<efp::Maybe<int>> {
    static efp::Maybe<int> mk(int i) {
        if (i == 0)
            return efp::nothing;
        return efp::Maybe<int>(i);
    }
    static int id(const efp::Maybe<int>& m) {
        return m.match([](efp::Nothing) { return 0; }, [](const int& x) { return x; });
    }
};
template<>
struct V3<efp::Array<int, 3>> {
    static efp::Array<int, 3> mk(int i) {
        efp::Array<int, 3> a {i, i + 1, i + 2};
        return a;
    }
    static int id(const efp::Array<int, 3>& a) {
        return a[1] == a[0] + 1 && a[2] == a[0] + 2 ? a[0] : -1;
    }
};
typedef efp::Enum<int, Tracked, std::string> E3;
template<>
struct V3<E3> {
    static E3 mk(int i) {
        if (i == 0)
            return E3(0);
        if (i == 1)
            return E3(Tracked(1));
        return E3(std::string("a string too long for in-place storage"));
    }
    static int id(const E3& e) {
        return e.match(
            [](const int& x) { return x; },
            [](const Tracked& t) { return val(t); },
            [](const std::string& s) { return s.size() > 30 ? 2 : -1; }
        );
    }
};
static int inc(int x) {
    return x + 1;
}
static int dbl(int x) {
    return 2 * x;
}
static int neg(int x) {
    return -x;
}
static int nex(int x) noexcept {
    return x + 10;
}
typedef int (*Fp)(int);
V3_SIMPLE(Fp, inc, dbl, neg)

// nested tuples
template<typename A, typename B>
struct V3<efp::Tuple<A, B>> {
    static efp::Tuple<A, B> mk(int i) {
        return efp::Tuple<A, B>(V3<A>::mk(i), V3<B>::mk((i + 1) % 2));
    }
    static int id(const efp::Tuple<A, B>& t) {
        int a = V3<A>::id(efp::get<0>(t));
        return V3<B>::id(efp::get<1>(t)) == (a + 1) % 2 ? a : -1;
    }
};
template<typename A>
struct V3<efp::Tuple<A>> {
    static efp::Tuple<A> mk(int i) {
        return efp::Tuple<A>(V3<A>::mk(i));
    }
    static int id(const efp::Tuple<A>& t) {
        return V3<A>::id(efp::get<0>(t));
    }
};

// ---- tuples --------------------------------------------------------------------------------------
typedef std::vector<int> Ids;
static std::string ids_str(const Ids& v) {
    std::string s;
    for (int x : v)
        s += std::to_string(x) + " ";
    return s;
}
struct Collect {
    Ids* out;
    const void** addr;
    void put(int) const {}
    template<typename H, typename... R>
    void put(int i, const H& h, const R&... r) const {
        out->push_back(V3<H>::id(h));
        addr[i] = &h;
        put(i + 1, r...);
    }
    template<typename... As>
    int operator()(const As&... as) const {
        put(0, as...);
        return int(sizeof...(As)) * 1000 + 17;
    }
};

template<typename Tp, size_t i, size_t n>
struct Each {
    typedef efp::TupleAt<i, Tp> T;
    static void read(const Tp& t, Ids& out) {
        out.push_back(V3<T>::id(efp::get<i>(t)));
        MC_CHECK(&efp::p<i>(t) == &efp::get<i>(t) && &t.template get<i>() == &efp::get<i>(t), "get<%zu>, p<%zu> and the member name different objects", i, i);
        Tp& m = const_cast<Tp&>(t);
        MC_CHECK(&efp::p<i>(m) == &efp::get<i>(t) && &efp::get<i>(m) == &efp::get<i>(t) && &m.template get<i>() == &efp::get<i>(t),
                 "mutable and const access to position %zu name different objects", i);
        Each<Tp, i + 1, n>::read(t, out);
    }
    static void write(Tp& t, size_t at, int v, int how) {
        if (at == i) {
            if (how == 0)
                efp::get<i>(t) = V3<T>::mk(v);
            else if (how == 1)
                efp::p<i>(t) = V3<T>::mk(v);
            else
                t.template get<i>() = V3<T>::mk(v);
        }
        Each<Tp, i + 1, n>::write(t, at, v, how);
    }
    static void addrs(const Tp& t, const void** a) {
        a[i] = &efp::get<i>(t);
        Each<Tp, i + 1, n>::addrs(t, a);
    }
};
template<typename Tp, size_t n>
struct Each<Tp, n, n> {
    static void read(const Tp&, Ids&) {}
    static void write(Tp&, size_t, int, int) {}
    static void addrs(const Tp&, const void**) {}
};

template<typename Tp, size_t n, bool two>
struct Ends {
    static void check(Tp& t, const Ids& ids) {
        const Tp& c = t;
        typedef efp::TupleAt<0, Tp> A;
        typedef efp::TupleAt<1, Tp> B;
        MC_CHECK(V3<A>::id(efp::fst(c)) == ids[0] && V3<A>::id(efp::fst(t)) == ids[0], "fst differs");
        MC_CHECK(V3<B>::id(efp::snd(c)) == ids[1] && V3<B>::id(efp::snd(t)) == ids[1], "snd differs");
        Tp u(c);
        efp::snd(u) = V3<B>::mk(0);
        efp::fst(u) = V3<A>::mk(1);
        MC_CHECK(V3<A>::id(efp::get<0>(u)) == 1 && V3<B>::id(efp::get<1>(u)) == 0, "assignment through fst/snd is lost");
    }
};
template<typename Tp, size_t n>
struct Ends<Tp, n, false> {
    static void check(Tp& t, const Ids& ids) {
        typedef efp::TupleAt<0, Tp> A;
        MC_CHECK(V3<A>::id(efp::fst(t)) == ids[0], "fst differs");
    }
};

template<typename Tp, size_t n>
static void expect(const Tp& t, const Ids& want, const char* what) {
    Ids got;
    Each<Tp, 0, n>::read(t, got);
    MC_CHECK(got == want, "%s: components are %sexpected %s", what, ids_str(got).c_str(), ids_str(want).c_str());
    Ids m;
    const void* ma[8];
    const void* ga[8];
    Collect c {&m, ma};
    int r = t.match(c);
    MC_CHECK(r == int(n) * 1000 + 17, "%s: match returns %d", what, r);
    MC_CHECK(m == want, "%s: match passes %sexpected %s", what, ids_str(m).c_str(), ids_str(want).c_str());
    Each<Tp, 0, n>::addrs(t, ga);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
            MC_CHECK(ga[i] != ga[j] || want[i] == want[j], "%s: positions %zu and %zu share storage", what, i, j);
}

template<typename... As>
struct TupleScen {
    typedef efp::Tuple<As...> Tp;
    enum { n = sizeof...(As) };

    template<int... ix>
    static Tp mk_tp(const Ids& v, efp::IndexSequence<ix...>) {
        return Tp(V3<As>::mk(v[size_t(ix)])...);
    }
    template<int... ix>
    static auto mk_fn(const Ids& v, efp::IndexSequence<ix...>) -> decltype(efp::tuple(V3<As>::mk(v[size_t(ix)])...)) {
        return efp::tuple(V3<As>::mk(v[size_t(ix)])...);
    }
    static Tp mk(const Ids& v) {
        return mk_tp(v, efp::IndexSequenceFor<As...>());
    }
    static Ids pick(int k) {
        Ids v;
        for (int i = 0; i < n; ++i)
            v.push_back(choose(k));
        return v;
    }
    static void run() {
        static_assert(std::is_same<decltype(mk_fn(Ids(), efp::IndexSequenceFor<As...>())), Tp>::value, "tuple() keeps the component types");
        Ids a = pick(n <= 2 ? 3 : 2);
        int op = choose(6);
        if (op == 0) {
            note("construct %s", ids_str(a).c_str());
            Tp t = mk(a);
            expect<Tp, n>(t, a, "constructed");
            Tp f = mk_fn(a, efp::IndexSequenceFor<As...>());
            expect<Tp, n>(f, a, "tuple()");
            Tp c(t);
            expect<Tp, n>(c, a, "copy");
            expect<Tp, n>(t, a, "original after a copy");
            Tp m(efp::move(c));
            expect<Tp, n>(m, a, "moved to");
            Ends<Tp, n, (n > 1)>::check(t, a);
            expect<Tp, n>(t, a, "original after its copy changed");
            Tp& self = t;
            t = self;
            expect<Tp, n>(t, a, "self-assigned");
        } else if (op == 1) {
            Ids b = pick(n <= 2 ? 3 : 2);
            note("compare %s| %s", ids_str(a).c_str(), ids_str(b).c_str());
            Tp s = mk(a), t = mk(b);
            MC_CHECK((s == t) == (a == b), "== is %d", int(s == t));
            MC_CHECK((s != t) == (a != b), "!= is %d", int(s != t));
            MC_CHECK((t == s) == (a == b), "== is not symmetric");
        } else if (op == 2 || op == 3) {
            Ids b = pick(2);
            note("assign %s <- %s", ids_str(a).c_str(), ids_str(b).c_str());
            Tp s = mk(a), t = mk(b);
            if (op == 2) {
                s = t;
                expect<Tp, n>(t, b, "source of the assignment");
            } else
                s = efp::move(t);
            expect<Tp, n>(s, b, "assigned");
            t = mk(a);
            expect<Tp, n>(t, a, "re-assigned source");
            expect<Tp, n>(s, b, "assigned, after its source changed");
        } else if (op == 4) {
            size_t at = size_t(choose(n));
            int v = choose(2), how = choose(3);
            note("write %d at %zu of %s", v, at, ids_str(a).c_str());
            Tp t = mk(a);
            Tp c(t);
            Each<Tp, 0, n>::write(t, at, v, how);
            Ids b(a);
            b[at] = v;
            expect<Tp, n>(t, b, "written");
            expect<Tp, n>(c, a, "copy made before the write");
        } else {
            Ids b = pick(2);
            note("swap %s| %s", ids_str(a).c_str(), ids_str(b).c_str());
            Tp s = mk(a), t = mk(b);
            efp::swap(s, t);
            expect<Tp, n>(s, b, "first after swap");
            expect<Tp, n>(t, a, "second after swap");
        }
    }
};

// ---- composition ---------------------------------------------------------------------------------
// a total function on {0,1,2}, owning heap memory so that dangling captures show
struct Tab {
    std::unique_ptr<int[]> t;
    Tracked alive;
    explicit Tab(int code) : t(new int[3]), alive(code) {
        for (int i = 0; i < 3; ++i, code /= 3)
            t[size_t(i)] = code % 3;
    }
    Tab(const Tab& o) : t(new int[3]), alive(o.alive) {
        for (size_t i = 0; i < 3; ++i)
            t[i] = o.t[i];
    }
    int operator()(int x) const {
        Tracked::alive(&alive, "call of");
        return t[size_t(x)];
    }
};
static int tab(int code, int x) {
    for (; x > 0; --x)
        code /= 3;
    return code % 3;
}

template<typename C>
static void applied(const C& c, const int* code, int k, const char* what) {
    for (int x = 0; x < 3; ++x) {
        int want = x;
        for (int i = k - 1; i >= 0; --i)
            want = tab(code[i], want);
        int got = c(x);
        int lv = x;
        int got2 = c(lv);
        MC_CHECK(got == want && got2 == want && lv == x, "%s of %d functions maps %d to %d, expected %d", what, k, x, got, want);
        ++core().st.transitions;
    }
}

static void compose_all(int k, int range) {
    int c[4];
    for (int i = 0; i < k; ++i) {
        c[i] = choose(range);
        if (range < 27) {
            // identity, rotation, constant, swap of two, collapse: generators of all maps on three points
            static const int gen[] = {0 + 3 * 1 + 9 * 2, 1 + 3 * 2 + 9 * 0, 2 + 3 * 2 + 9 * 2, 1 + 3 * 0 + 9 * 2, 0 + 3 * 0 + 9 * 2};
            c[i] = gen[c[i]];
        }
    }
    note("compose %d %d %d %d", c[0], k > 1 ? c[1] : -1, k > 2 ? c[2] : -1, k > 3 ? c[3] : -1);
    // temporaries: the composition outlives them
    if (k == 1) {
        auto f = efp::compose(Tab(c[0]));
        applied(f, c, 1, "composition");
    } else if (k == 2) {
        auto f = efp::compose(Tab(c[0]), Tab(c[1]));
        applied(f, c, 2, "composition");
        auto g = f;
        applied(g, c, 2, "copied composition");
        Tab a(c[0]), b(c[1]);
        auto h = efp::compose(a, b);
        applied(h, c, 2, "composition of named functions");
    } else if (k == 3) {
        auto f = efp::compose(Tab(c[0]), Tab(c[1]), Tab(c[2]));
        applied(f, c, 3, "composition");
        auto g = efp::compose(efp::compose(Tab(c[0]), Tab(c[1])), Tab(c[2]));
        applied(g, c, 3, "composition nested on the left");
        auto h = efp::compose(Tab(c[0]), efp::compose(Tab(c[1]), Tab(c[2])));
        applied(h, c, 3, "composition nested on the right");
    } else {
        auto f = efp::compose(Tab(c[0]), Tab(c[1]), Tab(c[2]), Tab(c[3]));
        applied(f, c, 4, "composition");
    }
}

// callable kinds: f and g and h drawn from free function, noexcept function, function pointer, closure,
// generic functor
struct Sub3 {
    template<typename T>
    T operator()(const T& x) const {
        return x - 3;
    }
};
struct Pick {
    template<typename K>
    static void with(int kind, const K& k) {
        int off = 100;
        switch (kind) {
            case 0:
                k(dbl, [](int x) { return 2 * x; });
                break;
            case 1:
                k(nex, [](int x) { return x + 10; });
                break;
            case 2: {
                Fp p = neg;
                k(p, [](int x) { return -x; });
                break;
            }
            case 3:
                k([off](int x) { return off - x; }, [](int x) { return 100 - x; });
                break;
            default:
                k(Sub3(), [](int x) { return x - 3; });
        }
    }
};
template<typename G, typename GW, typename H, typename HW>
struct Inner3 {
    const G& g;
    const GW& gw;
    const H& h;
    const HW& hw;
    template<typename F, typename FW>
    void operator()(const F& f, const FW& fw) const {
        auto c2 = efp::compose(f, g);
        auto c3 = efp::compose(f, g, h);
        for (int x = -4; x <= 4; ++x) {
            MC_CHECK(c2(x) == fw(gw(x)), "compose(f, g)(%d) is %d, expected %d", x, c2(x), fw(gw(x)));
            MC_CHECK(c3(x) == fw(gw(hw(x))), "compose(f, g, h)(%d) is %d, expected %d", x, c3(x), fw(gw(hw(x))));
            ++core().st.transitions;
        }
    }
};
template<typename H, typename HW>
struct Inner2 {
    const H& h;
    const HW& hw;
    int fk;
    template<typename G, typename GW>
    void operator()(const G& g, const GW& gw) const {
        Pick::with(fk, Inner3<G, GW, H, HW> {g, gw, h, hw});
    }
};
struct Inner1 {
    int fk, gk;
    template<typename H, typename HW>
    void operator()(const H& h, const HW& hw) const {
        Pick::with(gk, Inner2<H, HW> {h, hw, fk});
    }
};
static void compose_kinds() {
    int f = choose(5), g = choose(5), h = choose(5);
    note("kinds %d %d %d", f, g, h);
    Pick::with(h, Inner1 {f, g});
}

// argument passing: several arguments, references, move-only values, type changes, void
static void compose_args() {
    int a = choose(4) - 1, b = choose(4) - 1;
    note("args %d %d", a, b);
    auto sub = efp::compose([](int x) { return x * 10; }, [](int x, int y) { return 3 * x - y; });
    MC_CHECK(sub(a, b) == (3 * a - b) * 10, "two arguments: %d", sub(a, b));
    auto len = efp::compose(
        [](const std::string& s) { return s + "!"; },
        [](size_t n) { return std::string(n, 'z'); },
        [](const std::string& s, int extra) { return s.size() + size_t(extra); }
    );
    std::string in(size_t(a + 1), 'q');
    MC_CHECK(len(in, b + 1) == std::string(size_t(a + b + 2), 'z') + "!", "type changes: %s", len(in, b + 1).c_str());
    MC_CHECK(in == std::string(size_t(a + 1), 'q'), "an lvalue argument was changed");
    int target = a;
    auto bump = efp::compose([](int& r) -> int& { r *= 2; return r; }, [](int& r, int by) -> int& { r += by; return r; });
    int& res = bump(target, b);
    MC_CHECK(&res == &target && target == (a + b) * 2, "references are not passed through");
    auto own = efp::compose(
        [](std::unique_ptr<int> p) { return *p + 1; },
        [](std::unique_ptr<int> p, int by) { *p += by; return p; }
    );
    std::unique_ptr<int> up(new int(a));
    int r = own(std::move(up), b);
    MC_CHECK(r == a + b + 1 && !up, "a move-only argument: %d", r);
    int seen = 0;
    auto eff = efp::compose([&seen](int x) { seen = x; }, [](int x) { return x + 5; });
    eff(a);
    MC_CHECK(seen == a + 5, "void outer function saw %d", seen);
    // each function once, innermost first
    std::string order;
    auto ord = efp::compose(
        [&order](int x) { order += 'f'; return x; },
        [&order](int x) { order += 'g'; return x; },
        [&order](int x) { order += 'h'; return x; }
    );
    MC_CHECK(ord(a) == a && order == "hgf", "called in the order %s", order.c_str());
    // overloads on value category and constness
    struct Cat {
        int operator()(int&) const {
            return 1;
        }
        int operator()(const int&) const {
            return 2;
        }
        int operator()(int&&) const {
            return 3;
        }
    };
    auto cat = efp::compose([](int x) { return x; }, Cat());
    const int ca = a;
    MC_CHECK(cat(target) == 1 && cat(ca) == 2 && cat(5) == 3, "argument categories arrive as %d %d %d", cat(target), cat(ca), cat(5));
    MC_CHECK(efp::id(a) == a && efp::id(in) == in, "id");
}

// ---- swap ----------------------------------------------------------------------------------------
template<typename T>
static void swap_vals() {
    int i = choose(3), j = choose(3), self = choose(2);
    note("swap %d %d self=%d", i, j, self);
    T a = V3<T>::mk(i);
    int ia = V3<T>::id(a);
    if (self) {
        T& r = a;
        efp::swap(a, r);
        MC_CHECK(V3<T>::id(a) == ia, "swap with itself: %d became %d", ia, V3<T>::id(a));
        return;
    }
    T b = V3<T>::mk(j);
    int ib = V3<T>::id(b);
    efp::swap(a, b);
    MC_CHECK(V3<T>::id(a) == ib && V3<T>::id(b) == ia, "swap of %d, %d gives %d, %d", ia, ib, V3<T>::id(a), V3<T>::id(b));
    efp::swap(a, b);
    MC_CHECK(V3<T>::id(a) == ia && V3<T>::id(b) == ib, "swapping back gives %d, %d", V3<T>::id(a), V3<T>::id(b));
    a = V3<T>::mk(j);
    MC_CHECK(V3<T>::id(b) == ib, "changing the one changes the other after swap");
}

// ---- func_ptr ------------------------------------------------------------------------------------
struct Scaler {
    int k;
    Tracked alive;
    explicit Scaler(int k) : k(k), alive(k) {}
    int operator()(int x, int y) {
        Tracked::alive(&alive, "call of");
        return k * x - y;
    }
};
static void func_ptrs() {
    const int K = 3;
    int state = 0;
    std::string tag = "a captured string too long for in-place storage";
    auto add = [&state](int x, int y) -> int {
        state += x;
        return state * 10 + y;
    };
    auto str = [tag](const std::string& s) -> std::string { return s + tag; };
    auto ref = [](int& r, double d) -> int& {
        r = int(d) + r;
        return r;
    };
    auto nul = [&state]() -> void { state = 50; };
    auto quiet = [&state](int x) noexcept -> int { return state + x; };
    auto own = [&state](std::unique_ptr<int> p, std::string&& s, Tracked t) -> std::unique_ptr<int> {
        *p += state + val(t) + int(s.size());
        s = "taken";
        return p;
    };
    Scaler sc[2] = {Scaler(2), Scaler(-5)};
    int cur = -1;
    typedef int (*I2)(int, int);
    I2 pa = nullptr, psc = nullptr;
    std::string (*ps)(const std::string&) = nullptr;
    int& (*pr)(int&, double) = nullptr;
    void (*pn)() = nullptr;
    int model = 0;
    int depth = core().thorough ? 6 : 4;
    pa = efp::func_ptr(add);
    for (int d = 0; d < depth; ++d) {
        switch (choose(11)) {
            case 0:
                note("stop");
                return;
            case 9: {
                note("noexcept");
                auto pq = efp::func_ptr(quiet);
                MC_CHECK(pq(7) == state + 7, "noexcept callable gives %d", pq(7));
                break;
            }
            case 10: {
                note("own");
                auto po = efp::func_ptr(own);
                std::string s = "abc";
                std::unique_ptr<int> r = po(std::unique_ptr<int>(new int(100)), std::move(s), Tracked(20));
                MC_CHECK(r && *r == 123 + state && s == "taken", "callable with owned arguments gives %d, leaves \"%s\"", r ? *r : -1, s.c_str());
                break;
            }
            case 1: {
                int x = choose(K) - 1, y = choose(2);
                note("add %d %d", x, y);
                model += x;
                int g = pa(x, y);
                MC_CHECK(g == model * 10 + y && state == model, "call gives %d, state %d; expected %d", g, state, model * 10 + y);
                break;
            }
            case 2:
            case 3: {
                int w = choose(2);
                note("take scaler %d", w);
                psc = efp::func_ptr(sc[w]);
                cur = w;
                break;
            }
            case 4: {
                if (cur < 0)
                    break;
                int x = choose(K) - 1;
                note("scaler %d", x);
                // the object itself is called, not a copy
                sc[cur].k += 1;
                int g = psc(x, 7);
                MC_CHECK(g == sc[cur].k * x - 7, "scaler gives %d, expected %d", g, sc[cur].k * x - 7);
                break;
            }
            case 5: {
                note("string");
                if (!ps)
                    ps = efp::func_ptr(str);
                std::string s = ps("p");
                MC_CHECK(s == "p" + tag, "string call gives %s", s.c_str());
                break;
            }
            case 6: {
                note("ref");
                if (!pr)
                    pr = efp::func_ptr(ref);
                int r = 4;
                int& back = pr(r, 2.5);
                MC_CHECK(&back == &r && r == 6, "reference argument: %d", r);
                break;
            }
            case 7: {
                note("void");
                if (!pn)
                    pn = efp::func_ptr(nul);
                pn();
                model = 50;
                MC_CHECK(state == 50, "void call left %d", state);
                break;
            }
            default: {
                note("retake add");
                pa = efp::func_ptr(add);
            }
        }
        ++core().st.transitions;
    }
}

// ---- value functions -----------------------------------------------------------------------------
template<typename T>
struct Dom {
    static int size() {
        return 7;
    }
    static T at(int i) {
        return T(i - 3);
    }
};
template<>
struct Dom<unsigned> {
    static int size() {
        return 6;
    }
    static unsigned at(int i) {
        static const unsigned v[] = {0, 1, 2, 5, 0x80000000u, 0xffffffffu};
        return v[i];
    }
};
template<>
struct Dom<double> {
    static int size() {
        return 8;
    }
    static double at(int i) {
        static const double v[] = {-1e300, -2.5, -1, -0.25, 0, 0.5, 3, 1e18};
        return v[i];
    }
};
template<>
struct Dom<float> {
    static int size() {
        return 6;
    }
    static float at(int i) {
        static const float v[] = {-2.5f, -1, 0, 0.5f, 3, 16777216.f};
        return v[i];
    }
};
template<>
struct Dom<long long> {
    static int size() {
        return 7;
    }
    static long long at(int i) {
        static const long long v[] = {-(1ll << 40), -3, -1, 0, 2, 5, 1ll << 40};
        return v[i];
    }
};
template<>
struct Dom<size_t> {
    static int size() {
        return 6;
    }
    static size_t at(int i) {
        static const size_t v[] = {0, 1, 2, 7, size_t(1) << 31, size_t(1) << 33};
        return v[i];
    }
};
template<typename T>
static T dom() {
    return Dom<T>::at(choose(Dom<T>::size()));
}
template<typename T>
static double show(T x) {
    return double(x);
}

template<typename T>
static void order_ops() {
    T a = dom<T>(), b = dom<T>();
    note("%g ? %g", show(a), show(b));
    MC_CHECK(efp::op_eq(a, b) == (a == b) && efp::op_neq(a, b) == !(a == b), "op_eq/op_neq");
    MC_CHECK(efp::op_lt(a, b) == (a < b) && efp::op_gt(a, b) == (b < a), "op_lt/op_gt");
    MC_CHECK(efp::op_leq(a, b) == !(b < a) && efp::op_geq(a, b) == !(a < b), "op_leq/op_geq");
    MC_CHECK(efp::max(a, b) == (a < b ? b : a), "max is %g", show(efp::max(a, b)));
    MC_CHECK(efp::min(a, b) == (b < a ? b : a), "min is %g", show(efp::min(a, b)));
    T c = dom<T>();
    if (a <= b) {
        T want = c < a ? a : b < c ? b : c;
        T got = efp::clamp(a, b, c);
        MC_CHECK(got == want, "clamp of %g is %g", show(c), show(got));
    }
}
template<typename T>
static void arith_ops() {
    T a = dom<T>(), b = dom<T>();
    note("%g . %g", show(a), show(b));
    MC_CHECK(efp::op_add(a, b) == T(a + b), "op_add");
    MC_CHECK(efp::op_sub(a, b) == T(a - b), "op_sub");
    MC_CHECK(efp::op_mul(a, b) == T(a * b), "op_mul");
    if (b != T(0))
        MC_CHECK(efp::op_div(a, b) == T(a / b), "op_div");
    MC_CHECK(efp::op_neg(a) == T(-a), "op_neg");
}
template<typename T>
static void mod_op() {
    T a = dom<T>(), b = dom<T>();
    note("%g %% %g", show(a), show(b));
    if (b != T(0))
        MC_CHECK(efp::op_mod(a, b) == T(a % b), "op_mod");
}
static void bool_ops() {
    bool a = choose(2), b = choose(2);
    note("%d %d", a, b);
    MC_CHECK(efp::op_and(a, b) == (a && b) && efp::op_or(a, b) == (a || b) && efp::op_not(a) == !a, "boolean operators");
}
static void clamp_mixed() {
    int lo = choose(5) - 2, hi = lo + choose(4);
    double x = (choose(17) - 8) * 0.5;
    note("clamp mixed %d %d %g", lo, hi, x);
    double w = x < lo ? lo : x > hi ? hi : x;
    MC_CHECK(efp::clamp(lo, hi, x) == w, "clamp(int, int, double) is %g", efp::clamp(lo, hi, x));
    MC_CHECK(efp::clamp(double(lo), hi, x) == w, "clamp(double, int, double)");
    int xi = choose(9) - 4;
    double wi = xi < lo ? lo : xi > hi + 0.5 ? hi + 0.5 : xi;
    MC_CHECK(efp::clamp(lo, hi + 0.5, xi) == wi, "clamp(int, double, int) is %g", efp::clamp(lo, hi + 0.5, xi));
}

// folds over built-in arrays
struct Dig {
    constexpr long long operator()(const long long& a, const int& b) const {
        return a * 4 + b;
    }
};
template<typename T, size_t n>
static void ct_fold() {
    T a[n];
    bool t[n];
    int d[n];
    T s = 0, p = 1;
    T lo {}, hi {};
    bool all = true, any = false;
    long long dg = 1;
    std::string txt;
    for (size_t i = 0; i < n; ++i) {
        int c = choose(Dom<T>::size() < 5 ? Dom<T>::size() : (n > 3 ? 5 : Dom<T>::size()));
        if (n > 3)
            c += Dom<T>::size() - 5;
        a[i] = Dom<T>::at(c);
        t[i] = c & 1;
        d[i] = c & 3;
        txt += std::to_string(a[i]) + " ";
        s = T(s + a[i]);
        all = all && t[i];
        any = any || t[i];
        lo = i == 0 || a[i] < lo ? a[i] : lo;
        hi = i == 0 || a[i] > hi ? a[i] : hi;
        dg = dg * 4 + d[i];
    }
    // products of the huge members overflow; use the digits
    T sm[n];
    for (size_t i = 0; i < n; ++i) {
        sm[i] = T(T(d[i]) + (std::is_floating_point<T>::value ? T(0.5) : T(0)));
        p = T(p * sm[i]);
    }
    note("fold %s", txt.c_str());
    MC_CHECK(efp::_sum(a) == s, "_sum is %g, expected %g", show(efp::_sum(a)), show(s));
    MC_CHECK(efp::_product(sm) == p, "_product is %g, expected %g", show(efp::_product(sm)), show(p));
    MC_CHECK(efp::_minimum(a) == lo, "_minimum is %g", show(efp::_minimum(a)));
    MC_CHECK(efp::_maximum(a) == hi, "_maximum is %g", show(efp::_maximum(a)));
    MC_CHECK(efp::_all(t) == all && efp::_any(t) == any, "_all/_any");
    MC_CHECK(efp::_foldl(Dig(), 1ll, d) == dg, "_foldl is %lld, expected %lld", (long long)efp::_foldl(Dig(), 1ll, d), dg);
}

// constant expressions: a wrong value is a compile error, which the check reports
namespace ct {
    using namespace efp;
    template<typename T>
    struct IsPtr: Bool<std::is_pointer<T>::value> {};
    static_assert(_sum({1, 2, 3}) == 6 && _product({2, 3, 4}) == 24, "");
    static_assert(_minimum({3, 1, 2}) == 1 && _maximum({1, 3, 2}) == 3, "");
    static_assert(_maximum({-3, -1, -2}) == -1 && _minimum({-3.5, 1.0}) == -3.5 && _maximum({-3.5, -1.25}) == -1.25, "");
    static_assert(_all({true, true}) && !_all({true, false}) && !_all({false, true}) && _any({false, true}) && !_any({false, false}), "");
    static_assert(_sum({size_t(1) << 40, size_t(1)}) == (size_t(1) << 40) + 1, "sums of sizes");
    static_assert(_sum({0.5, 0.25}) == 0.75, "sums of fractions");
    static_assert(All<True, True, True>::value && !All<True, False, True>::value && !All<False>::value && All<True>::value, "");
    static_assert(Any<False, True>::value && !Any<False, False>::value && Any<True, False, False>::value, "");
    static_assert(Mininum<Int<4>, Int<2>, Int<3>>::value == 2 && Maximum<Int<4>, Int<2>, Int<9>, Int<3>>::value == 9, "");
    static_assert(std::is_same<PackAt<0, int, char, double>, int>::value && std::is_same<PackAt<1, int, char, double>, char>::value
                      && std::is_same<PackAt<2, int, char, double>, double>::value,
                  "");
    static_assert(Find<IsPtr, int, int*, char*>::value == 1 && Find<IsPtr, int*>::value == 0 && Find<IsPtr, int, char, char*>::value == 2, "");
    static_assert(std::is_same<TupleAt<1, Tuple<int, char, double>>, char>::value && std::is_same<TupleAt<0, Pair<int, char>>, int>::value, "");
    static_assert(std::is_same<Prepend<int, TypeList<char, double>>, TypeList<int, char, double>>::value && std::is_same<Prepend<int, TypeList<>>, TypeList<int>>::value, "");
    static_assert(std::is_same<MakeIndexSequence<0>, IndexSequence<>>::value && std::is_same<MakeIndexSequence<3>, IndexSequence<0, 1, 2>>::value, "");
    static_assert(Int<3>::value == 3 && Size<5>::value == 5 && Bool<true>::value && !Bool<false>::value, "");
    static_assert(IsCtConst<Int<3>>::value && IsCtConst<True&>::value && !IsCtConst<int>::value, "");
    static_assert(!Negation<True>::value && Negation<False>::value, "");
    static_assert(clamp(0, 10, 5) == 5 && clamp(0, 10, -5) == 0 && clamp(0, 10, 50) == 10 && min(1, 2) == 1 && max(1, 2) == 2, "");
    static_assert(op_add(1, 2) == 3 && op_not(false) && op_mod(7, 4) == 3, "");
    static_assert(std::is_same<CVRefRemoved<const volatile int&>, int>::value && std::is_same<CVRefRemoved<int&&>, int>::value, "");
    struct Call {
        long operator()(int, char&) const;
    };
    static_assert(HasCallOperator<Call>::value && !HasCallOperator<std::string>::value, "");
    static_assert(IsInvocable<Call, int, char&>::value && !IsInvocable<Call, int>::value && !IsInvocable<Call, int, const char&>::value, "");
    static_assert(IsInvocableR<long, Call, int, char&>::value && !IsInvocableR<std::string, Call, int, char&>::value && !IsInvocableR<long, Call>::value, "");
    static_assert(std::is_same<InvokeResult<Call, int, char&>, long>::value, "");
    static_assert(std::is_same<Arguments<Call>, Tuple<int, char&>>::value && std::is_same<Arguments<int (*)(char, double&)>, Tuple<char, double&>>::value, "");
    static_assert(std::is_same<FunctionPointerType<Call>, long (*)(int, char&)>::value, "");
    static_assert(IsDefaultConstructible<int>::value && !IsDefaultConstructible<Scaler>::value, "");
    static_assert(IsConstructible<Scaler, int>::value && !IsConstructible<Scaler, std::string>::value, "");
    static_assert(std::is_same<FuncToFuncPtr<int(char)>, int (*)(char)>::value && std::is_same<FuncToFuncPtr<int (*)(char)>, int (*)(char)>::value
                      && std::is_same<FuncToFuncPtr<int>, int>::value,
                  "");
    static_assert(std::is_same<Common<int, double>, double>::value && std::is_same<Conditional<true, int, char>, int>::value, "");
}  // namespace ct

// storage for elements: properly aligned, indexable, no overlap
template<typename T, size_t n>
static void raw_storage() {
    int i = choose(int(n)), k = choose(int(n));
    note("raw %d %d", i, k);
    efp::RawStorage<T, n> s;
    MC_CHECK(uintptr_t(s.data()) % alignof(T) == 0 && sizeof(s) >= n * sizeof(T), "storage is misaligned or too small");
    const efp::RawStorage<T, n>& c = s;
    MC_CHECK(&s[size_t(i)] == s.data() + i && &c[size_t(i)] == c.data() + i && (T*)s == s.data() && (const T*)c == c.data(), "positions differ");
    new (&s[size_t(i)]) T(V3<T>::mk(1));
    if (k != i) {
        new (&s[size_t(k)]) T(V3<T>::mk(0));
        MC_CHECK(V3<T>::id(c[size_t(k)]) == 0, "stored value differs");
        s[size_t(k)].~T();
    }
    MC_CHECK(V3<T>::id(c[size_t(i)]) == 1, "stored value differs");
    s[size_t(i)].~T();
}

static void setup() {
    using efp::Tuple;
    add_choice("tuple/1", TupleScen<int>::run);
    add_choice("tuple/1t", TupleScen<Tracked>::run);
    add_choice("tuple/1nested", TupleScen<Tuple<int>>::run);
    add_choice("tuple/2", TupleScen<int, int>::run);
    add_choice("tuple/2recursive", TupleScen<Bag, int>::run);
    add_choice("swap/recursive", swap_vals<Bag>);
    add_choice("tuple/2s", TupleScen<std::string, efp::String>::run);
    add_choice("tuple/2nested", TupleScen<Tuple<int, Tracked>, Tuple<int, Tracked>>::run);
    add_choice("tuple/2fn", TupleScen<Fp, Fp>::run);
    add_choice("tuple/3", TupleScen<int, Tracked, std::string>::run);
    add_choice("tuple/3same", TupleScen<Tracked, Tracked, Tracked>::run);
    add_choice("tuple/4", TupleScen<unsigned char, efp::String, double, efp::Vector<int>>::run);
    add_choice("tuple/5", TupleScen<bool, long long, Tracked, int, Fp>::run);
    add_choice("tuple/5b", TupleScen<efp::Maybe<int>, E3, efp::Array<int, 3>, Tuple<int, double>, int>::run);
    add_choice("tuple/6", TupleScen<int, double, unsigned char, Tracked, long long, std::string>::run);
    add_choice("tuple/6same", TupleScen<int, int, int, int, int, int>::run);
    add_choice("tuple/0", [] {
        int w = choose(1);
        note("empty %d", w);
        efp::Tuple<> a, b;
        MC_CHECK(a == b && !(a != b), "empty tuples differ");
        MC_CHECK(a.match([] { return 3; }) == 3, "match on the empty tuple");
        MC_CHECK(efp::get<0>(efp::tuple(nex))(1) == 11 && efp::get<1>(efp::tuple(1, dbl))(4) == 8, "functions in tuples");
    });
    for (int k = 1; k <= 3; ++k)
        add_choice("compose/" + std::to_string(k), [k] { compose_all(k, 27); }, k == 3 ? 4 : 1);
    add_choice("compose/4", [] { compose_all(4, core().thorough ? 27 : 5); }, core().thorough ? 8 : 1);
    add_choice("compose/kinds", compose_kinds);
    add_choice("compose/args", compose_args);
    add_choice("swap/int", swap_vals<int>);
    add_choice("swap/uchar", swap_vals<unsigned char>);
    add_choice("swap/double", swap_vals<double>);
    add_choice("swap/bool", swap_vals<bool>);
    add_choice("swap/tracked", swap_vals<Tracked>);
    add_choice("swap/stdstring", swap_vals<std::string>);
    add_choice("swap/string", swap_vals<efp::String>);
    add_choice("swap/vector", swap_vals<efp::Vector<int>>);
    add_choice("swap/array", swap_vals<efp::Array<int, 3>>);
    add_choice("swap/maybe", swap_vals<efp::Maybe<int>>);
    add_choice("swap/enum", swap_vals<E3>);
    add_choice("swap/tuple", swap_vals<Tuple<int, Tracked>>);
    add_choice("swap/fn", swap_vals<Fp>);
    add_choice("func_ptr", func_ptrs, 4);
    add_choice("ops/int", order_ops<int>);
    add_choice("ops/unsigned", order_ops<unsigned>);
    add_choice("ops/double", order_ops<double>);
    add_choice("ops/float", order_ops<float>);
    add_choice("ops/llong", order_ops<long long>);
    add_choice("ops/schar", order_ops<signed char>);
    add_choice("ops/size", order_ops<size_t>);
    add_choice("arith/int", arith_ops<int>);
    add_choice("arith/unsigned", arith_ops<unsigned>);
    add_choice("arith/double", arith_ops<double>);
    add_choice("arith/float", arith_ops<float>);
    add_choice("arith/schar", arith_ops<signed char>);
    add_choice("arith/size", arith_ops<size_t>);
    add_choice("mod/int", mod_op<int>);
    add_choice("mod/unsigned", mod_op<unsigned>);
    add_choice("mod/llong", mod_op<long long>);
    add_choice("bool", bool_ops);
    add_choice("clamp/mixed", clamp_mixed);
    add_choice("fold/int1", ct_fold<int, 1>);
    add_choice("fold/int2", ct_fold<int, 2>);
    add_choice("fold/int3", ct_fold<int, 3>);
    add_choice("fold/int4", ct_fold<int, 4>);
    add_choice("fold/int5", ct_fold<int, 5>);
    add_choice("fold/size1", ct_fold<size_t, 1>);
    add_choice("fold/size2", ct_fold<size_t, 2>);
    add_choice("fold/size4", ct_fold<size_t, 4>);
    add_choice("fold/llong3", ct_fold<long long, 3>);
    add_choice("fold/double1", ct_fold<double, 1>);
    add_choice("fold/double2", ct_fold<double, 2>);
    add_choice("fold/double4", ct_fold<double, 4>);
    add_choice("fold/float3", ct_fold<float, 3>);
    add_choice("fold/unsigned3", ct_fold<unsigned, 3>);
    add_choice("raw/int", raw_storage<int, 4>);
    add_choice("raw/string", raw_storage<std::string, 3>);
    add_choice("raw/tracked", raw_storage<Tracked, 3>);
    add_choice("raw/double", raw_storage<double, 2>);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
