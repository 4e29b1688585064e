#ifndef MC_ENUM_MANY_HPP
#define MC_ENUM_MANY_HPP
#include "mc/enum_world.hpp"
#include <utility>
using namespace mc;

template<int i>
struct X {
    int v;
    unsigned char pad[i % 7 + 1];
    X() : v(0) {}
    X(int x) : v(x) {
        memset(pad, i, sizeof pad);
    }
    bool operator==(const X& o) const {
        return v == o.v;
    }
};

template<int... is>
struct Ix {};
template<int n, int... is>
struct MkIx: MkIx<n - 1, n - 1, is...> {};
template<int... is>
struct MkIx<0, is...> {
    typedef Ix<is...> T;
};

struct Rec {
    int who, calls, value;
};
template<int i>
struct Br {
    Rec* r;
    int operator()(const X<i>& x) const {
        r->who = i;
        ++r->calls;
        r->value = x.v;
        return 3 * i + 1;
    }
};
struct Any {
    Rec* r;
    int operator()() const {
        r->who = -5;
        ++r->calls;
        return -7;
    }
};

template<int n, int first, typename I>
struct Many;
template<int n, int first, int... is>
struct Many<n, first, Ix<is...>> {
    typedef efp::Enum<X<first + is>...> E;
    template<int i>
    static E make(int v) {
        return E(X<first + i>(v));
    }
    template<int i>
    static bool get_t(const E& e) {
        try {
            return e.template get<X<first + i>>().v != -1;
        } catch (const std::exception&) {
            return false;
        }
    }
    template<int i>
    static bool get_i(const E& e) {
        try {
            return e.template get<i>().v != -1;
        } catch (const std::exception&) {
            return false;
        }
    }
    template<int i>
    static int value(const E& e) {
        return e.template get<i>().v;
    }
    static void holds(const E& e, int i, int v, const char* who, bool full = false) {
        typedef bool (*B)(const E&);
        typedef int (*V)(const E&);
        static const B gt[] = {&get_t<is>...};
        static const B gi[] = {&get_i<is>...};
        static const V gv[] = {&value<is>...};
        MC_CHECK(e.index() == i, "%s of %d alternatives has index %d, expected %d", who, n, int(e.index()), i);
        for (int j = 0; j < n; ++j) {
            // every alternative once; afterwards, for many alternatives, those that are most easily confused
            if (n > 20 && !full && j != i && j != i + 1 && j != i - 1 && j != (i ^ 16) && j != (i ^ 32) && j != (i ^ 64) && j != (i ^ 128) && j != 0 && j != n - 1)
                continue;
            MC_CHECK(gt[j](e) == (j == i), "%s holds alternative %d of %d: get by type of %d %s", who, i, n, j, j == i ? "rejected" : "accepted");
            MC_CHECK(gi[j](e) == (j == i), "%s holds alternative %d of %d: get by index of %d %s", who, i, n, j, j == i ? "rejected" : "accepted");
        }
        MC_CHECK(gv[i](e) == v, "%s holds alternative %d of %d with value %d, expected %d", who, i, n, gv[i](e), v);
        Rec r = {-1, 0, -1};
        int x = e.match(Br<first + is> {&r}...);
        MC_CHECK(r.calls == 1 && r.who == first + i && r.value == v && x == 3 * (first + i) + 1, "match on alternative %d of %d called %d branches, last %d, returned %d", i, n, r.calls, r.who - first, x);
        r.who = -1;
        r.calls = 0;
        x = e.match(Br<first> {&r}, Any {&r});
        int w = i == 0 ? first + i : -5;
        MC_CHECK(r.calls == 1 && r.who == w && x == (w == -5 ? -7 : 3 * w + 1), "match with wildcard on alternative %d of %d called %d branches, last %d, returned %d", i, n, r.calls, r.who, x);
        r.who = -1;
        r.calls = 0;
        x = e.match(Br<first + n - 1> {&r}, Any {&r});
        w = i == n - 1 ? first + i : -5;
        MC_CHECK(r.calls == 1 && r.who == w && x == (w == -5 ? -7 : 3 * w + 1), "match with wildcard on alternative %d of %d called %d branches, last %d, returned %d", i, n, r.calls, r.who, x);
        r.calls = 0;
        x = e.match(Any {&r});
        MC_CHECK(r.calls == 1 && x == -7, "wildcard-only match on alternative %d of %d is wrong", i, n);
    }
    static void body() {
        typedef E (*Mk)(int);
        static const Mk mkers[] = {&make<is>...};
        int i = choose(n);
        int j = choose(n);
        note("%d alternatives: %d then %d", n, i, j);
        E e = mkers[i](7);
        holds(e, i, 7, "Enum", j == 0);
        E f = mkers[j](9);
        E g(f);
        holds(g, j, 9, "copy");
        MC_CHECK((e == f) == false && (f == g) == true && (e != f) == true, "equality of alternatives %d and %d of %d is wrong", i, j, n);
        E h = mkers[i](9);
        MC_CHECK((h == f) == (i == j) && (h != f) == (i != j), "equality of alternatives %d and %d of %d with equal values is wrong", i, j, n);
        e = f;
        holds(e, j, 9, "assigned Enum");
        E k = mkers[i](8);
        e = std::move(k);
        holds(e, i, 8, "move-assigned Enum");
        E m(std::move(e));
        holds(m, i, 8, "move-constructed Enum");
        efp::swap(m, f);
        holds(m, j, 9, "swapped Enum");
        holds(f, i, 8, "swapped Enum");
        E d;
        holds(d, 0, 0, "default Enum");
        outcome(uint64_t(i) * 1000 + uint64_t(j));
    }
};
template<int n, int first = 0>
static void add_many(int shards = 1) {
    char b[32];
    snprintf(b, sizeof b, "alternatives-%d", n);
    add_choice(b, &Many<n, first, typename MkIx<n>::T>::body, shards);
}

#endif
