// Elements that can be moved but not copied: every operation that has no need to copy.
#ifndef MC_MOVEONLY_HPP
#define MC_MOVEONLY_HPP
#include "mc/core.hpp"
#include "efp.hpp"
#include <memory>

namespace mc {

struct Sole {
    std::unique_ptr<Tracked> p;
    Sole() : p(new Tracked(0)) {}
    explicit Sole(int v) : p(new Tracked(v)) {}
    Sole(Sole&& o) noexcept : p(std::move(o.p)) {}
    Sole& operator=(Sole&& o) noexcept {
        p = std::move(o.p);
        return *this;
    }
    Sole(const Sole&) = delete;
    Sole& operator=(const Sole&) = delete;
    bool operator==(const Sole& o) const {
        return p && o.p && *p == *o.p;
    }
};
inline int val(const Sole& s) {
    return s.p ? val(*s.p) : MOVED;
}

template<typename C>
struct SoleTraits;
template<size_t n>
struct SoleTraits<efp::ArrVec<Sole, n>> {
    typedef efp::ArrVec<Sole, n> C;
    enum { cap = n };
    static void emplace(C& c, int v) {
        c.push_back(Sole(v));
    }
    static void shrink(C&) {}
    static void sort_heap(C&, std::vector<int>&) {}
    static void sort_insertion(C&, std::vector<int>&) {}
    static void mapped(C&, std::vector<int>&) {}
};
inline bool sole_less(const Sole& x, const Sole& y) {
    return val(x) < val(y);
}
inline Sole sole_of(int v) {
    return Sole(v);
}
template<>
struct SoleTraits<efp::Vector<Sole>> {
    typedef efp::Vector<Sole> C;
    enum { cap = 1 << 30 };
    static void emplace(C& c, int v) {
        c.emplace_back(v);
    }
    static void shrink(C& c) {
        c.shrink_to_fit();
    }
    static void sort_heap(C& c, std::vector<int>& m) {
        efp::heapsort_by(c, sole_less);
        std::sort(m.begin(), m.end());
    }
    static void sort_insertion(C& c, std::vector<int>& m) {
        efp::insertion_sort_by(c, sole_less);
        std::sort(m.begin(), m.end());
    }
    static void mapped(C& c, std::vector<int>& m) {
        efp::Vector<int> src;
        for (size_t i = 0; i < m.size(); ++i) {
            ++m[i];
            src.push_back(m[i]);
        }
        c = efp::map(sole_of, src);
    }
};

template<typename C_>
struct SoleListWorld {
    typedef C_ C;
    typedef SoleTraits<C> T;
    typedef std::vector<int> M;
    Cell<C> a, b;
    M ma, mb;
    int next;
    enum Op { PUSH, EMPL, POP, ERASE0, ERASEL, ERBAD, RES0, RES_M1, RES_P1, RES_P3, RESERVE, SHRINK, CLEAR, WRITE, MOV_AB, MOV_BA, SELFMOVE, MOVEC, SWAP, SWAPEL, PUSH_OWN, TAKE, HEAP, INSERTION, MAPPED, NOPS };
    static int nops() {
        return NOPS;
    }
    SoleListWorld() : next(1) {
        new (a.blank()) C();
        new (b.blank()) C();
    }
    bool enabled(int o) const {
        size_t n = ma.size();
        bool dynamic = T::cap == 1 << 30;
        switch (o) {
            case PUSH: case EMPL: case RES_P1:
                return n < size_t(T::cap);
            case RES_P3:
                return n + 3 <= size_t(T::cap);
            case ERASE0: case ERASEL: case RES_M1: case WRITE: case TAKE:
                return n > 0;
            case PUSH_OWN:
                return n > 0 && n < size_t(T::cap);
            case SWAPEL:
                return n > 1;
            case SHRINK: case HEAP: case INSERTION: case MAPPED:
                return dynamic;
            default:
                return true;
        }
    }
    template<typename F>
    void rejected(const char* what, const F& f) {
        bool t = false;
        try {
            f();
        } catch (const std::exception&) {
            t = true;
        }
        MC_CHECK(t, "%s was not rejected", what);
    }
    int fresh() {
        int v = next;
        next = next % 7 + 1;
        return v;
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        int v = 0;
        switch (o) {
            case PUSH: {
                v = fresh();
                note("a.push_back(own %d)", v);
                Sole s(v);
                x.push_back(efp::move(s));
                ma.push_back(v);
                break;
            }
            case EMPL:
                v = fresh();
                note("a.emplace_back(%d)", v);
                T::emplace(x, v);
                ma.push_back(v);
                break;
            case POP:
                note("a.pop_back()");
                if (ma.empty())
                    rejected("pop_back on an empty sequence", [&] { x.pop_back(); });
                else {
                    x.pop_back();
                    ma.pop_back();
                }
                break;
            case ERASE0:
                note("a.erase(0)");
                x.erase(0);
                ma.erase(ma.begin());
                break;
            case ERASEL:
                note("a.erase(last)");
                x.erase(ma.size() - 1);
                ma.pop_back();
                break;
            case ERBAD:
                note("a.erase(size)");
                rejected("erase at the end", [&] { x.erase(ma.size()); });
                break;
            case RES0:
                note("a.resize(0)");
                x.resize(0);
                ma.clear();
                break;
            case RES_M1:
                note("a.resize(-1)");
                x.resize(ma.size() - 1);
                ma.pop_back();
                break;
            case RES_P1:
                note("a.resize(+1)");
                x.resize(ma.size() + 1);
                ma.push_back(0);
                break;
            case RES_P3:
                note("a.resize(+3)");
                x.resize(ma.size() + 3);
                ma.resize(ma.size() + 3);
                break;
            case RESERVE:
                note("a.reserve(%d)", int(T::cap == 1 << 30 ? 6 : T::cap));
                x.reserve(T::cap == 1 << 30 ? 6 : size_t(T::cap));
                break;
            case SHRINK:
                note("a.shrink_to_fit()");
                T::shrink(x);
                break;
            case CLEAR:
                note("a.clear()");
                x.clear();
                ma.clear();
                break;
            case WRITE:
                v = fresh();
                note("a[0]=own %d", v);
                x[0] = Sole(v);
                ma[0] = v;
                break;
            case MOV_AB:
                note("b=move(a)");
                y = efp::move(x);
                mb = ma;
                ma.clear();
                x.clear();
                break;
            case MOV_BA:
                note("a=move(b)");
                x = efp::move(y);
                ma = mb;
                mb.clear();
                y.clear();
                break;
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                break;
            }
            case MOVEC: {
                note("a=C(move(b))");
                C t(efp::move(y));
                x = efp::move(t);
                ma = mb;
                mb.clear();
                y.clear();
                break;
            }
            case SWAP:
                note("swap(a,b)");
                efp::swap(x, y);
                ma.swap(mb);
                break;
            case SWAPEL:
                note("swap(a[0],a[last])");
                efp::swap(x[0], x[ma.size() - 1]);
                std::swap(ma[0], ma.back());
                break;
            case PUSH_OWN:
                v = fresh();
                note("a.push_back(move(a[0])); a[0]=%d", v);
                x.push_back(efp::move(x[0]));
                x[0] = Sole(v);
                ma.push_back(ma[0]);
                ma[0] = v;
                break;
            case TAKE: {
                v = fresh();
                note("take a[last], give %d", v);
                Sole s(efp::move(x[ma.size() - 1]));
                MC_CHECK(val(s) == ma.back(), "the element taken is %d, expected %d", val(s), ma.back());
                x[ma.size() - 1] = Sole(v);
                ma.back() = v;
                break;
            }
            case HEAP:
                note("heapsort_by(a)");
                T::sort_heap(x, ma);
                break;
            case INSERTION:
                note("insertion_sort_by(a)");
                T::sort_insertion(x, ma);
                break;
            case MAPPED:
                note("a=map(make owned, ...)");
                T::mapped(x, ma);
                break;
        }
    }
    void one(const C& c, const M& m, const char* nm) {
        MC_CHECK(c.size() == m.size(), "%s has %zu elements, expected %zu", nm, size_t(c.size()), m.size());
        MC_CHECK(c.capacity() >= c.size(), "capacity of %s is below its size", nm);
        for (size_t i = 0; i < m.size(); ++i)
            MC_CHECK(val(c[i]) == m[i], "%s[%zu] is %d, expected %d", nm, i, val(c[i]), m[i]);
        size_t i = 0;
        for (const Sole& s : c) {
            MC_CHECK(i < m.size() && val(s) == m[i], "iteration over %s differs at %zu", nm, i);
            ++i;
        }
        MC_CHECK(i == m.size(), "iteration over %s visits %zu elements", nm, i);
    }
    void check() {
        one(*a, ma, "a");
        one(*b, mb, "b");
        MC_CHECK((*a == *b) == (ma == mb), "a == b is wrong");
    }
    void key(Hash& h) {
        h.u(a->capacity());
        h.u(b->capacity());
        h.u(uint64_t(next));
        h.u(ma.size());
        for (int v : ma)
            h.u(uint64_t(v));
        h.u(mb.size());
        for (int v : mb)
            h.u(uint64_t(v));
    }
};

// E holds a Sole as alternative k, and something else otherwise
template<typename E_>
struct SoleEnumWorld {
    typedef E_ E;
    Cell<E> a, b;
    int ma, mb;  // -1: the other alternative; MOVED: an owner without its value
    int next;
    enum Op { OWN, OTHER, MOV_AB, MOV_BA, SELFMOVE, MOVEC, SWAP, TAKE, GIVE, MATCH, NOPS };
    static int nops() {
        return NOPS;
    }
    static E other(const efp::Maybe<Sole>*) {
        return efp::nothing;
    }
    static E other(const efp::Enum<int, Sole, std::string>*) {
        return E(std::string("another alternative, long enough to be on the heap"));
    }
    static E other(const efp::Enum<Sole, int>*) {
        return E(7);
    }
    static E other() {
        return other((const E*)0);
    }
    static const Sole& peek(const E& e) {
        return e.template get<Sole>();
    }
    template<typename... As>
    static Sole take(efp::Enum<As...>& e) {
        return e.template move<Sole>();
    }
    static Sole take(efp::Maybe<Sole>& e) {
        return e.move();
    }
    static bool has(const E& e) {
        return e.match([](const Sole&) { return true; }, []() { return false; });
    }
    SoleEnumWorld() : ma(-1), mb(-1), next(1) {
        new (a.blank()) E(other());
        new (b.blank()) E(other());
    }
    bool enabled(int o) const {
        return o == TAKE || o == GIVE ? ma != -1 : true;
    }
    int fresh() {
        int v = next;
        next = next % 3 + 1;
        return v;
    }
    void apply(int o) {
        E& x = *a;
        E& y = *b;
        int v = 0;
        switch (o) {
            case OWN:
                v = fresh();
                note("a=own %d", v);
                x = Sole(v);
                ma = v;
                break;
            case OTHER:
                note("a=other");
                x = other();
                ma = -1;
                break;
            case MOV_AB:
                note("b=move(a)");
                y = efp::move(x);
                mb = ma;
                if (ma != -1)
                    ma = MOVED;
                break;
            case MOV_BA:
                note("a=move(b)");
                x = efp::move(y);
                ma = mb;
                if (mb != -1)
                    mb = MOVED;
                break;
            case SELFMOVE: {
                note("a=move(a)");
                E& z = x;
                x = efp::move(z);
                break;
            }
            case MOVEC: {
                note("a=E(move(b))");
                E t(efp::move(y));
                x = efp::move(t);
                ma = mb;
                if (mb != -1)
                    mb = MOVED;
                break;
            }
            case SWAP:
                note("swap(a,b)");
                efp::swap(x, y);
                std::swap(ma, mb);
                break;
            case TAKE: {
                note("take the value of a");
                Sole s(take(x));
                MC_CHECK(val(s) == ma, "the value taken is %d, expected %d", val(s), ma);
                ma = MOVED;
                break;
            }
            case GIVE:
                v = fresh();
                note("write %d through get", v);
                x.template get<Sole>() = Sole(v);
                ma = v;
                break;
            case MATCH: {
                note("match on a");
                int got = x.match([](const Sole& s) { return val(s); }, []() { return -5; });
                MC_CHECK(got == (ma == -1 ? -5 : ma), "match gave %d, expected %d", got, ma);
                break;
            }
        }
        // an owner without its value gets one, so that every state is told apart
        if (mb == MOVED) {
            y = Sole(6);
            mb = 6;
        }
    }
    void one(const E& e, int m, const char* nm) {
        MC_CHECK(has(e) == (m != -1), "%s holds the wrong alternative", nm);
        if (m != -1)
            MC_CHECK(val(peek(e)) == m, "%s holds %d, expected %d", nm, val(peek(e)), m);
    }
    void check() {
        one(*a, ma, "a");
        one(*b, mb, "b");
    }
    void key(Hash& h) {
        h.u(uint64_t(ma));
        h.u(uint64_t(mb));
        h.u(uint64_t(next));
    }
};

}  // namespace mc
#endif
