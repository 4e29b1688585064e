#ifndef MC_ENUM_WORLD_HPP
#define MC_ENUM_WORLD_HPP
#include "mc/core.hpp"
#include "efp.hpp"

namespace mc {

// alternatives of different size, alignment and ownership
struct Small {
    char c;
    bool operator==(const Small& o) const {
        return c == o.c;
    }
};
struct alignas(32) Wide {
    int v;
    char pad[40];
    bool operator==(const Wide& o) const {
        return v == o.v;
    }
};
struct Empty {
    bool operator==(const Empty&) const {
        return true;
    }
};
struct Heap {  // owns memory and a tracked object
    Tracked* p;
    Heap() : p(new Tracked(0)) {}
    explicit Heap(int v) : p(new Tracked(v)) {}
    Heap(const Heap& o) : p(o.p ? new Tracked(*o.p) : nullptr) {}
    Heap(Heap&& o) : p(o.p) {
        o.p = nullptr;
    }
    Heap& operator=(const Heap& o) {
        if (this != &o) {
            delete p;
            p = o.p ? new Tracked(*o.p) : nullptr;
        }
        return *this;
    }
    Heap& operator=(Heap&& o) {
        if (this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Heap() {
        delete p;
        p = nullptr;
    }
    bool operator==(const Heap& o) const {
        return (!p && !o.p) || (p && o.p && p->v == o.p->v);
    }
};

template<typename T>
struct AltMk {
    static T mk(int v) {
        return mc::mk<T>(v);
    }
    static int val(const T& t) {
        return mc::val(t);
    }
};
template<>
struct AltMk<Small> {
    static Small mk(int v) {
        Small s;
        s.c = char(v);
        return s;
    }
    static int val(const Small& s) {
        return s.c;
    }
};
template<>
struct AltMk<Wide> {
    static Wide mk(int v) {
        Wide w;
        memset((void*)&w, 0x11, sizeof w);
        w.v = v;
        return w;
    }
    static int val(const Wide& w) {
        for (char c : w.pad)
            MC_CHECK(c == 0x11, "a byte of the stored value was lost");
        return w.v;
    }
};
template<>
struct AltMk<Empty> {
    static Empty mk(int) {
        return Empty();
    }
    static int val(const Empty&) {
        return 0;
    }
};
template<>
struct AltMk<double> {
    static double mk(int v) {
        return v + 0.5;
    }
    static int val(const double& d) {
        return int(d - 0.5);
    }
};
template<>
struct AltMk<Heap> {
    static Heap mk(int v) {
        return Heap(v);
    }
    static int val(const Heap& h) {
        return h.p ? mc::val(*h.p) : MOVED;
    }
};

template<typename T>
struct Hit {
    int* who;
    int* calls;
    int* value;
    int id;
    int operator()(const T& t) const {
        *who = id;
        ++*calls;
        *value = AltMk<T>::val(t);
        return 1000 + id;
    }
};
struct HitAny {
    int* who;
    int* calls;
    int id;
    int operator()() const {
        *who = id;
        ++*calls;
        return 2000 + id;
    }
};

template<typename F>
bool throws(const F& f) {
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

template<typename A0, typename A1, typename A2, typename A3, typename A4>
struct EnumWorld {
    typedef efp::Enum<A0, A1, A2, A3, A4> C;
    Cell<C> a, b;
    int ia, va, ib, vb;
    // assignments of every alternative as lvalue and rvalue, plus value semantics
    enum Op { L0, L1, L2, L3, L4, R0, R1, R2, R3, R4, B1, B2, B3, B4, ASG_AB, ASG_BA, MOV_AB, MOV_BA, SELF, SELFMOVE, COPYC, MOVEC, SWAP, WRITE, TAKE, FRESH, NOPS };
    static int nops() {
        return NOPS;
    }
    EnumWorld() : ia(0), va(0), ib(0), vb(0) {
        new (a.blank()) C();
        new (b.blank()) C();
        // a default constructed Enum holds its default constructed first alternative
        va = AltMk<A0>::val(a->template get<0>());
        vb = va;
    }
    bool enabled(int) const {
        return true;
    }
    template<typename T>
    static T& as(C& c) {
        return c.template get<T>();
    }
    static int cur(C& c, int i) {
        switch (i) {
            case 0: return AltMk<A0>::val(c.template get<0>());
            case 1: return AltMk<A1>::val(c.template get<1>());
            case 2: return AltMk<A2>::val(c.template get<2>());
            case 3: return AltMk<A3>::val(c.template get<3>());
            default: return AltMk<A4>::val(c.template get<4>());
        }
    }
    template<typename T>
    void lset(C& c, int v) {
        const T t = AltMk<T>::mk(v);
        c = t;
    }
    template<typename T>
    void rset(C& c, int v) {
        c = C(AltMk<T>::mk(v));
    }
    template<typename T>
    static int norm(int v) {
        return AltMk<T>::val(AltMk<T>::mk(v));
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case L0: note("a=alt0(1)"); lset<A0>(x, 1); ia = 0; va = norm<A0>(1); break;
            case L1: note("a=alt1(2)"); lset<A1>(x, 2); ia = 1; va = norm<A1>(2); break;
            case L2: note("a=alt2(3)"); lset<A2>(x, 3); ia = 2; va = norm<A2>(3); break;
            case L3: note("a=alt3(4)"); lset<A3>(x, 4); ia = 3; va = norm<A3>(4); break;
            case L4: note("a=alt4(5)"); lset<A4>(x, 5); ia = 4; va = norm<A4>(5); break;
            case R0: note("a=C(rvalue alt0(1))"); rset<A0>(x, 1); ia = 0; va = norm<A0>(1); break;
            case R1: note("a=C(rvalue alt1(6))"); rset<A1>(x, 6); ia = 1; va = norm<A1>(6); break;
            case R2: note("a=C(rvalue alt2(7))"); rset<A2>(x, 7); ia = 2; va = norm<A2>(7); break;
            case R3: note("a=C(rvalue alt3(8))"); rset<A3>(x, 8); ia = 3; va = norm<A3>(8); break;
            case R4: note("a=C(rvalue alt4(9))"); rset<A4>(x, 9); ia = 4; va = norm<A4>(9); break;
            case B1: note("b=alt1(2)"); lset<A1>(y, 2); ib = 1; vb = norm<A1>(2); break;
            case B2: note("b=alt2(3)"); rset<A2>(y, 3); ib = 2; vb = norm<A2>(3); break;
            case B3: note("b=alt3(4)"); lset<A3>(y, 4); ib = 3; vb = norm<A3>(4); break;
            case B4: note("b=alt4(5)"); rset<A4>(y, 5); ib = 4; vb = norm<A4>(5); break;
            case ASG_AB: {
                note("a=b");
                C& r = (x = static_cast<const C&>(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ia = ib;
                va = vb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                ib = ia;
                vb = va;
                break;
            case MOV_AB:
                note("a=move(b)");
                x = efp::move(y);
                ia = ib;
                va = vb;
                resync(y, ib, vb);
                break;
            case MOV_BA:
                note("b=move(a)");
                y = efp::move(x);
                ib = ia;
                vb = va;
                resync(x, ia, va);
                break;
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                resync(x, ia, va);
                break;
            }
            case COPYC: {
                note("C t(a); b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                MC_CHECK(t->index() == ia && cur(*t, ia) == va, "copy holds alternative %d", int(t->index()));
                MC_CHECK(x.index() == ia && cur(x, ia) == va, "copying changed the source");
                y = *t;
                ib = ia;
                vb = va;
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                MC_CHECK(t->index() == ia && cur(*t, ia) == va, "moved-to holds alternative %d", int(t->index()));
                y = efp::move(*t);
                ib = ia;
                vb = va;
                resync(x, ia, va);
                break;
            }
            case SWAP:
                note("swap");
                efp::swap(x, y);
                std::swap(ia, ib);
                std::swap(va, vb);
                break;
            case WRITE:
                note("write through get");
                if (ia == 1) {
                    x.template get<A1>() = AltMk<A1>::mk(33);
                    va = norm<A1>(33);
                } else if (ia == 2) {
                    x.template get<2>() = AltMk<A2>::mk(34);
                    va = norm<A2>(34);
                } else if (ia == 3) {
                    x.template get<A3>() = AltMk<A3>::mk(35);
                    va = norm<A3>(35);
                }
                break;
            case TAKE:
                note("take by move<>");
                if (ia == 1) {
                    A1 t(x.template move<A1>());
                    MC_CHECK(AltMk<A1>::val(t) == va, "move<> gave %d, expected %d", AltMk<A1>::val(t), va);
                    resync(x, ia, va);
                } else if (ia == 4) {
                    A4 t(x.template move<4>());
                    MC_CHECK(AltMk<A4>::val(t) == va, "move<> gave %d, expected %d", AltMk<A4>::val(t), va);
                    resync(x, ia, va);
                }
                break;
            case FRESH:
                note("a=C()");
                x = C();
                ia = 0;
                va = AltMk<A0>::val(A0 {});
                break;
        }
    }
    // after a move the source still holds the same alternative (or another one); its value is unspecified
    static void resync(C& c, int& i, int& v) {
        i = c.index();
        MC_CHECK(i >= 0 && i < 5, "index %d of a moved-from Enum is not an alternative", i);
        v = cur(c, i);
    }
    void same(C& c, int i, int v, const char* who) {
        const C& k = c;
        MC_CHECK(c.index() == i && k.index() == i, "%s has index %d, expected %d", who, int(c.index()), i);
        MC_CHECK(cur(c, i) == v, "%s holds value %d, expected %d", who, cur(c, i), v);
#define MC_ALT(j, T)                                                                                                   \
    if (i == j) {                                                                                                      \
        MC_CHECK(AltMk<T>::val(c.template get<T>()) == v && AltMk<T>::val(k.template get<T>()) == v                    \
                     && AltMk<T>::val(k.template get<j>()) == v,                                                       \
                 "%s: get disagrees", who);                                                                            \
        MC_CHECK((const void*)&k.template get<T>() >= (const void*)&k                                                  \
                     && (const char*)(&k.template get<T>() + 1) <= (const char*)(&k + 1),                              \
                 "%s: value is not inside the Enum", who);                                                             \
        MC_CHECK((uintptr_t)&k.template get<T>() % alignof(T) == 0, "%s: value is misaligned", who);                   \
    } else {                                                                                                           \
        MC_CHECK(throws([&] { (void)c.template get<T>(); }) && throws([&] { (void)k.template get<T>(); })              \
                     && throws([&] { (void)c.template get<j>(); }) && throws([&] { (void)k.template get<j>(); }),      \
                 "%s holds alternative %d but access to alternative %d was not rejected", who, i, j);                  \
        MC_CHECK(throws([&] { (void)c.template move<T>(); }) && throws([&] { (void)c.template move<j>(); })            \
                     && throws([&] { (void)k.template move<T>(); }) && throws([&] { (void)k.template move<j>(); }),    \
                 "%s holds alternative %d but moving out alternative %d was not rejected", who, i, j);                 \
    }
        MC_ALT(0, A0)
        MC_ALT(1, A1)
        MC_ALT(2, A2)
        MC_ALT(3, A3)
        MC_ALT(4, A4)
#undef MC_ALT
        int w = -1, n = 0, x = -1;
        int r = k.match(Hit<A0> {&w, &n, &x, 0}, Hit<A1> {&w, &n, &x, 1}, Hit<A2> {&w, &n, &x, 2}, Hit<A3> {&w, &n, &x, 3}, Hit<A4> {&w, &n, &x, 4});
        MC_CHECK(n == 1 && w == i && x == v && r == 1000 + i, "match on %s called %d branches, last %d with %d, returned %d", who, n, w, x, r);
        w = -1, n = 0, x = -1;
        r = k.match(Hit<A4> {&w, &n, &x, 4}, Hit<A2> {&w, &n, &x, 2}, Hit<A0> {&w, &n, &x, 0}, Hit<A3> {&w, &n, &x, 3}, Hit<A1> {&w, &n, &x, 1});
        MC_CHECK(n == 1 && w == i && x == v && r == 1000 + i, "match (other order) on %s called %d branches, last %d", who, n, w);
        w = -1, n = 0, x = -1;
        r = k.match(Hit<A1> {&w, &n, &x, 1}, Hit<A3> {&w, &n, &x, 3}, HitAny {&w, &n, 9});
        int e = i == 1 || i == 3 ? i : 9;
        MC_CHECK(n == 1 && w == e && r == (e == 9 ? 2009 : 1000 + e), "match with wildcard on %s called %d branches, last %d, expected %d", who, n, w, e);
        w = -1, n = 0;
        r = k.match(HitAny {&w, &n, 8});
        MC_CHECK(n == 1 && w == 8 && r == 2008, "match with only a wildcard on %s is wrong", who);
    }
    void check() {
        same(*a, ia, va, "a");
        same(*b, ib, vb, "b");
        bool e = ia == ib && va == vb;
        MC_CHECK((*a == *b) == e && (*b == *a) == e && (*a != *b) == !e, "a == b is %d (alternatives %d, %d)", int(*a == *b), ia, ib);
        MC_CHECK(*a == *a && !(*a != *a), "a is not equal to itself");
    }
    void key(Hash& h) {
        h.u(uint64_t(ia));
        h.u(uint64_t(va));
        h.u(uint64_t(ib));
        h.u(uint64_t(vb));
    }
};

}  // namespace mc
#endif
