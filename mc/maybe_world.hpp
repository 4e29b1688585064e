#ifndef MC_MAYBE_WORLD_HPP
#define MC_MAYBE_WORLD_HPP
#include "mc/enum_world.hpp"
namespace mc {
using efp::Maybe;
using efp::nothing;
using efp::Nothing;
// ---- value semantics ---------------------------------------------------------------------------
template<typename A>
struct MaybeWorld {
    typedef Maybe<A> C;
    Cell<C> a, b;
    int ha, va, hb, vb;
    enum Op { SETL, SETR, SET2, NOTHING_, NOTHINGR, B_SET, B_NOTHING, ASG_AB, ASG_BA, MOV_AB, MOV_BA, SELF, SELFMOVE, COPYC, MOVEC, SWAP, WRITE, TAKE, FRESH, PURE, NOPS };
    static int nops() {
        return NOPS;
    }
    MaybeWorld() : ha(0), va(0), hb(0), vb(0) {
        new (a.blank()) C();
        new (b.blank()) C();
    }
    bool enabled(int) const {
        return true;
    }
    static void resync(C& c, int& h, int& v) {
        h = c.has_value();
        v = h ? AltMk<A>::val(c.template get<A>()) : 0;
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case SETL: {
                note("a=1");
                const A t = AltMk<A>::mk(1);
                x = t;
                ha = 1;
                va = 1;
                break;
            }
            case SETR:
                note("a=rvalue 2");
                x = AltMk<A>::mk(2);
                ha = 1;
                va = 2;
                break;
            case SET2:
                note("a=C(3)");
                x = C(AltMk<A>::mk(3));
                ha = 1;
                va = 3;
                break;
            case NOTHING_:
                note("a=nothing");
                x = nothing;
                ha = va = 0;
                break;
            case NOTHINGR:
                note("a=Nothing()");
                x = Nothing();
                ha = va = 0;
                break;
            case B_SET:
                note("b=2");
                y = AltMk<A>::mk(2);
                hb = 1;
                vb = 2;
                break;
            case B_NOTHING:
                note("b=nothing");
                y = nothing;
                hb = vb = 0;
                break;
            case ASG_AB: {
                note("a=b");
                x = static_cast<const C&>(y);
                ha = hb;
                va = vb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                hb = ha;
                vb = va;
                break;
            case MOV_AB:
                note("a=move(b)");
                x = efp::move(y);
                ha = hb;
                va = vb;
                resync(y, hb, vb);
                break;
            case MOV_BA:
                note("b=move(a)");
                y = efp::move(x);
                hb = ha;
                vb = va;
                resync(x, ha, va);
                break;
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                resync(x, ha, va);
                break;
            }
            case COPYC: {
                note("C t(a); b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                same(*t, ha, va, "copy");
                y = *t;
                hb = ha;
                vb = va;
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                same(*t, ha, va, "moved-to");
                y = efp::move(*t);
                hb = ha;
                vb = va;
                resync(x, ha, va);
                break;
            }
            case SWAP:
                note("swap");
                efp::swap(x, y);
                std::swap(ha, hb);
                std::swap(va, vb);
                break;
            case WRITE:
                note("write");
                if (ha) {
                    x.template get<A>() = AltMk<A>::mk(5);
                    va = 5;
                }
                break;
            case TAKE:
                note("take");
                if (ha) {
                    A t(x.move());
                    MC_CHECK(AltMk<A>::val(t) == va, "move() gave %d, expected %d", AltMk<A>::val(t), va);
                    resync(x, ha, va);
                } else
                    MC_CHECK(throws([&] { (void)x.move(); }), "move() of nothing was not rejected");
                break;
            case FRESH:
                note("a=C()");
                x = C();
                ha = va = 0;
                break;
            case PURE:
                note("a=pure(4)");
                x = efp::pure<C>(AltMk<A>::mk(4));
                ha = 1;
                va = 4;
                break;
        }
    }
    static void same(C& c, int h, int v, const char* who) {
        const C& k = c;
        MC_CHECK(c.has_value() == (h != 0) && k.has_value() == (h != 0), "%s.has_value() is %d, expected %d", who, int(c.has_value()), h);
        MC_CHECK(k.is_nothing() == !h, "%s.is_nothing() is wrong", who);
        MC_CHECK(bool(k) == (h != 0) && bool(c) == (h != 0), "%s converts to a wrong bool", who);
        MC_CHECK(k.index() == h, "%s.index() is %d", who, int(k.index()));
        if (h) {
            MC_CHECK(AltMk<A>::val(k.value()) == v && AltMk<A>::val(c.template get<A>()) == v && AltMk<A>::val(k.template get<1>()) == v, "%s holds %d, expected %d", who, AltMk<A>::val(k.value()), v);
            MC_CHECK(throws([&] { (void)k.template get<Nothing>(); }), "%s has a value, yet gives nothing", who);
        } else {
            MC_CHECK(throws([&] { (void)k.value(); }) && throws([&] { (void)c.value(); }) && throws([&] { (void)k.template get<A>(); }) && throws([&] { (void)c.template get<1>(); }),
                     "taking the value of nothing (%s) was not rejected", who);
            MC_CHECK(throws([&] { (void)c.move(); }) && throws([&] { (void)k.move(); }), "moving the value out of nothing (%s) was not rejected", who);
        }
        int n = 0, m = 0;
        int r = k.match([&](const Nothing&) { ++n; return -1; }, [&](const A& t) { ++m; return AltMk<A>::val(t); });
        MC_CHECK(n == !h && m == (h != 0) && r == (h ? v : -1), "match on %s is wrong", who);
        n = m = 0;
        r = k.match([&](const A& t) { ++m; return AltMk<A>::val(t); }, [&]() { ++n; return -1; });
        MC_CHECK(n == !h && m == (h != 0) && r == (h ? v : -1), "match with wildcard on %s is wrong", who);
        int calls = 0;
        auto f = [&](const A& t) { ++calls; return AltMk<A>::val(t) + 10; };
        Maybe<int> q = efp::fmap(f, k);
        MC_CHECK(calls == h && q.has_value() == (h != 0) && (!h || q.value() == v + 10), "fmap on %s is wrong", who);
        calls = 0;
        q = c.fmap(f);
        MC_CHECK(calls == h && q.has_value() == (h != 0) && (!h || q.value() == v + 10), "member fmap on %s is wrong", who);
        // a function that keeps the element type: the source is not changed
        auto g = [&](const A& t) { return AltMk<A>::mk(AltMk<A>::val(t) + 20); };
        Maybe<A> p = efp::fmap(g, k);
        MC_CHECK(p.has_value() == (h != 0) && (!h || AltMk<A>::val(p.value()) == v + 20), "fmap on %s is wrong", who);
        MC_CHECK(k.has_value() == (h != 0) && (!h || AltMk<A>::val(k.value()) == v), "fmap changed %s", who);
        auto kf = [&](const A& t) { return AltMk<A>::val(t) == 1 ? Maybe<A>(nothing) : Maybe<A>(AltMk<A>::mk(AltMk<A>::val(t) + 30)); };
        int eh = h && v != 1;
        p = efp::bind(k, kf);
        MC_CHECK(p.has_value() == (eh != 0) && (!eh || AltMk<A>::val(p.value()) == v + 30), "bind on %s is wrong", who);
        p = c.bind(kf);
        MC_CHECK(p.has_value() == (eh != 0) && (!eh || AltMk<A>::val(p.value()) == v + 30), "member bind on %s is wrong", who);
        p = (c >>= kf);
        MC_CHECK(p.has_value() == (eh != 0) && (!eh || AltMk<A>::val(p.value()) == v + 30), ">>= on %s is wrong", who);
        MC_CHECK(k.has_value() == (h != 0) && (!h || AltMk<A>::val(k.value()) == v), "bind changed %s", who);
    }
    void check() {
        same(*a, ha, va, "a");
        same(*b, hb, vb, "b");
        bool e = ha == hb && va == vb;
        MC_CHECK((*a == *b) == e && (*b == *a) == e && (*a != *b) == !e, "a == b is %d", int(*a == *b));
    }
    void key(Hash& h) {
        h.u(uint64_t(ha));
        h.u(uint64_t(va));
        h.u(uint64_t(hb));
        h.u(uint64_t(vb));
    }
};

}  // namespace mc
#endif
