#ifndef MC_ARRAY_WORLD_HPP
#define MC_ARRAY_WORLD_HPP
#include "mc/list_world.hpp"
namespace mc {
// ---- Array: exactly n elements, by value -------------------------------------------------------
template<typename A, size_t n>
struct ArrayWorld {
    typedef efp::Array<A, n> C;
    typedef std::vector<int> M;
    Cell<C> a, b;
    M ma, mb;
    enum Op { W0, WLAST, WNTH, WIT, ASG_AB, ASG_BA, MOV_AB, SELF, COPYC, MOVEC, SWAP, IL, IL_SHORT, IL_LONG, RES_N, RES_BAD, RESV, RESV_BAD, TO_VEC, WB, NOPS };
    static int nops() {
        return NOPS;
    }
    ArrayWorld() {
        new (a.blank()) C();
        new (b.blank()) C();
        // a default constructed Array of a class type holds default values; of a scalar it is unspecified
        for (size_t i = 0; i < n; ++i) {
            (*a)[i] = mk<A>(int(i) + 1);
            (*b)[i] = mk<A>(int(i) + 51);
            ma.push_back(int(i) + 1);
            mb.push_back(int(i) + 51);
        }
    }
    bool enabled(int) const {
        return true;
    }
    template<typename F>
    void rejected(const char* what, const F& f) {
        bool t = false;
        try {
            f();
        } catch (const std::exception&) {
            t = true;
        }
        MC_CHECK(t, "%s was not rejected", what);
    }
    static M read(C& c) {
        M m;
        for (size_t i = 0; i < n; ++i)
            m.push_back(val(c[i]));
        return m;
    }
    template<typename... As>
    static C make(std::integral_constant<size_t, 1>) {
        return C {mk<A>(11)};
    }
    static C make(std::integral_constant<size_t, 2>) {
        return C {mk<A>(11), mk<A>(12)};
    }
    static C make(std::integral_constant<size_t, 3>) {
        return C {mk<A>(11), mk<A>(12), mk<A>(13)};
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case W0:
                note("a[0]=7");
                x[0] = mk<A>(7);
                ma[0] = 7;
                break;
            case WLAST:
                note("*(end-1)=8");
                *(x.end() - 1) = mk<A>(8);
                ma.back() = 8;
                break;
            case WNTH:
                note("nth=9");
                efp::nth(n / 2, x) = mk<A>(9);
                ma[n / 2] = 9;
                break;
            case WIT: {
                note("iterate +1");
                int k = 0;
                for (auto& e : x) {
                    e = mk<A>(60 + k);
                    ma[size_t(k)] = 60 + k;
                    ++k;
                }
                MC_CHECK(k == int(n), "iteration visits %d elements", k);
                break;
            }
            case ASG_AB: {
                note("a=b");
                C& r = (x = static_cast<const C&>(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                mb = ma;
                break;
            case MOV_AB: {
                note("a=move(b)");
                C& r = (x = efp::move(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                mb = read(y);
                break;
            }
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case COPYC: {
                note("C t(a); t[0]=30; b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                M mt = ma;
                (*t)[0] = mk<A>(30);
                mt[0] = 30;
                y = *t;
                mb = mt;
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                y = efp::move(*t);
                mb = ma;
                ma = read(x);
                break;
            }
            case SWAP:
                note("swap");
                efp::swap(x, y);
                ma.swap(mb);
                break;
            case IL: {
                note("a={11,..}");
                x = make(std::integral_constant<size_t, n>());
                for (size_t i = 0; i < n; ++i)
                    ma[i] = 11 + int(i);
                break;
            }
            case IL_SHORT: {
                note("short list");
                if (n >= 2)
                    rejected("a list shorter than the Array", [&] {
                        std::initializer_list<A> il = {mk<A>(1)};
                        C t(il);
                        (void)t;
                    });
                break;
            }
            case IL_LONG: {
                note("long list");
                rejected("a list longer than the Array", [&] {
                    std::initializer_list<A> il = {mk<A>(1), mk<A>(2), mk<A>(3), mk<A>(4)};
                    C t(il);
                    (void)t;
                });
                break;
            }
            case RES_N:
                note("resize(n)");
                x.resize(n);
                break;
            case RES_BAD:
                note("resize(bad)");
                rejected("resize to a larger length", [&] { x.resize(n + 1); });
                rejected("resize to a smaller length", [&] { x.resize(n - 1); });
                break;
            case RESV:
                note("reserve(n)");
                x.reserve(n);
                break;
            case RESV_BAD:
                note("reserve(n+1)");
                rejected("reserve beyond the capacity", [&] { x.reserve(n + 1); });
                break;
            case TO_VEC: {
                note("Vector from a");
                efp::Vector<A> v(x);
                MC_CHECK(v.size() == n, "Vector made from an Array has size %zu", v.size());
                for (size_t i = 0; i < n; ++i)
                    MC_CHECK(val(v[i]) == ma[i], "Vector made from an Array differs at %zu", i);
                v[0] = mk<A>(99);
                break;
            }
            case WB:
                note("b[0]=70");
                y[0] = mk<A>(70);
                mb[0] = 70;
                break;
        }
    }
    static void same(C& c, const M& m, const char* who) {
        const C& k = c;
        MC_CHECK(c.size() == n && c.capacity() == n && efp::length(k) == n, "%s has size %zu", who, c.size());
        MC_CHECK(!c.empty(), "%s is empty", who);
        MC_CHECK(size_t(c.end() - c.begin()) == n && size_t(k.end() - k.begin()) == n, "%s iterates wrongly", who);
        for (size_t i = 0; i < n; ++i) {
            MC_CHECK(val(c[i]) == m[i], "%s[%zu] is %d, expected %d", who, i, val(c[i]), m[i]);
            MC_CHECK(val(k[i]) == m[i] && val(c.begin()[i]) == m[i] && val(k.begin()[i]) == m[i] && val(c.data()[i]) == m[i]
                         && val(k.data()[i]) == m[i] && val(efp::nth(i, c)) == m[i] && val(efp::nth(i, k)) == m[i],
                     "%s: access paths disagree at %zu", who, i);
        }
    }
    void check() {
        same(*a, ma, "a");
        same(*b, mb, "b");
        MC_CHECK((*a == *b) == (ma == mb), "a == b is %d", int(*a == *b));
    }
    void key(Hash& h) {
        for (int v : ma)
            h.u(uint64_t(v));
        for (int v : mb)
            h.u(uint64_t(v));
    }
};

}  // namespace mc
#endif
