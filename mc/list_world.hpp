// World for list-like containers (efp::Vector, efp::ArrVec): two containers a, b and every operation
// of the public interface, against std::vector<int> models.
#ifndef MC_LIST_WORLD_HPP
#define MC_LIST_WORLD_HPP
#include "mc/core.hpp"
#include "mc/alloc.hpp"
#include "mc/alloc.hpp"
#include "efp.hpp"

namespace mc {

template<typename T>
inline bool throws_(const std::function<void()>& f) {
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

// F is a template functor so that operations a container does not have are never instantiated
template<typename C>
struct ListTraits;

template<typename A, typename Al>
struct ListTraits<efp::Vector<A, Al>> {
    enum { bounded = 0, cap = 1 << 30 };
    typedef efp::Vector<A, Al> C;
    static void emplace(C& c, int v) {
        c.emplace_back(mk<A>(v));
    }
    static void emplace_own(C& c) {
        c.emplace_back(c[0]);
    }
    static void shrink(C& c) {
        c.shrink_to_fit();
    }
    static void from_other(void* p, int k) {
        if (k == 0) {
            efp::Array<A, 2> x {mk<A>(21), mk<A>(22)};
            new (p) C(x);
        } else {
            efp::ArrVec<A, 3> x;
            x.push_back(mk<A>(23));
            new (p) C(x);
        }
    }
};

template<typename A, size_t n>
struct ListTraits<efp::ArrVec<A, n>> {
    enum { bounded = 1, cap = n };
    typedef efp::ArrVec<A, n> C;
    static void emplace(C& c, int v) {
        c.push_back(mk<A>(v));
    }
    static void emplace_own(C& c) {
        c.push_back(c[0]);
    }
    static void shrink(C&) {}
    static void from_other(void* p, int k) {
        if (k == 0) {
            efp::ArrVec<A, n == 1 ? 1 : n - 1> x;
            if (n > 1)
                x.push_back(mk<A>(21));
            new (p) C(x);
        } else {
            efp::ArrVec<A, 1> x;
            new (p) C(x);
        }
    }
    static std::vector<int> from_model(int k) {
        return k == 0 && n > 1 ? std::vector<int> {21} : std::vector<int> {};
    }
};

template<typename A, typename Al>
std::vector<int> from_model(const efp::Vector<A, Al>*, int k) {
    return k == 0 ? std::vector<int> {21, 22} : std::vector<int> {23};
}
template<typename A, size_t n>
std::vector<int> from_model(const efp::ArrVec<A, n>*, int k) {
    return ListTraits<efp::ArrVec<A, n>>::from_model(k);
}

template<typename C, bool lifetime_only = false>
struct ListWorld {
    typedef typename C::Element A;
    typedef ListTraits<C> Tr;
    typedef std::vector<int> M;
    Cell<C> a, b;
    M ma, mb;

    enum Op {
        PUSH_L, PUSH_R, EMPLACE, PUSH_OWN, PUSH_OWN_R, EMPLACE_OWN, POP, INS_0, INS_END, INS_OWN, INS_BAD, ER_0, ER_LAST, ER_MID, ER_BAD,
        RES_0, RES_P1, RES_3, RES_M1, RESERVE, RESERVE_BIG, HUGE_SIZE, SHRINK, CLEAR, W0, WLAST, WNTH, ASG_AB, ASG_BA, MOV_AB, SELF, SELFMOVE, COPYC, MOVEC, SWAP, IL2, IL0,
        CONV0, CONV1, PUSH_B, NOPS
    };

    ListWorld() {
        new (a.blank()) C();
        new (b.blank()) C();
    }
    static int nops() {
        return NOPS;
    }
    bool enabled(int o) const {
        switch (o) {
            case PUSH_OWN: case PUSH_OWN_R: case EMPLACE_OWN: case INS_OWN: case W0: case WLAST: case WNTH: case ER_LAST: case RES_M1:
                return !ma.empty();
            case ER_MID:
                return ma.size() >= 3;
            case SHRINK:
                return !Tr::bounded;
            case PUSH_B:
                return mb.size() < 3;
            default:
                return true;
        }
    }
    static M read(C& c) {
        M m;
        for (size_t i = 0; i < c.size(); ++i)
            m.push_back(val(c[i]));
        return m;
    }
    // an operation that must be rejected without effect
    template<typename F>
    void rejected(const char* what, const F& f) {
        bool t = false;
        try {
            f();
        } catch (const std::exception&) {
            t = true;
        }
        MC_CHECK(t, "%s was not rejected", what);
    }
    bool full() const {
        return Tr::bounded && ma.size() >= size_t(Tr::cap);
    }
    bool fits(size_t n) const {
        return !Tr::bounded || n <= size_t(Tr::cap);
    }

    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case PUSH_L: {
                note("a.push_back(1)");
                const A v = mk<A>(1);
                if (full())
                    rejected("push_back into a full container", [&] { x.push_back(v); });
                else {
                    x.push_back(v);
                    ma.push_back(1);
                    MC_CHECK(val(v) == 1, "push_back(const&) modified its argument");
                }
                break;
            }
            case PUSH_R: {
                note("a.push_back(rvalue 2)");
                if (full())
                    rejected("push_back into a full container", [&] { x.push_back(mk<A>(2)); });
                else {
                    x.push_back(mk<A>(2));
                    ma.push_back(2);
                }
                break;
            }
            case EMPLACE:
                note("a.emplace_back(3)");
                if (full())
                    rejected("emplace_back into a full container", [&] { Tr::emplace(x, 3); });
                else {
                    Tr::emplace(x, 3);
                    ma.push_back(3);
                }
                break;
            case PUSH_OWN:
                note("a.push_back(a[0])");
                if (full())
                    rejected("push_back into a full container", [&] { x.push_back(x[0]); });
                else {
                    x.push_back(x[0]);
                    ma.push_back(ma[0]);
                }
                break;
            case PUSH_OWN_R:
                note("a.push_back(move(a[0]))");
                if (full())
                    break;
                x.push_back(efp::move(x[0]));
                ma.push_back(ma[0]);
                MC_CHECK(x.size() >= 1, "push_back left the container empty");
                ma[0] = val(x[0]);  // moved-from: unspecified
                break;
            case EMPLACE_OWN:
                note("a.emplace_back(a[0])");
                if (full())
                    break;
                Tr::emplace_own(x);
                ma.push_back(ma[0]);
                break;
            case POP:
                note("a.pop_back()");
                if (ma.empty())
                    rejected("pop_back of an empty container", [&] { x.pop_back(); });
                else {
                    x.pop_back();
                    ma.pop_back();
                }
                break;
            case INS_0: case INS_END: {
                size_t p = o == INS_0 ? 0 : ma.size();
                int v = o == INS_0 ? 4 : 5;
                note("a.insert(%zu, %d)", p, v);
                const A e = mk<A>(v);
                if (full())
                    rejected("insert into a full container", [&] { x.insert(p, e); });
                else {
                    x.insert(p, e);
                    ma.insert(ma.begin() + p, v);
                }
                break;
            }
            case INS_OWN: {
                size_t p = ma.size() >= 2 ? 1 : 0;
                note("a.insert(%zu, a[last])", p);
                if (full())
                    rejected("insert into a full container", [&] { x.insert(p, x[x.size() - 1]); });
                else {
                    int v = ma.back();
                    x.insert(p, x[x.size() - 1]);
                    ma.insert(ma.begin() + p, v);
                }
                break;
            }
            case INS_BAD: {
                note("a.insert(size+1, 6)");
                const A e = mk<A>(6);
                rejected("insert beyond the end", [&] { x.insert(ma.size() + 1, e); });
                rejected("insert beyond the end", [&] { x.insert(size_t(-1), e); });
                break;
            }
            case ER_0:
                note("a.erase(0)");
                if (ma.empty())
                    rejected("erase from an empty container", [&] { x.erase(0); });
                else {
                    x.erase(0);
                    ma.erase(ma.begin());
                }
                break;
            case ER_LAST:
                note("a.erase(last)");
                x.erase(ma.size() - 1);
                ma.pop_back();
                break;
            case ER_MID:
                note("a.erase(1)");
                x.erase(1);
                ma.erase(ma.begin() + 1);
                break;
            case ER_BAD:
                note("a.erase(size)");
                rejected("erase beyond the end", [&] { x.erase(ma.size()); });
                rejected("erase beyond the end", [&] { x.erase(size_t(-1)); });
                break;
            case RES_0: case RES_P1: case RES_3: case RES_M1: {
                size_t n = o == RES_0 ? 0 : o == RES_P1 ? ma.size() + 1 : o == RES_3 ? 3 : ma.size() - 1;
                note("a.resize(%zu)", n);
                if (!fits(n))
                    rejected("resize beyond the capacity", [&] { x.resize(n); });
                else {
                    x.resize(n);
                    ma.resize(n, 0);
                }
                break;
            }
            case RESERVE: {
                size_t n = Tr::bounded ? size_t(Tr::cap) : ma.size() + 3;
                note("a.reserve(%zu)", n);
                x.reserve(n);
                MC_CHECK(x.capacity() >= n, "capacity %zu after reserve(%zu)", x.capacity(), n);
                break;
            }
            case RESERVE_BIG:
                if (Tr::bounded) {
                    note("a.reserve(cap+1)");
                    rejected("reserve beyond the capacity", [&] { x.reserve(size_t(Tr::cap) + 1); });
                } else {
                    note("a.reserve(1)");
                    x.reserve(1);
                }
                break;
            case HUGE_SIZE: {
                const size_t top = size_t(-1);
                const size_t sizes[] = {top, top - 1, top / sizeof(A) + 1, top / sizeof(A)};
                for (size_t n : sizes) {
                    note("a.resize(%zu), a.reserve(%zu)", n, n);
                    if (n >= top_size<A>()) {
                        rejected("resize beyond the address space", [&] { x.resize(n); });
                    }
                    if (n > top_size<A>())
                        rejected("reserve beyond the address space", [&] { x.reserve(n); });
                }
                break;
            }
            case SHRINK:
                note("a.shrink_to_fit()");
                Tr::shrink(x);
                break;
            case CLEAR:
                note("a.clear()");
                x.clear();
                ma.clear();
                break;
            case W0:
                note("a[0]=7");
                x[0] = mk<A>(7);
                ma[0] = 7;
                break;
            case WLAST:
                note("*(a.end()-1)=8");
                *(x.end() - 1) = mk<A>(8);
                ma.back() = 8;
                break;
            case WNTH:
                note("nth(size/2,a)=9");
                efp::nth(ma.size() / 2, x) = mk<A>(9);
                ma[ma.size() / 2] = 9;
                break;
            case ASG_AB: {
                note("a=b");
                C& r = (x = static_cast<const C&>(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                mb = ma;
                break;
            case MOV_AB: {
                note("a=move(b)");
                C& r = (x = efp::move(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                mb = read(y);  // valid but unspecified
                break;
            }
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                ma = read(x);
                break;
            }
            case COPYC: {
                note("C t(a); t.push_back(30); b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                M mt = ma;
                if (fits(mt.size() + 1)) {
                    t->push_back(mk<A>(30));
                    mt.push_back(30);
                }
                y = *t;
                mb = mt;
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                y = efp::move(*t);
                mb = ma;
                ma = read(x);
                break;
            }
            case SWAP:
                note("swap(a,b)");
                efp::swap(x, y);
                ma.swap(mb);
                break;
            case IL2: {
                if (!fits(2)) {
                    note("C{11,12} (too long)");
                    rejected("a list longer than the capacity", [&] {
                        C t {mk<A>(11), mk<A>(12)};
                        (void)t;
                    });
                    break;
                }
                note("a=C{11,12}");
                x = C {mk<A>(11), mk<A>(12)};
                ma = M {11, 12};
                break;
            }
            case IL0: {
                note("a=C{} (empty list)");
                std::initializer_list<A> il = {};
                Cell<C> t;
                new (t.blank()) C(il);
                x = *t;
                ma.clear();
                break;
            }
            case CONV0: case CONV1: {
                note("a=C(other container kind %d)", o - CONV0);
                Cell<C> t;
                Tr::from_other(t.blank(), o - CONV0);
                x = efp::move(*t);
                ma = from_model((C*)nullptr, o - CONV0);
                break;
            }
            case PUSH_B:
                note("b.push_back(10)");
                if (!fits(mb.size() + 1))
                    rejected("push_back into a full container", [&] { y.push_back(mk<A>(10)); });
                else {
                    y.push_back(mk<A>(10));
                    mb.push_back(10);
                }
                break;
        }
    }

    static void same(C& c, const M& m, const char* who) {
        const C& k = c;
        MC_CHECK(c.size() == m.size(), "%s has size %zu, expected %zu", who, c.size(), m.size());
        MC_CHECK(efp::length(k) == m.size(), "length(%s) is %zu, expected %zu", who, size_t(efp::length(k)), m.size());
        MC_CHECK(c.empty() == m.empty(), "%s.empty() is wrong", who);
        MC_CHECK(c.capacity() >= c.size(), "%s has capacity %zu below its size %zu", who, c.capacity(), c.size());
        MC_CHECK(size_t(c.end() - c.begin()) == m.size(), "%s iterates over %td elements, expected %zu", who, c.end() - c.begin(), m.size());
        MC_CHECK(size_t(k.end() - k.begin()) == m.size(), "%s const-iterates over a wrong number of elements", who);
        for (size_t i = 0; i < m.size(); ++i) {
            MC_CHECK(val(c[i]) == m[i], "%s[%zu] is %d, expected %d", who, i, val(c[i]), m[i]);
            MC_CHECK(val(k[i]) == m[i] && val(c.begin()[i]) == m[i] && val(k.begin()[i]) == m[i] && val(c.data()[i]) == m[i]
                         && val(k.data()[i]) == m[i] && val(efp::nth(i, c)) == m[i] && val(efp::nth(i, k)) == m[i] && val(efp::data(k)[i]) == m[i],
                     "%s: access paths disagree at %zu", who, i);
        }
    }
    void check() {
        same(*a, ma, "a");
        same(*b, mb, "b");
        MC_CHECK((*a == *b) == (ma == mb), "a == b is %d", int(*a == *b));
        MC_CHECK(*a == *a, "a == a is false");
    }
    void key(Hash& h) {
        hash_raw(h, &*a, sizeof(C));
        hash_raw(h, &*b, sizeof(C));
        h.u(ma.size());
        for (int v : ma)
            h.u(uint64_t(v));
        h.u(mb.size());
        for (int v : mb)
            h.u(uint64_t(v));
    }
};

// Longer containers: every length up to a bound, filled in every way, then every insert / erase
// position, every resize and every pair of operations of the world.
template<typename W>
void prefill(W& w, int n, int mode) {
    typedef typename W::A A;
    auto& x = *w.a;
    note("fill mode %d length %d", mode, n);
    if (mode == 1)
        x.reserve(size_t(n));
    if (mode == 2) {
        x.resize(size_t(n));
        w.ma.resize(size_t(n), 0);
        for (int i = 0; i < n; ++i) {
            x[size_t(i)] = mk<A>(100 + i);
            w.ma[size_t(i)] = 100 + i;
        }
        return;
    }
    for (int i = 0; i < n; ++i) {
        if (mode == 3) {
            x.insert(0, mk<A>(100 + i));
            w.ma.insert(w.ma.begin(), 100 + i);
        } else {
            x.push_back(mk<A>(100 + i));
            w.ma.push_back(100 + i);
        }
    }
}

template<typename W>
void grown(int maxlen, int tmaxlen) {
    typedef typename W::A A;
    int lim = core().thorough ? tmaxlen : maxlen;
    int n = choose(lim + 1);
    int what = choose(4);
    int mode = choose(4);
    W w;
    prefill(w, n, mode);
    w.check();
    auto& x = *w.a;
    typedef typename W::Tr Tr;
    bool full = Tr::bounded && n >= int(Tr::cap);
    if (what == 0) {
        int p = choose(n + 1);
        note("insert(%d)", p);
        if (full) {
            w.rejected("insert into a full container", [&] { x.insert(size_t(p), mk<A>(1)); });
        } else {
            int own = n ? choose(3) : 0;
            if (own) {
                size_t k = own == 1 ? 0 : size_t(n - 1);
                int v = w.ma[k];
                x.insert(size_t(p), x[k]);
                w.ma.insert(w.ma.begin() + p, v);
            } else {
                x.insert(size_t(p), mk<A>(1));
                w.ma.insert(w.ma.begin() + p, 1);
            }
        }
    } else if (what == 1) {
        if (n) {
            int p = choose(n);
            note("erase(%d)", p);
            x.erase(size_t(p));
            w.ma.erase(w.ma.begin() + p);
        }
    } else if (what == 2) {
        int m = choose(lim + 1);
        note("resize(%d)", m);
        if (!w.fits(size_t(m)))
            w.rejected("resize beyond the capacity", [&] { x.resize(size_t(m)); });
        else {
            x.resize(size_t(m));
            w.ma.resize(size_t(m), 0);
        }
    } else {
        for (int k = 0; k < 2; ++k) {
            int o = choose(W::nops());
            if (!w.enabled(o))
                break;
            w.apply(o);
            w.check();
        }
    }
    w.check();
    Hash h;
    w.key(h);
    outcome(h.get());
}

}  // namespace mc
#endif
