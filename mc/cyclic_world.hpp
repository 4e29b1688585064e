// Worlds for the cyclic buffers: two objects and all operations, against plain lists.
#ifndef MC_CYCLIC_WORLD_HPP
#define MC_CYCLIC_WORLD_HPP
#include "mc/core.hpp"
#include "efp.hpp"
#include <deque>

namespace mc {

// Longer histories with a bounded number of deviations: at every step one of W's base operations
// (the first W::nbase()), or, at most D times, any other operation.
template<typename W>
void deviations(int len, int dev) {
    W w;
    for (int i = 0; i < len; ++i) {
        int base = W::nbase();
        int o = choose(dev > 0 ? W::nops() : base);
        if (o >= base)
            --dev;
        if (!w.enabled(o))
            break;
        w.apply(o);
        w.check();
    }
    Hash h;
    w.key(h);
    outcome(h.get());
}

template<typename C>
struct CycRead {
    static std::vector<int> read(C& c) {
        std::vector<int> m;
        for (size_t i = 0; i < c.size(); ++i)
            m.push_back(val(c[i]));
        return m;
    }
    static void same(C& c, const std::vector<int>& m, const char* who) {
        const C& k = c;
        MC_CHECK(c.size() == m.size() && k.size() == m.size(), "%s has size %zu, expected %zu", who, size_t(c.size()), m.size());
        MC_CHECK(size_t(efp::length(k)) == m.size(), "length(%s) is %zu, expected %zu", who, size_t(efp::length(k)), m.size());
        MC_CHECK(c.empty() == m.empty(), "%s.empty() is %d with %zu elements", who, int(c.empty()), m.size());
        MC_CHECK(c.end() - c.begin() == std::ptrdiff_t(m.size()), "%s iterates over %td elements, expected %zu", who, c.end() - c.begin(), m.size());
        MC_CHECK(k.end() - k.begin() == std::ptrdiff_t(m.size()), "%s const-iterates over %td elements, expected %zu", who, k.end() - k.begin(), m.size());
        size_t i = 0;
        for (auto& e : c) {
            MC_CHECK(val(e) == m[i], "%s: element %zu iterates as %d, expected %d", who, i, val(e), m[i]);
            ++i;
        }
        for (i = 0; i < m.size(); ++i) {
            MC_CHECK(val(c[i]) == m[i], "%s[%zu] is %d, expected %d", who, i, val(c[i]), m[i]);
            MC_CHECK(val(k[i]) == m[i] && val(k.begin()[i]) == m[i] && val(c.data()[i]) == m[i] && val(k.data()[i]) == m[i]
                         && val(efp::nth(i, c)) == m[i] && val(efp::nth(i, k)) == m[i] && val(efp::data(k)[i]) == m[i] && val(efp::data(c)[i]) == m[i],
                     "%s: access paths disagree at %zu", who, i);
        }
    }
};

template<typename A, size_t n>
struct VcbWorld {
    typedef efp::Vcb<A, n> C;
    typedef std::vector<int> M;
    Cell<C> a, b;
    M ma, mb;
    int ctr;
    enum Op { PUSH, PUSH_B, PUSH_OLD, PUSH_NEW, PUSH_RV, W0, WLAST, WMID, WALL, ASG_AB, ASG_BA, MOV_AB, MOV_BA, SELF, SELFMOVE, COPYC, MOVEC, SWAP, FRESH, WB0, WBLAST, NOPS };
    static int nops() {
        return NOPS;
    }
    static int nbase() {
        return 1;
    }
    VcbWorld() : ctr(0) {
        new (a.blank()) C();
        new (b.blank()) C();
        ma.assign(n, 0);
        mb.assign(n, 0);
        CycRead<C>::same(*a, ma, "new Vcb");
    }
    bool enabled(int) const {
        return true;
    }
    static void mpush(M& m, int v) {
        m.erase(m.begin());
        m.push_back(v);
    }
    int next() {
        ctr = (ctr + 1) % (2 * int(n) + 5);
        return 10 + ctr;
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case PUSH: {
                int v = next();
                note("a.push(%d)", v);
                const A e = mk<A>(v);
                x.push_back(e);
                mpush(ma, v);
                break;
            }
            case PUSH_RV: {
                int v = next();
                note("a.push(rvalue %d)", v);
                x.push_back(mk<A>(v));
                mpush(ma, v);
                break;
            }
            case PUSH_OLD: {
                note("a.push(a[0])");
                int v = ma[0];
                x.push_back(x[0]);
                mpush(ma, v);
                break;
            }
            case PUSH_NEW: {
                note("a.push(a[last])");
                int v = ma[n - 1];
                x.push_back(x[n - 1]);
                mpush(ma, v);
                break;
            }
            case W0:
                note("a[0]=80");
                x[0] = mk<A>(80);
                ma[0] = 80;
                break;
            case WLAST:
                note("*(end-1)=81");
                *(x.end() - 1) = mk<A>(81);
                ma[n - 1] = 81;
                break;
            case WMID:
                note("nth(n/2)=82");
                efp::nth(n / 2, x) = mk<A>(82);
                ma[n / 2] = 82;
                break;
            case WALL: {
                note("all=90+i");
                int i = 0;
                for (auto& e : x) {
                    e = mk<A>(90 + i);
                    ma[size_t(i)] = 90 + i;
                    ++i;
                }
                break;
            }
            case ASG_AB: {
                note("a=b");
                C& r = (x = static_cast<const C&>(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                mb = ma;
                break;
            case MOV_AB: {
                note("a=move(b)");
                C& r = (x = efp::move(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                mb = CycRead<C>::read(y);
                break;
            }
            case MOV_BA:
                note("b=move(a)");
                y = efp::move(x);
                mb = ma;
                ma = CycRead<C>::read(x);
                break;
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                ma = CycRead<C>::read(x);
                break;
            }
            case COPYC: {
                note("C t(a); t.push; b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                M mt = ma;
                t->push_back(mk<A>(70));
                mpush(mt, 70);
                CycRead<C>::same(*t, mt, "copy");
                CycRead<C>::same(x, ma, "source of the copy");
                y = *t;
                mb = mt;
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                CycRead<C>::same(*t, ma, "moved-to");
                mb = ma;
                y = efp::move(*t);
                ma = CycRead<C>::read(x);
                break;
            }
            case SWAP:
                note("swap");
                efp::swap(x, y);
                ma.swap(mb);
                break;
            case FRESH: {
                note("a=C()");
                x = C();
                ma.assign(n, 0);
                break;
            }
            case PUSH_B: {
                int v = next();
                note("b.push(%d)", v);
                y.push_back(mk<A>(v));
                mpush(mb, v);
                break;
            }
            case WB0:
                note("b[0]=83");
                y[0] = mk<A>(83);
                mb[0] = 83;
                break;
            case WBLAST:
                note("b[last]=84");
                y.data()[n - 1] = mk<A>(84);
                mb[n - 1] = 84;
                break;
        }
    }
    void check() {
        CycRead<C>::same(*a, ma, "a");
        CycRead<C>::same(*b, mb, "b");
    }
    void key(Hash& h) {
        hash_raw(h, &*a, sizeof(C));
        hash_raw(h, &*b, sizeof(C));
        h.u(uint64_t(ctr));
        for (int v : ma)
            h.u(uint64_t(v));
        for (int v : mb)
            h.u(uint64_t(v));
    }
};

template<typename A, size_t n>
struct VcqWorld {
    typedef efp::Vcq<A, n> C;
    typedef std::vector<int> M;
    Cell<C> a, b;
    M ma, mb;
    int ctr;
    enum Op { PUSH, POP, PUSH_B, PUSH_OLD, PUSH_NEW, PUSH_RV, POP_B, W0, WLAST, WMID, WALL, ASG_AB, ASG_BA, MOV_AB, MOV_BA, SELF, SELFMOVE, COPYC, MOVEC, SWAP, FRESH, WB0, WBLAST, NOPS };
    static int nops() {
        return NOPS;
    }
    static int nbase() {
        return 2;
    }
    VcqWorld() : ctr(0) {
        new (a.blank()) C();
        new (b.blank()) C();
        CycRead<C>::same(*a, ma, "new Vcq");
    }
    bool enabled(int o) const {
        switch (o) {
            case POP: case PUSH_OLD: case PUSH_NEW: case W0: case WLAST: case WMID: case WALL:
                return !ma.empty();
            case POP_B: case WB0: case WBLAST:
                return !mb.empty();
            default:
                return true;
        }
    }
    static void mpush(M& m, int v) {
        if (m.size() == n)
            m.erase(m.begin());
        m.push_back(v);
    }
    int next() {
        ctr = (ctr + 1) % (2 * int(n) + 5);
        return 10 + ctr;
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case PUSH: {
                int v = next();
                note("a.push(%d)", v);
                const A e = mk<A>(v);
                x.push_back(e);
                mpush(ma, v);
                break;
            }
            case PUSH_RV: {
                int v = next();
                note("a.push(rvalue %d)", v);
                x.push_back(mk<A>(v));
                mpush(ma, v);
                break;
            }
            case POP: {
                note("a.pop()");
                A r = x.pop_front();
                MC_CHECK(val(r) == ma[0], "pop_front returned %d, expected %d", val(r), ma[0]);
                ma.erase(ma.begin());
                break;
            }
            case POP_B: {
                note("b.pop()");
                A r = y.pop_front();
                MC_CHECK(val(r) == mb[0], "pop_front returned %d, expected %d", val(r), mb[0]);
                mb.erase(mb.begin());
                break;
            }
            case PUSH_OLD: {
                note("a.push(a[0])");
                int v = ma[0];
                x.push_back(x[0]);
                mpush(ma, v);
                break;
            }
            case PUSH_NEW: {
                note("a.push(a[last])");
                int v = ma.back();
                x.push_back(x[ma.size() - 1]);
                mpush(ma, v);
                break;
            }
            case W0:
                note("a[0]=80");
                x[0] = mk<A>(80);
                ma[0] = 80;
                break;
            case WLAST:
                note("*(end-1)=81");
                *(x.end() - 1) = mk<A>(81);
                ma.back() = 81;
                break;
            case WMID:
                note("nth(size/2)=82");
                efp::nth(ma.size() / 2, x) = mk<A>(82);
                ma[ma.size() / 2] = 82;
                break;
            case WALL: {
                note("all=90+i");
                int i = 0;
                for (auto& e : x) {
                    e = mk<A>(90 + i);
                    ma[size_t(i)] = 90 + i;
                    ++i;
                }
                break;
            }
            case ASG_AB: {
                note("a=b");
                C& r = (x = static_cast<const C&>(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                mb = ma;
                break;
            case MOV_AB: {
                note("a=move(b)");
                C& r = (x = efp::move(y));
                MC_CHECK(&r == &x, "assignment does not return its left operand");
                ma = mb;
                mb = CycRead<C>::read(y);
                break;
            }
            case MOV_BA:
                note("b=move(a)");
                y = efp::move(x);
                mb = ma;
                ma = CycRead<C>::read(x);
                break;
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                ma = CycRead<C>::read(x);
                break;
            }
            case COPYC: {
                note("C t(a); t.push; b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                M mt = ma;
                CycRead<C>::same(*t, mt, "copy");
                t->push_back(mk<A>(70));
                mpush(mt, 70);
                CycRead<C>::same(*t, mt, "copy");
                CycRead<C>::same(x, ma, "source of the copy");
                y = *t;
                mb = mt;
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                CycRead<C>::same(*t, ma, "moved-to");
                mb = ma;
                y = efp::move(*t);
                ma = CycRead<C>::read(x);
                break;
            }
            case SWAP:
                note("swap");
                efp::swap(x, y);
                ma.swap(mb);
                break;
            case FRESH:
                note("a=C()");
                x = C();
                ma.clear();
                break;
            case PUSH_B: {
                int v = next();
                note("b.push(%d)", v);
                y.push_back(mk<A>(v));
                mpush(mb, v);
                break;
            }
            case WB0:
                note("b[0]=83");
                y[0] = mk<A>(83);
                mb[0] = 83;
                break;
            case WBLAST:
                note("b[last]=84");
                y.data()[mb.size() - 1] = mk<A>(84);
                mb.back() = 84;
                break;
        }
    }
    void check() {
        CycRead<C>::same(*a, ma, "a");
        CycRead<C>::same(*b, mb, "b");
        MC_CHECK(ma.size() <= n, "harness error: model too long");
    }
    void key(Hash& h) {
        // dead slots of a Vcq hold no information; positions (the three words behind the buffer) do
        const char* p = reinterpret_cast<const char*>(&*a);
        (void)p;
        hash_raw(h, &*a, sizeof(C));
        hash_raw(h, &*b, sizeof(C));
        h.u(uint64_t(ctr));
        h.u(ma.size());
        for (int v : ma)
            h.u(uint64_t(v));
        h.u(mb.size());
        for (int v : mb)
            h.u(uint64_t(v));
    }
};

}  // namespace mc
#endif
