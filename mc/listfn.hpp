// The list functions on every kind of sequence against their definitions on plain lists.
#ifndef MC_LISTFN_HPP
#define MC_LISTFN_HPP
#include "mc/seq_kinds.hpp"

namespace mc {

template<bool mut>
struct MutOps {
    template<typename K>
    static void unary(K&, const M&) {}
    template<typename K, typename L>
    static void binary(K&, L&, const M&, const M&) {}
};
template<>
struct MutOps<true> {
    template<typename K>
    static void unary(K& k, const M& m) {
        typedef typename K::T T;
        auto& s = k.get();
        M e;
        for (int v : m)
            e.push_back(v + 3);
        efp::for_each_mut([](T& x) { x = mk<T>(val(x) + 3); }, s);
        expect(s, e, "for_each_mut");
        M ix;
        efp::for_each_with_index_mut([&](size_t i, T& x) { ix.push_back(int(i)); x = mk<T>(val(x) + 5 * int(i)); }, s);
        for (size_t i = 0; i < e.size(); ++i) {
            e[i] += 5 * int(i);
            MC_CHECK(i < ix.size() && ix[i] == int(i), "for_each_with_index_mut visits wrong indices");
        }
        MC_CHECK(ix.size() == e.size(), "for_each_with_index_mut visits %zu elements of %zu", ix.size(), e.size());
        expect(s, e, "for_each_with_index_mut");
        efp::cartesian_for_each_mut([](T& x) { x = mk<T>(val(x) + 1); }, s);
        for (int& v : e)
            ++v;
        expect(s, e, "cartesian_for_each_mut");
    }
    template<typename K, typename L>
    static void binary(K& k, L& l, const M& a, const M& b) {
        typedef typename K::T T;
        typedef typename L::T U;
        auto& s = k.get();
        auto& t = l.get();
        M ea = a, eb = b;
        size_t n = a.size() < b.size() ? a.size() : b.size();
        for (size_t i = 0; i < n; ++i) {
            int x = ea[i];
            ea[i] = eb[i] + 1;
            eb[i] = x + 2;
        }
        efp::for_each_mut(
            [](T& x, U& y) {
                int v = val(x);
                x = mk<T>(val(y) + 1);
                y = mk<U>(v + 2);
            },
            s, t
        );
        expect(s, ea, "for_each_mut (first)");
        expect(t, eb, "for_each_mut (second)");
        efp::for_each_with_index_mut(
            [](size_t i, T& x, U& y) {
                x = mk<T>(val(x) + int(i));
                y = mk<U>(val(y) + 2 * int(i));
            },
            s, t
        );
        for (size_t i = 0; i < n; ++i) {
            ea[i] += int(i);
            eb[i] += 2 * int(i);
        }
        expect(s, ea, "for_each_with_index_mut (first)");
        expect(t, eb, "for_each_with_index_mut (second)");
        efp::cartesian_for_each_mut(
            [](T& x, U& y) {
                x = mk<T>(val(x) + 1);
                y = mk<U>(val(y) + 1);
            },
            s, t
        );
        for (int& v : ea)
            v += int(b.size());
        for (int& v : eb)
            v += int(a.size());
        expect(s, ea, "cartesian_for_each_mut (first)");
        expect(t, eb, "cartesian_for_each_mut (second)");
    }
};

template<typename K>
void unary(int alpha) {
    typedef typename K::T T;
    M m = choose_contents<K>(alpha);
    int rot = choose_rot<K>();
    note("%s %s rot %d", K::name(), show(m).c_str(), rot);
    K k;
    k.build(m, rot);
    const typename K::Seq& s = k.get();
    expect(s, m, "built sequence");

    M e;
    for (int v : m)
        e.push_back(v * 2 + 1);
    expect(efp::map([](const T& x) { return val(x) * 2 + 1; }, s), e, "map");
    expect(efp::map([](const T& x) { return mk<Tracked>(val(x) * 2 + 1); }, s), e, "map to objects");
    expect(efp::map([](const T& x) { return mk<std::string>(val(x) * 2 + 1); }, s), e, "map to strings");

    for (int p = 0; p < 4; ++p) {
        auto pred = [p](const T& x) { return p == 0 ? val(x) == 1 : p == 1 ? val(x) != 1 : p == 2; };
        M f;
        for (int v : m)
            if (p == 0 ? v == 1 : p == 1 ? v != 1 : p == 2)
                f.push_back(v);
        expect(efp::filter(pred, s), f, "filter");
    }
    {
        unsigned fl = 7, fr = 7;
        std::string sl, sr;
        for (int v : m) {
            fl = fl * 3 - unsigned(v);
            sl = "(" + sl + std::to_string(v) + ")";
        }
        for (size_t i = m.size(); i-- > 0;) {
            fr = unsigned(m[i]) - fr * 3;
            sr = "(" + std::to_string(m[i]) + sr + ")";
        }
        unsigned gl = efp::foldl([](unsigned acc, const T& x) { return acc * 3 - unsigned(val(x)); }, 7u, s);
        unsigned gr = efp::foldr([](const T& x, unsigned acc) { return unsigned(val(x)) - acc * 3; }, 7u, s);
        MC_CHECK(gl == fl, "foldl gives %u, expected %u", gl, fl);
        MC_CHECK(gr == fr, "foldr gives %u, expected %u", gr, fr);
        std::string hl = efp::foldl([](const std::string& acc, const T& x) { return "(" + acc + std::to_string(val(x)) + ")"; }, std::string(), s);
        std::string hr = efp::foldr([](const T& x, const std::string& acc) { return "(" + std::to_string(val(x)) + acc + ")"; }, std::string(), s);
        MC_CHECK(hl == sl, "foldl gives %s, expected %s", hl.c_str(), sl.c_str());
        MC_CHECK(hr == sr, "foldr gives %s, expected %s", hr.c_str(), sr.c_str());
    }
    {
        M g, gi, h;
        efp::for_each([&](const T& x) { g.push_back(val(x)); }, s);
        expect_eq(g, m, "for_each order");
        g.clear();
        efp::for_each_with_index([&](size_t i, const T& x) { gi.push_back(int(i)); g.push_back(val(x)); }, s);
        expect_eq(g, m, "for_each_with_index order");
        M idx;
        for (size_t i = 0; i < m.size(); ++i)
            idx.push_back(int(i));
        expect_eq(gi, idx, "for_each_with_index indices");
        efp::cartesian_for_each([&](const T& x) { h.push_back(val(x)); }, s);
        expect_eq(h, m, "cartesian_for_each of one sequence");
    }
    {
        M w;
        for (size_t i = 0; i < m.size(); ++i)
            w.push_back(m[i] * 10 + int(i));
        expect(efp::map_with_index([](size_t i, const T& x) { return val(x) * 10 + int(i); }, s), w, "map_with_index");
        expect(efp::map_with_index([](size_t i, const T& x) { return Tracked(val(x) * 10 + int(i)); }, s), w, "map_with_index to objects");
        expect(efp::cartesian_map([](const T& x) { return val(x) + 4; }, s), [&] {
            M z;
            for (int v : m)
                z.push_back(v + 4);
            return z;
        }(), "cartesian_map of one sequence");
    }
    expect(efp::append(s), m, "append of one sequence");
    expect(efp::append(s, s), [&] {
        M z = m;
        z.insert(z.end(), m.begin(), m.end());
        return z;
    }(), "append of a sequence to itself");
    expect(s, m, "input after the non-mutating functions");
    MutOps<K::mut>::unary(k, m);
    Hash h;
    for (int v : m)
        h.u(uint64_t(v));
    h.u(m.size());
    outcome(h.get());
}

// two sequences of any kinds (same element type for append)
template<typename K, typename L>
void binary(int alpha) {
    typedef typename K::T T;
    typedef typename L::T U;
    M a = choose_contents<K>(alpha, 3), b = choose_contents<L>(0, 3);
    int rot = choose_rot<K>(), rot2 = choose_rot<L>();
    for (int& v : b)
        v += 3;
    note("%s %s, %s %s", K::name(), show(a).c_str(), L::name(), show(b).c_str());
    K k;
    L l;
    k.build(a, rot);
    l.build(b, rot2);
    const typename K::Seq& s = k.get();
    const typename L::Seq& t = l.get();
    size_t n = a.size() < b.size() ? a.size() : b.size();
    M z, zi, v0, v1, ix, cart, all = a, c0;
    for (size_t i = 0; i < n; ++i) {
        z.push_back(a[i] * 10 - b[i]);
        zi.push_back(a[i] * 10 - b[i] + 100 * int(i));
        v0.push_back(a[i]);
        v1.push_back(b[i]);
        ix.push_back(int(i));
    }
    for (int x : a)
        for (int y : b)
            cart.push_back(x * 10 - y);
    all.insert(all.end(), b.begin(), b.end());
    expect(efp::map([](const T& x, const U& y) { return val(x) * 10 - val(y); }, s, t), z, "map of two");
    expect(efp::map([](const T& x, const U& y) { return Tracked(val(x) * 10 - val(y)); }, s, t), z, "map of two to objects");
    expect(efp::map_with_index([](size_t i, const T& x, const U& y) { return val(x) * 10 - val(y) + 100 * int(i); }, s, t), zi, "map_with_index of two");
    M g0, g1, gi;
    efp::for_each([&](const T& x, const U& y) { g0.push_back(val(x)); g1.push_back(val(y)); }, s, t);
    expect_eq(g0, v0, "for_each of two (first)");
    expect_eq(g1, v1, "for_each of two (second)");
    g0.clear();
    g1.clear();
    efp::for_each_with_index([&](size_t i, const T& x, const U& y) { gi.push_back(int(i)); g0.push_back(val(x)); g1.push_back(val(y)); }, s, t);
    expect_eq(g0, v0, "for_each_with_index of two (first)");
    expect_eq(g1, v1, "for_each_with_index of two (second)");
    expect_eq(gi, ix, "for_each_with_index of two (index)");
    efp::cartesian_for_each([&](const T& x, const U& y) { c0.push_back(val(x) * 10 - val(y)); }, s, t);
    expect_eq(c0, cart, "cartesian_for_each of two");
    expect(efp::cartesian_map([](const T& x, const U& y) { return val(x) * 10 - val(y); }, s, t), cart, "cartesian_map of two");
    expect(efp::append(s, t), all, "append of two");
    expect(s, a, "first input after the non-mutating functions");
    expect(t, b, "second input after the non-mutating functions");
    MutOps<K::mut && L::mut>::binary(k, l, a, b);
    Hash h;
    h.u(a.size() * 10 + b.size());
    for (int v : all)
        h.u(uint64_t(v));
    outcome(h.get());
}

template<typename K, typename L, typename N>
void ternary() {
    typedef typename K::T T;
    typedef typename L::T U;
    typedef typename N::T V;
    M a = choose_contents<K>(0, 3), b = choose_contents<L>(0, 3), c = choose_contents<N>(0, 3);
    for (int& v : b)
        v += 3;
    for (int& v : c)
        v += 6;
    note("%s %s, %s %s, %s %s", K::name(), show(a).c_str(), L::name(), show(b).c_str(), N::name(), show(c).c_str());
    K k;
    L l;
    N q;
    k.build(a, 1);
    l.build(b, 2);
    q.build(c, 1);
    const typename K::Seq& s = k.get();
    const typename L::Seq& t = l.get();
    const typename N::Seq& u = q.get();
    size_t n = a.size() < b.size() ? a.size() : b.size();
    n = n < c.size() ? n : c.size();
    M z, cart, all = a, got, wi;
    for (size_t i = 0; i < n; ++i) {
        z.push_back(a[i] * 100 + b[i] * 10 + c[i]);
        wi.push_back(a[i] * 100 + b[i] * 10 + c[i] - int(i));
    }
    for (int x : a)
        for (int y : b)
            for (int w : c)
                cart.push_back(x * 100 + y * 10 + w);
    all.insert(all.end(), b.begin(), b.end());
    all.insert(all.end(), c.begin(), c.end());
    auto f = [](const T& x, const U& y, const V& w) { return val(x) * 100 + val(y) * 10 + val(w); };
    expect(efp::map(f, s, t, u), z, "map of three");
    expect(efp::map_with_index([&](size_t i, const T& x, const U& y, const V& w) { return f(x, y, w) - int(i); }, s, t, u), wi, "map_with_index of three");
    efp::for_each([&](const T& x, const U& y, const V& w) { got.push_back(f(x, y, w)); }, s, t, u);
    expect_eq(got, z, "for_each of three");
    got.clear();
    efp::cartesian_for_each([&](const T& x, const U& y, const V& w) { got.push_back(f(x, y, w)); }, s, t, u);
    expect_eq(got, cart, "cartesian_for_each of three");
    expect(efp::cartesian_map(f, s, t, u), cart, "cartesian_map of three");
    expect(efp::append(s, t, u), all, "append of three");
    expect(s, a, "first input");
    expect(t, b, "second input");
    expect(u, c, "third input");
    outcome(a.size() * 100 + b.size() * 10 + c.size());
}

// concat / intercalate: O is a holder of inner holders' sequences
template<typename O, typename I, typename D>
void nested() {
    // O: kind over element type I::Seq, D: delimiter kind
    int n = O::lo + choose(O::hi - O::lo + 1);
    typename O::Seq outer {};
    std::vector<M> mm;
    int next = 1;
    std::vector<typename I::Seq> parts;
    for (int i = 0; i < n; ++i) {
        int len = I::lo + choose(I::hi - I::lo + 1);
        M m;
        for (int j = 0; j < len; ++j)
            m.push_back(next++);
        I in;
        in.build(m, 0);
        parts.push_back(in.get());
        mm.push_back(m);
    }
    O o;
    o.set(parts);
    M d = choose_contents<D>(0, 2);
    for (int& v : d)
        v += 90;
    D dl;
    dl.build(d, 0);
    note("%s of %s, %d parts, delimiter %s %s", O::name(), I::name(), n, D::name(), show(d).c_str());
    M cc, ic;
    for (size_t i = 0; i < mm.size(); ++i) {
        cc.insert(cc.end(), mm[i].begin(), mm[i].end());
        if (i)
            ic.insert(ic.end(), d.begin(), d.end());
        ic.insert(ic.end(), mm[i].begin(), mm[i].end());
    }
    const typename O::Seq& os = o.get();
    const typename D::Seq& ds = dl.get();
    expect(efp::concat(os), cc, "concat");
    expect(efp::intercalate(ds, os), ic, "intercalate");
    for (size_t i = 0; i < mm.size(); ++i)
        expect(efp::nth(i, os), mm[i], "inner input after concat");
    Hash h;
    for (int v : ic)
        h.u(uint64_t(v));
    outcome(h.get());
}
template<typename I, size_t n>
struct OArray {
    typedef efp::Array<typename I::Seq, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n };
    static const char* name() {
        return "Array";
    }
    Seq s;
    void set(const std::vector<typename I::Seq>& p) {
        for (size_t i = 0; i < n; ++i)
            s[i] = p[i];
    }
    Seq& get() {
        return s;
    }
};
template<typename I, size_t n>
struct OStdArray {
    typedef std::array<typename I::Seq, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n };
    static const char* name() {
        return "std::array";
    }
    Seq s;
    void set(const std::vector<typename I::Seq>& p) {
        for (size_t i = 0; i < n; ++i)
            s[i] = p[i];
    }
    Seq& get() {
        return s;
    }
};
template<typename S, int lo_, int hi_, int kind_, int bound_>
struct OPush {
    typedef S Seq;
    enum { lo = lo_, hi = hi_, kind = kind_, bound = bound_ };
    static const char* name() {
        return kind_ == KCAP ? "ArrVec" : "Vector";
    }
    Seq s;
    template<typename P>
    void set(const std::vector<P>& p) {
        for (auto& x : p)
            s.push_back(x);
    }
    Seq& get() {
        return s;
    }
};
template<typename I, size_t n>
struct OArrVec: OPush<efp::ArrVec<typename I::Seq, n>, 0, int(n), KCAP, int(n)> {};
template<typename I, int n = 3>
struct OVector: OPush<efp::Vector<typename I::Seq>, 0, n, KDYN, 0> {};
template<typename I, int n = 3>
struct OStdVector: OPush<std::vector<typename I::Seq>, 0, n, KDYN, 0> {};

inline void generated() {
    int n = choose(7);
    int w = choose(4);
    note("from_function / for_index %d %d", n, w);
    M e;
    for (int i = 0; i < n; ++i)
        e.push_back(i * 3 - w);
    M order;
    expect(efp::from_function(size_t(n), [&](size_t i) { order.push_back(int(i)); return int(i) * 3 - w; }), e, "from_function");
    for (int i = 0; i < n; ++i)
        MC_CHECK(order.size() == size_t(n) && order[size_t(i)] == i, "from_function calls its function with wrong indices");
    expect(efp::from_function(n, [&](size_t i) { return int(i) * 3 - w; }), e, "from_function (int length)");
    expect(efp::from_function(size_t(n), [&](size_t i) { return mk<std::string>(int(i) * 3 - w); }), e, "from_function of strings");
    expect(efp::from_function(size_t(n), [&](size_t i) { return Tracked(int(i) * 3 - w); }), e, "from_function of objects");
    M e3 {0 - w, 3 - w, 6 - w};
    expect(efp::from_function(efp::Size<3> {}, [&](size_t i) { return int(i) * 3 - w; }), e3, "from_function (static length)");
    expect(efp::from_function(efp::Size<3> {}, [&](size_t i) { return Tracked(int(i) * 3 - w); }), e3, "from_function of objects (static length)");
    expect(efp::from_function(efp::Size<1> {}, [&](size_t i) { return int(i) * 3 - w; }), M {-w}, "from_function (static length 1)");
    M g, x;
    efp::for_index([&](size_t i) { g.push_back(int(i)); }, size_t(n));
    for (int i = 0; i < n; ++i)
        x.push_back(i);
    expect_eq(g, x, "for_index");
    g.clear();
    efp::cartesian_for_index([&](size_t i) { g.push_back(int(i)); }, size_t(n));
    expect_eq(g, x, "cartesian_for_index of one");
    g.clear();
    x.clear();
    efp::cartesian_for_index([&](size_t i, size_t j) { g.push_back(int(i * 10 + j)); }, size_t(n), size_t(w));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < w; ++j)
            x.push_back(i * 10 + j);
    expect_eq(g, x, "cartesian_for_index of two");
    g.clear();
    x.clear();
    efp::cartesian_for_index([&](size_t i, size_t j, size_t k) { g.push_back(int(i * 100 + j * 10 + k)); }, size_t(n), size_t(w), size_t(3));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < w; ++j)
            for (int k = 0; k < 3; ++k)
                x.push_back(i * 100 + j * 10 + k);
    expect_eq(g, x, "cartesian_for_index of three");
    outcome(uint64_t(n * 10 + w));
}

}  // namespace mc
#endif
