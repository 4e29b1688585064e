// Sub-sequence views and searches of one kind of sequence, for every length, content and bound.
#ifndef MC_VIEWS_HPP
#define MC_VIEWS_HPP
#include "mc/seq_kinds.hpp"

namespace mc {

// a view shows exactly source[s, e), in the source's storage
template<typename V, typename T>
void is_view(V&& v, const T* base, const M& m, size_t s, size_t e, const char* what) {
    const V& k = v;
    size_t n = e - s;
    MC_CHECK(efp::length(k) == n, "%s has length %zu, expected %zu", what, size_t(efp::length(k)), n);
    MC_CHECK(k.size() == n && v.size() == n && k.empty() == (n == 0) && efp::is_null(k) == (n == 0), "%s: size %zu, expected %zu", what, k.size(), n);
    MC_CHECK(size_t(k.end() - k.begin()) == n && size_t(v.end() - v.begin()) == n, "%s: iteration has the wrong length", what);
    if (n)
        MC_CHECK(k.data() == base + s && efp::data(k) == base + s && k.begin() == base + s && v.begin() == base + s && v.data() == base + s,
                 "%s does not show the source's storage from element %zu on", what, s);
    for (size_t i = 0; i < n; ++i)
        MC_CHECK(val(k[i]) == m[s + i] && val(efp::nth(i, k)) == m[s + i] && &k[i] == base + s + i && &v[i] == base + s + i, "%s: element %zu is %d, expected %d", what, i,
                 val(k[i]), m[s + i]);
    size_t c = 0;
    for (const auto& x : k) {
        MC_CHECK(c < n && &x == base + s + c, "%s: iteration visits the wrong element", what);
        ++c;
    }
    MC_CHECK(c == n, "%s: iteration visits %zu elements", what, c);
}

inline bool rejected_(const std::function<void()>& f) {
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

inline size_t choose_bound(size_t len) {
    int c = choose(int(len) + 4);
    return c <= int(len) + 2 ? size_t(c) : SIZE_MAX;
}

// s: lvalue, const or not
template<typename S>
struct OnSource {
    typedef typename std::remove_const<S>::type Q;
    template<size_t n, typename T>
    static void ct(S& s, const T* base, const M& m) {
        size_t len = m.size();
        efp::Size<n> z;
        size_t c = n < len ? n : len;
        is_view(efp::take(z, s), base, m, 0, c, "take(Size)");
        is_view(efp::drop(z, s), base, m, c, len, "drop(Size)");
    }
    template<size_t a, size_t b, typename T>
    static void ct_slice(S& s, const T* base, const M& m) {
        size_t len = m.size();
        size_t e = b < len ? b : len;
        size_t st = a < e ? a : e;
        is_view(efp::slice(efp::Size<a>(), efp::Size<b>(), s), base, m, st, e, "slice(Size, Size)");
        is_view(efp::slice(efp::Size<a>(), size_t(b), s), base, m, st, e, "slice(Size, n)");
        is_view(efp::slice(size_t(a), efp::Size<b>(), s), base, m, st, e, "slice(n, Size)");
    }
    template<typename T>
    static void run(S& s, const T* base, const M& m) {
        size_t len = m.size();
        switch (choose(7)) {
            case 0: {
                note("head/last/tail/init");
                MC_CHECK(efp::is_null(s) == (len == 0), "is_null is wrong");
                if (len == 0) {
                    MC_CHECK(rejected_([&] { (void)efp::head(s); }), "head of an empty sequence was not rejected");
                    MC_CHECK(rejected_([&] { (void)efp::last(s); }), "last of an empty sequence was not rejected");
                    MC_CHECK(rejected_([&] { (void)efp::tail(s); }), "tail of an empty sequence was not rejected");
                    MC_CHECK(rejected_([&] { (void)efp::init(s); }), "init of an empty sequence was not rejected");
                } else {
                    MC_CHECK(&efp::head(s) == base && val(efp::head(s)) == m[0], "head is not the first element");
                    MC_CHECK(&efp::last(s) == base + len - 1 && val(efp::last(s)) == m[len - 1], "last is not the last element");
                    is_view(efp::tail(s), base, m, 1, len, "tail");
                    is_view(efp::init(s), base, m, 0, len - 1, "init");
                }
                break;
            }
            case 1: {
                size_t n = choose_bound(len);
                note("take/drop %zu", n);
                size_t c = n < len ? n : len;
                is_view(efp::take(n, s), base, m, 0, c, "take");
                is_view(efp::drop(n, s), base, m, c, len, "drop");
                if (n <= len) {
                    is_view(efp::take_unsafe(n, s), base, m, 0, n, "take_unsafe");
                    is_view(efp::drop_unsafe(n, s), base, m, n, len, "drop_unsafe");
                    is_view(efp::take(int(n), s), base, m, 0, c, "take(int)");
                    is_view(efp::drop(int(n), s), base, m, c, len, "drop(int)");
                    is_view(efp::take((unsigned char)(n), s), base, m, 0, c, "take(unsigned char)");
                    is_view(efp::drop((unsigned char)(n), s), base, m, c, len, "drop(unsigned char)");
                }
                break;
            }
            case 2: {
                size_t a = choose_bound(len), b = choose_bound(len);
                note("slice %zu %zu", a, b);
                size_t e = b < len ? b : len;
                size_t st = a < e ? a : e;
                is_view(efp::slice(a, b, s), base, m, st, e, "slice");
                if (a <= b && b <= len) {
                    is_view(efp::slice_unsafe(a, b, s), base, m, a, b, "slice_unsafe");
                    is_view(efp::slice(int(a), int(b), s), base, m, a, b, "slice(int, int)");
                }
                break;
            }
            case 3: {
                note("compile-time bounds");
                ct<0>(s, base, m);
                ct<1>(s, base, m);
                ct<2>(s, base, m);
                ct<3>(s, base, m);
                ct<4>(s, base, m);
                ct<7>(s, base, m);
                ct_slice<0, 0>(s, base, m);
                ct_slice<0, 1>(s, base, m);
                ct_slice<0, 3>(s, base, m);
                ct_slice<1, 1>(s, base, m);
                ct_slice<1, 2>(s, base, m);
                ct_slice<1, 3>(s, base, m);
                ct_slice<2, 3>(s, base, m);
                ct_slice<1, 6>(s, base, m);
                ct_slice<3, 5>(s, base, m);
                ct_slice<5, 6>(s, base, m);
                break;
            }
            case 4: {
                // nested: views of views
                size_t a = choose_bound(len), b = choose_bound(len);
                note("take %zu, drop %zu, nested", a, b);
                auto t = efp::take(a, s);
                size_t ct_ = a < len ? a : len;
                size_t db = b < ct_ ? b : ct_;
                auto d = efp::drop(b, t);
                is_view(d, base, m, db, ct_, "drop of take");
                auto d2 = efp::drop(b, s);
                size_t d0 = b < len ? b : len;
                size_t te = a < len - d0 ? d0 + a : len;
                auto t2 = efp::take(a, d2);
                is_view(t2, base, m, d0, te, "take of drop");
                auto sl = efp::slice(size_t(1), size_t(2), d2);
                size_t e1 = d0 + 2 < len ? d0 + 2 : len;
                size_t s1 = d0 + 1 < e1 ? d0 + 1 : e1;
                is_view(sl, base, m, s1, e1, "slice of drop");
                if (len - d0 > 0) {
                    is_view(efp::tail(d2), base, m, d0 + 1, len, "tail of drop");
                    is_view(efp::init(d2), base, m, d0, len - 1, "init of drop");
                    MC_CHECK(&efp::head(d2) == base + d0 && &efp::last(d2) == base + len - 1, "head or last of a view is wrong");
                }
                auto copy(d2);
                auto asg = efp::drop(size_t(0), s);
                is_view(asg, base, m, 0, len, "drop(0)");
                asg = d2;
                is_view(copy, base, m, d0, len, "copied view");
                is_view(asg, base, m, d0, len, "assigned view");
                break;
            }
            case 5: {
                // predicates: every subset of the values occurring
                int mask = choose(8);
                note("predicate %d", mask);
                auto f = [&](const T& x) { return (mask >> (val(x) - 1) & 1) != 0; };
                size_t k = 0;
                while (k < len && (mask >> (m[k] - 1) & 1))
                    ++k;
                const S& ks = s;
                is_view(efp::take_while(f, ks), base, m, 0, k, "take_while");
                is_view(efp::drop_while(f, ks), base, m, k, len, "drop_while");
                is_view(efp::take_while(f, s), base, m, 0, k, "take_while");
                is_view(efp::drop_while(f, s), base, m, k, len, "drop_while");
                M idx;
                for (size_t i = 0; i < len; ++i)
                    if (mask >> (m[i] - 1) & 1)
                        idx.push_back(int(i));
                MC_CHECK(efp::find(f, s) == !idx.empty(), "find is %d", int(efp::find(f, s)));
                auto fi = efp::find_index(f, s);
                MC_CHECK(bool(fi) == !idx.empty() && (idx.empty() || int(fi.value()) == idx[0]), "find_index is wrong");
                auto fx = efp::find_indices(f, s);
                MC_CHECK(fx.size() == idx.size(), "find_indices has %zu entries, expected %zu", fx.size(), idx.size());
                for (size_t i = 0; i < idx.size(); ++i)
                    MC_CHECK(int(fx[i]) == idx[i], "find_indices[%zu] is %zu, expected %d", i, size_t(fx[i]), idx[i]);
                break;
            }
            default: {
                int x = choose(5);
                note("elem %d", x);
                T t = mk<T>(x);
                M idx;
                for (size_t i = 0; i < len; ++i)
                    if (m[i] == x)
                        idx.push_back(int(i));
                MC_CHECK(efp::elem(t, s) == !idx.empty(), "elem is %d", int(efp::elem(t, s)));
                auto fi = efp::elem_index(t, s);
                MC_CHECK(bool(fi) == !idx.empty() && (idx.empty() || int(fi.value()) == idx[0]), "elem_index is wrong");
                auto fx = efp::elem_indices(t, s);
                MC_CHECK(fx.size() == idx.size(), "elem_indices has %zu entries, expected %zu", fx.size(), idx.size());
                for (size_t i = 0; i < idx.size(); ++i)
                    MC_CHECK(int(fx[i]) == idx[i], "elem_indices[%zu] is %zu, expected %d", i, size_t(fx[i]), idx[i]);
            }
        }
    }
};

// every length and content x every view and search
template<typename K>
void views(int alpha = 3, int maxlen = 4) {
    int cst = choose(2);
    M m = choose_contents<K>(alpha, maxlen);
    int rot = choose_rot<K>();
    note("%s %s of %s rot %d", cst ? "const" : "", K::name(), show(m).c_str(), rot);
    Cell<K> c;
    new (c.blank()) K();
    c->build(m, rot);
    typedef typename K::Seq S;
    const S& ks = c->get();
    const typename K::T* base = data(ks);
    if (cst)
        OnSource<const S>::run(ks, base, m);
    else
        OnSource<S>::run(c->get(), base, m);
    expect_eq(contents(c->get()), m, "source");
    Hash h;
    for (int v : m)
        h.u(uint64_t(v));
    for (int x : core().cur)
        h.u(uint64_t(x));
    outcome(h.get());
}

// views are equal iff they show the same range of the same storage
template<typename K>
void view_equality() {
    M m;
    int n = K::hi < 4 ? int(K::hi) : 4;
    for (int i = 0; i < n; ++i)
        m.push_back(1 + i % 2);  // equal values at different places
    Cell<K> c, o;
    new (c.blank()) K();
    new (o.blank()) K();
    c->build(m, 1);
    o->build(m, 1);
    size_t a1 = size_t(choose(n)), b1 = a1 + 1 + size_t(choose(n - int(a1)));
    size_t a2 = size_t(choose(n)), b2 = a2 + 1 + size_t(choose(n - int(a2)));
    int other = choose(2);
    note("%s [%zu,%zu) and [%zu,%zu) other %d", K::name(), a1, b1, a2, b2, other);
    auto v = efp::slice(a1, b1, c->get());
    auto w = efp::slice(a2, b2, other ? o->get() : c->get());
    bool e = !other && a1 == a2 && b1 == b2;
    MC_CHECK((v == w) == e && (w == v) == e, "equality of views is %d, expected %d", int(v == w), int(e));
    auto x(v);
    MC_CHECK(x == v, "a copy of a view differs");
    x = w;
    MC_CHECK(x == w && (x == v) == e, "an assigned view differs");
}

// equality of statically sized and converted views
inline void view_conversions() {
    std::vector<int> st;
    for (int i = 0; i < 4; ++i)
        st.push_back(1);
    int a = choose(3), b = choose(3);
    note("views at %d and %d", a, b);
    efp::ArrayView<int, 2> x(st.data() + a, 2), y(st.data() + b, 2);
    MC_CHECK((x == y) == (a == b), "ArrayView equality is wrong");
    {
        Cell<efp::ArrVecView<int, 3>> p, q;
        new (p.blank()) efp::ArrVecView<int, 3>(x);
        new (q.blank()) efp::ArrVecView<int, 3>(y);
        is_view(*p, st.data(), st, size_t(a), size_t(a) + 2, "ArrVecView made from an ArrayView");
        MC_CHECK((*p == *q) == (a == b), "ArrVecView equality is wrong");
        Cell<efp::VectorView<int>> r, s;
        new (r.blank()) efp::VectorView<int>(*p);
        new (s.blank()) efp::VectorView<int>(y);
        is_view(*r, st.data(), st, size_t(a), size_t(a) + 2, "VectorView made from an ArrVecView");
        is_view(*s, st.data(), st, size_t(b), size_t(b) + 2, "VectorView made from an ArrayView");
        MC_CHECK((*r == *s) == (a == b), "VectorView equality is wrong");
        efp::VectorView<int> t(st.data() + a, 2);
        MC_CHECK(t == *r && (t == *s) == (a == b), "VectorViews of the same range differ");
    }
    efp::ArrayView<int, 2> e0;
    efp::ArrVecView<int, 3> e1;
    efp::VectorView<int> e2;
    MC_CHECK(e1.empty() && e1.size() == 0 && e2.empty() && e2.size() == 0, "default views are not empty");
    efp::ArrVecView<int, 3> f1;
    efp::VectorView<int> f2;
    MC_CHECK(e1 == f1 && e2 == f2, "default views differ");
    (void)e0;
    e1 = efp::ArrVecView<int, 3>(x);
    e2 = efp::VectorView<int>(x);
    e0 = x;
    MC_CHECK(e0 == x && e1.data() == st.data() + a && e2.data() == st.data() + a, "assigned view is wrong");
    MC_CHECK(rejected_([] { efp::ArrVecView<int, 3> z(nullptr, 1); (void)z; }), "a non-empty ArrVecView without storage was accepted");
    MC_CHECK(rejected_([] { efp::VectorView<int> z(nullptr, 1); (void)z; }), "a non-empty VectorView without storage was accepted");
    MC_CHECK(rejected_([] { efp::ArrayView<int, 2> z(nullptr, 2); (void)z; }), "a non-empty ArrayView without storage was accepted");
}

}  // namespace mc
#endif
