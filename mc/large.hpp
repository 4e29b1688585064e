// Containers of hundreds and of tens of thousands of elements: every length around the borders of the
// narrow integer types, every pair of operations, compared with std::vector element by element.
#ifndef MC_LARGE_HPP
#define MC_LARGE_HPP
#include "mc/core.hpp"
#include "efp.hpp"
#include <memory>

namespace mc {

inline int large_value(size_t i) {
    return int(i * 7 % 1000003) + 3;
}

template<typename V>
static void same_large(const V& v, const std::vector<int>& m, const char* what) {
    MC_CHECK(size_t(v.size()) == m.size() && size_t(efp::length(v)) == m.size() && v.empty() == m.empty(), "%s: size %zu, length %zu, expected %zu", what, size_t(v.size()), size_t(efp::length(v)), m.size());
    size_t k = 0;
    for (const int& x : v) {
        MC_CHECK(k < m.size() && x == m[k], "%s: iteration gives a wrong element %zu", what, k);
        ++k;
    }
    MC_CHECK(k == m.size(), "%s: iteration ends after %zu of %zu", what, k, m.size());
    for (size_t i = 0; i < m.size(); ++i)
        MC_CHECK(v[i] == m[i] && efp::nth(i, v) == m[i] && v.data()[i] == m[i], "%s: element %zu of %zu is %d, expected %d", what, i, m.size(), v[i], m[i]);
}

template<typename F>
static void rejected_large(const char* what, const F& f) {
    bool t = false;
    try {
        f();
    } catch (const std::exception&) {
        t = true;
    }
    MC_CHECK(t, "%s is accepted", what);
}

static const size_t large_sizes[] = {127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1024, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537};

// cap: the capacity of the container, 0 if it grows
template<typename V>
struct LargeList {
    std::unique_ptr<V> a, b;
    std::vector<int> m, mb;
    size_t cap;
    explicit LargeList(size_t c) : a(new V()), b(new V()), cap(c) {}
    bool room(size_t k) const {
        return !cap || m.size() + k <= cap;
    }
    enum { PUSH, PUSH_OWN, POP, INS0, INSMID, INSEND, ER0, ERMID, ERLAST, SHORTER, LONGER, COPY, MOVE, ASSIGN, ASSIGN_FROM, SELF, CLEAR, WRITE, RESERVE, NOPS };
    void op(int o) {
        V& v = *a;
        const size_t n = m.size();
        switch (o) {
            case PUSH:
                note("push_back");
                if (room(1)) {
                    v.push_back(11);
                    m.push_back(11);
                } else
                    rejected_large("push_back beyond the capacity", [&] { v.push_back(11); });
                break;
            case PUSH_OWN:
                note("push_back of its first element, often");
                for (int i = 0; i < 3 && n && room(1); ++i) {
                    v.push_back(v[0]);
                    m.push_back(m[0]);
                }
                break;
            case POP:
                note("pop_back");
                if (n) {
                    v.pop_back();
                    m.pop_back();
                }
                break;
            case INS0: case INSMID: case INSEND: {
                size_t p = o == INS0 ? 0 : o == INSMID ? n / 2 : n;
                note("insert at %zu", p);
                if (room(1)) {
                    v.insert(p, n ? v[n - 1] : 5);
                    m.insert(m.begin() + long(p), n ? int(m[n - 1]) : 5);
                } else
                    rejected_large("insert beyond the capacity", [&] { v.insert(p, 5); });
                break;
            }
            case ER0: case ERMID: case ERLAST: {
                size_t p = o == ER0 ? 0 : o == ERMID ? n / 2 : n - 1;
                note("erase at %zu", p);
                if (n) {
                    v.erase(p);
                    m.erase(m.begin() + long(p));
                }
                rejected_large("erase at the end", [&] { v.erase(m.size()); });
                break;
            }
            case SHORTER:
                note("resize to %zu", n - n / 3);
                v.resize(n - n / 3);
                m.resize(n - n / 3);
                break;
            case LONGER: {
                size_t k = n + 200;
                note("resize to %zu", k);
                if (room(200)) {
                    v.resize(k);
                    m.resize(k);
                } else
                    rejected_large("resize beyond the capacity", [&] { v.resize(k); });
                break;
            }
            case COPY: {
                note("copy");
                b.reset(new V(*a));
                std::unique_ptr<V> t = std::move(a);
                a = std::move(b);
                b = std::move(t);
                mb = m;
                break;
            }
            case MOVE: {
                note("move");
                std::unique_ptr<V> t(new V(efp::move(*a)));
                a = std::move(t);
                break;
            }
            case ASSIGN:
                note("b = a");
                *b = *a;
                mb = m;
                break;
            case ASSIGN_FROM: {
                note("b = {1,2,3}, a = move(b), b = old a");
                V t {1, 2, 3};
                *b = *a;
                mb = m;
                *a = efp::move(t);
                m = {1, 2, 3};
                break;
            }
            case SELF: {
                note("a = a");
                const V& r = *a;
                *a = r;
                break;
            }
            case CLEAR:
                note("clear, refill");
                v.clear();
                m.clear();
                for (size_t i = 0; i < n; ++i) {
                    v.push_back(large_value(i + 1));
                    m.push_back(large_value(i + 1));
                }
                break;
            case WRITE:
                note("write every third element");
                for (size_t i = 0; i < n; i += 3) {
                    efp::nth(i, v) = int(i);
                    m[i] = int(i);
                }
                break;
            case RESERVE:
                note("reserve");
                if (room(100))
                    v.reserve(n + 100);
                break;
        }
        same_large(*a, m, "a");
        same_large(*b, mb, "b");
        MC_CHECK((*a == *b) == (m == mb), "a == b is wrong");
        MC_CHECK(a->capacity() >= m.size(), "the capacity is less than the size");
    }
    void fill(size_t n) {
        for (size_t i = 0; i < n; ++i) {
            a->push_back(large_value(i));
            m.push_back(large_value(i));
        }
        same_large(*a, m, "filled");
    }
};

template<typename V>
static void large_list(size_t cap, size_t n, bool thorough) {
    LargeList<V> l(cap);
    note("%zu elements, capacity %zu", n, cap);
    int o = choose(LargeList<V>::NOPS), p = choose(thorough || n < 5000 ? LargeList<V>::NOPS : 4);
    l.fill(n);
    l.op(o);
    l.op(thorough || n < 5000 ? p : p * 5);
    outcome(l.m.size() * 31 + l.mb.size());
}

static inline size_t choose_large() {
    return large_sizes[choose(int(sizeof large_sizes / sizeof *large_sizes))];
}

// a ring of n elements through more than two turns
template<size_t n>
static void large_vcb() {
    typedef efp::Vcb<int, n> V;
    std::unique_ptr<V> v(new V()), w(new V());
    std::vector<int> m(n, 0);
    size_t upto = choose(2) ? n - 1 : 2 * n + 3;
    int how = choose(3);
    note("Vcb of %zu, %zu pushes", n, upto);
    std::vector<int> all(n, 0);
    for (size_t i = 0; i < upto; ++i) {
        v->push_back(large_value(i));
        all.push_back(large_value(i));
        if (i + 1 == upto || i % (n / 2 + 1) == 0 || i + 1 == n)
            same_large(*v, std::vector<int>(all.end() - long(n), all.end()), "ring");
    }
    m.assign(all.end() - long(n), all.end());
    for (size_t i = 0; i < n; i += 5) {
        (*v)[i] = int(i);
        m[i] = int(i);
    }
    if (how == 0)
        *w = *v;
    else if (how == 1)
        w.reset(new V(*v));
    else
        w.reset(new V(efp::move(*v)));
    for (int k = 0; k < 2; ++k) {
        w->push_back(77);
        m.erase(m.begin());
        m.push_back(77);
        same_large(*w, m, "copied ring");
    }
    outcome(upto);
}

// a bounded queue: filled over its capacity, half emptied, filled again
template<size_t n>
static void large_vcq() {
    typedef efp::Vcq<int, n> V;
    std::unique_ptr<V> v(new V()), w(new V());
    std::vector<int> m;
    int how = choose(3), turn = choose(3);
    size_t start = turn == 0 ? 0 : turn == 1 ? n / 2 : n - 1;
    note("Vcq of %zu, rotated by %zu", n, start);
    for (size_t i = 0; i < start; ++i) {
        v->push_back(1);
        MC_CHECK(v->pop_front() == 1 && v->empty(), "push and pop of one element");
    }
    size_t pushes = choose(2) ? n : n + n / 2;
    for (size_t i = 0; i < pushes; ++i) {
        v->push_back(large_value(i));
        m.push_back(large_value(i));
    }
    if (m.size() > n)
        m.erase(m.begin(), m.end() - long(n));
    same_large(*v, m, "queue");
    for (size_t i = 0; i < n / 3; ++i)
        MC_CHECK(v->pop_front() == m[i], "pop %zu gives a wrong element", i);
    m.erase(m.begin(), m.begin() + long(n / 3));
    same_large(*v, m, "queue after pops");
    if (how == 0)
        *w = *v;
    else if (how == 1)
        w.reset(new V(*v));
    else
        w.reset(new V(efp::move(*v)));
    for (int k = 0; k < 3; ++k) {
        w->push_back(77 + k);
        m.push_back(77 + k);
    }
    if (m.size() > n)
        m.erase(m.begin(), m.end() - long(n));
    same_large(*w, m, "copied queue");
    for (size_t i = 0; i < m.size(); ++i)
        MC_CHECK(w->pop_front() == m[i], "pop %zu of the copy gives a wrong element", i);
    MC_CHECK(w->empty() && w->size() == 0, "the emptied queue is not empty");
    outcome(pushes);
}

}  // namespace mc
#endif
