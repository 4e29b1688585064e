// Shared parts of the queue scenarios: element types, reference model, linearizability.
#ifndef MC_QUEUE_SCEN_HPP
#define MC_QUEUE_SCEN_HPP
#include "efp.hpp"
#include "mc/sched.h"
#include <cstdio>

namespace qs {

// two words that belong together
struct Pair {
    int a, b;
    Pair() : a(0), b(~0) {}
    Pair(int x) : a(x), b(~x) {}
    int value() const {
        return b == ~a ? a : -999;
    }
};
// owns heap memory
struct Boxed {
    int* p;
    Boxed() : p(nullptr) {}
    Boxed(int x) : p(new int(x)) {}
    Boxed(const Boxed& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Boxed(Boxed&& o) noexcept : p(o.p) {
        o.p = nullptr;
    }
    Boxed& operator=(const Boxed& o) {
        if (this != &o) {
            delete p;
            p = o.p ? new int(*o.p) : nullptr;
        }
        return *this;
    }
    Boxed& operator=(Boxed&& o) noexcept {
        if (this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Boxed() {
        delete p;
    }
    int value() const {
        return p ? *p : -998;
    }
};
inline int value(int x) {
    return x;
}
inline int value(const Pair& p) {
    return p.value();
}
inline int value(const Boxed& p) {
    return p.value();
}

// reference: a FIFO (w), for the double buffer a second one (r)
struct Model {
    int w[24], r[24], nw, nr, cap;
    void reset(int c) {
        nw = nr = 0;
        cap = c;
    }
    static int pop(int* q, int& n) {
        int x = q[0];
        for (int i = 1; i < n; ++i)
            q[i - 1] = q[i];
        --n;
        return x;
    }
    // performs the operation; false if it cannot give this result here
    bool step(const mcs::OpRec& o) {
        switch (o.kind) {
            case 'E':
                if (cap > 0 && nw == cap)
                    pop(w, nw);
                w[nw++] = o.arg;
                return true;
            case 'D':  // blocking
                return nw > 0 && pop(w, nw) == o.res;
            case 'N':  // non-blocking, 0 is nothing
                if (nw == 0)
                    return o.res == 0;
                return pop(w, nw) == o.res;
            case 'I':
                return (nw == 0) == (o.res != 0);
            case 'S': {
                Model t = *this;
                for (int i = 0; i < t.nr; ++i)
                    w[i] = t.r[i];
                for (int i = 0; i < t.nw; ++i)
                    r[i] = t.w[i];
                nw = t.nr;
                nr = t.nw;
                return true;
            }
            case 'M':
                return (nr == 0) == (o.res != 0);
            case 'Q':
                return nr > 0 && pop(r, nr) == o.res;
        }
        return false;
    }
};

inline bool lin(const Model& m, const mcs::OpRec* h, int n, unsigned done, bool blocked) {
    unsigned all = 0;
    for (int i = 0; i < n; ++i)
        if (h[i].ret >= 0)
            all |= 1u << i;
    if ((done & all) == all)
        return !blocked || m.nw == 0;
    for (int i = 0; i < n; ++i) {
        if (h[i].ret < 0 || (done >> i & 1))
            continue;
        bool first = true;
        for (int j = 0; j < n && first; ++j)
            if (j != i && h[j].ret >= 0 && !(done >> j & 1) && h[j].ret < h[i].call)
                first = false;
        if (!first)
            continue;
        Model x = m;
        if (x.step(h[i]) && lin(x, h, n, done | 1u << i, blocked))
            return true;
    }
    return false;
}

inline const char* judge(const Model& init, const mcs::OpRec* h, int n) {
    static char buf[900];
    bool blocked = false;
    for (int i = 0; i < n; ++i)
        if (h[i].ret < 0) {
            if (h[i].kind != 'D') {
                snprintf(buf, sizeof buf, "T%d is blocked for ever in %c", h[i].tid, h[i].kind);
                return buf;
            }
            blocked = true;
        }
    if (lin(init, h, n, 0, blocked))
        return nullptr;
    int k = snprintf(buf, sizeof buf, "%s: initially", blocked ? "no linearization leaves the queue empty, yet a dequeue is still blocked" : "the history is not linearizable");
    for (int i = 0; i < init.nw; ++i)
        k += snprintf(buf + k, sizeof buf - size_t(k), " %d", init.w[i]);
    for (int i = 0; i < n && k < 800; ++i)
        k += snprintf(buf + k, sizeof buf - size_t(k), "; T%d %c(%d)=%d [%d..%d]", h[i].tid, h[i].kind, h[i].arg, h[i].res, h[i].call, h[i].ret);
    return buf;
}

// scripts: strings of operation letters per thread
struct Script {
    char op[mcs::MAXT][8];
    int threads;
};
inline Script& script() {
    static Script s;
    return s;
}
inline Model& init_model() {
    static Model m;
    return m;
}

// all non-empty words up to maxlen over the alphabet, by index
inline int words(int alpha, int maxlen) {
    int n = 0, p = 1;
    for (int i = 0; i < maxlen; ++i)
        n += p *= alpha;
    return n;
}
inline void word(char* out, int idx, const char* alpha, int na) {
    int len = 1, p = na;
    while (idx >= p) {
        idx -= p;
        p *= na;
        ++len;
    }
    for (int i = 0; i < len; ++i) {
        out[i] = alpha[idx % na];
        idx /= na;
    }
    out[len] = 0;
}
// threads run the same kind of code: only non-decreasing choices of words
inline void choose_scripts(int threads, const char* alpha, int na, int maxlen) {
    Script& s = script();
    int n = words(na, maxlen), from = 0;
    s.threads = threads;
    for (int t = 1; t <= threads; ++t) {
        int i = from + mcs::choose(n - from);
        from = i;
        word(s.op[t], i, alpha, na);
        mcs::note("T%d:%s", t, s.op[t]);
    }
    mcs::set_threads(threads);
}

}  // namespace qs
#endif
