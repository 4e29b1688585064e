#ifndef MC_STRING_WORLD_HPP
#define MC_STRING_WORLD_HPP
#include "mc/core.hpp"
#include "mc/alloc.hpp"
#include "efp.hpp"
#include <list>

namespace mc {

template<typename Ch>
std::basic_string<Ch> S(const char* s) {
    std::basic_string<Ch> r;
    for (; *s; ++s)
        r += Ch((unsigned char)*s);
    return r;
}

template<typename Ch>
struct ToStd {
    template<typename C>
    static void check(const C&, const std::basic_string<Ch>&) {}
    static void check_view(const efp::VectorView<Ch>&, const std::basic_string<Ch>&) {}
};
#ifndef MC_FREE  // the freestanding library has no conversion to std::string
template<>
struct ToStd<char> {
    template<typename C>
    static void check(const C& s, const std::string& m) {
        std::string t = s;
        MC_CHECK(t == m, "conversion to std::string gives \"%s\"", t.c_str());
    }
    static void check_view(const efp::StringView& s, const std::string& m) {
        std::string t = s;
        MC_CHECK(t == m, "conversion of a view to std::string gives \"%s\"", t.c_str());
    }
};
#endif

template<typename Ch, typename C_ = efp::Vector<Ch>>
struct StringWorld {
    typedef C_ C;
    typedef std::basic_string<Ch> M;
    Cell<C> a, b;
    M ma, mb;
    enum Op {
        LIT0, LIT3, LITHI, PTRLEN, PTR0, FILL0, FILL3, RANGE, RANGE_OWN, IL, APP, APP_EMPTY, APP_OWN, APP_OWN1, APPN, PLUS_B, PLUS_SELF, PLUS_LIT, ASSIGN, ASSIGN_OWN, ASSIGNN,
        INS0, INSEND, INS_OWN, INSN_MID, INSN_OWN, INS_BAD, INSN_BAD, PUSH, PUSH_OWN, POP, RES0, RESP2, RES_M1, RESERVE, HUGE_SIZE, SHRINK, CLEAR, ER0, ER_LAST, ER_BAD, W0, WLAST, ASG_AB, ASG_BA, MOV_AB,
        SELF, SELFMOVE, COPYC, MOVEC, SWAP, SUB1, SUB01, SUBBAD, B_LIT, B_PUSH, NOPS
    };
    static int nops() {
        return NOPS;
    }
    StringWorld() {
        new (a.blank()) C();
        new (b.blank()) C();
    }
    bool enabled(int o) const {
        switch (o) {
            case APP_OWN: case APP_OWN1: case ASSIGN_OWN: case INS_OWN: case INSN_OWN: case PUSH_OWN: case RES_M1: case ER0: case ER_LAST: case W0: case WLAST: case SUB1: case RANGE_OWN:
                return !ma.empty();
            default:
                return true;
        }
    }
    template<typename F>
    void rejected(const char* what, const F& f) {
        bool t = false;
        try {
            f();
        } catch (const std::exception&) {
            t = true;
        }
        MC_CHECK(t, "%s was not rejected", what);
    }
    static M cut(const M& m) {  // up to the first NUL, as a C string sees it
        return M(m.c_str());
    }
    static M read(C& c) {
        M m;
        for (size_t i = 0; i < c.size(); ++i)
            m += c[i];
        return m;
    }
    void ref(C& r) {
        MC_CHECK(&r == &*a, "a modifying function does not return its object");
    }
    void apply(int o) {
        C& x = *a;
        C& y = *b;
        switch (o) {
            case LIT0:
                note("a=\"\"");
                x = C(S<Ch>("").c_str());
                ma = S<Ch>("");
                break;
            case LIT3:
                note("a=\"abc\"");
                x = C(S<Ch>("abc").c_str());
                ma = S<Ch>("abc");
                break;
            case LITHI:
                note("a=\"a\\xe9\"");
                x = C(S<Ch>("a\xe9").c_str());
                ma = S<Ch>("a\xe9");
                break;
            case PTRLEN: {
                note("a=C(\"d\\0e\",3)");
                M t = S<Ch>("d");
                t += Ch(0);
                t += Ch('e');
                x = C(t.data(), 3);
                ma = t;
                break;
            }
            case PTR0: {
                note("a=C(p,0)");
                M t = S<Ch>("d");
                x = C(t.data(), 0);
                ma.clear();
                break;
            }
            case FILL0:
                note("a=C(0,'z')");
                x = C(size_t(0), Ch('z'));
                ma.clear();
                break;
            case FILL3:
                note("a=C(3,'z')");
                x = C(size_t(3), Ch('z'));
                ma = S<Ch>("zzz");
                break;
            case RANGE: {
                note("a=C(it,it)");
                std::list<Ch> l;
                l.push_back(Ch('r'));
                l.push_back(Ch('s'));
                x = C(l.begin(), l.end());
                ma = S<Ch>("rs");
                break;
            }
            case RANGE_OWN: {
                note("a=C(a.begin()+1,a.end())");
                x = C(x.begin() + 1, x.end());
                ma = ma.substr(1);
                break;
            }
            case IL:
                note("a={'i','j'}");
                x = C {Ch('i'), Ch('j')};
                ma = S<Ch>("ij");
                break;
            case APP:
                note("a.append(\"yz\")");
                ref(x.append(S<Ch>("yz").c_str()));
                ma += S<Ch>("yz");
                break;
            case APP_EMPTY:
                note("a.append(\"\")");
                ref(x.append(S<Ch>("").c_str()));
                break;
            case APP_OWN:
                note("a.append(a.c_str())");
                ref(x.append(x.c_str()));
                ma += cut(ma);
                break;
            case APP_OWN1:
                note("a.append(a.c_str()+1)");
                ref(x.append(x.c_str() + 1));
                ma += cut(ma.substr(1));
                break;
            case APPN: {
                int k = ma.size() % 2 ? 3 : 0;
                note("a.append(%d,'q')", k);
                ref(x.append(size_t(k), Ch('q')));
                ma.append(size_t(k), Ch('q'));
                break;
            }
            case PLUS_B:
                note("a+=b");
                ref(x += static_cast<const C&>(y));
                ma += mb;
                break;
            case PLUS_SELF:
                note("a+=a");
                ref(x += static_cast<const C&>(x));
                ma += M(ma);
                break;
            case PLUS_LIT:
                note("a+=\"k\"");
                ref(x += S<Ch>("k").c_str());
                ma += S<Ch>("k");
                break;
            case ASSIGN:
                note("a.assign(\"pq\")");
                ref(x.assign(S<Ch>("pq").c_str()));
                ma = S<Ch>("pq");
                break;
            case ASSIGN_OWN:
                note("a.assign(a.c_str()+1)");
                ref(x.assign(x.c_str() + 1));
                ma = cut(ma.substr(1));
                break;
            case ASSIGNN:
                note("a.assign(2,'r')");
                ref(x.assign(size_t(2), Ch('r')));
                ma = S<Ch>("rr");
                break;
            case INS0:
                note("a.insert(0,\"mno\")");
                ref(x.insert(0, S<Ch>("mno").c_str()));
                ma.insert(0, S<Ch>("mno"));
                break;
            case INSEND:
                note("a.insert(size,\"m\")");
                ref(x.insert(ma.size(), S<Ch>("m").c_str()));
                ma += S<Ch>("m");
                break;
            case INS_OWN: {
                size_t p = ma.size() / 2;
                note("a.insert(%zu,a.c_str())", p);
                ref(x.insert(p, x.c_str()));
                ma.insert(p, cut(ma));
                break;
            }
            case INSN_MID: {
                size_t p = ma.size() / 2;
                note("a.insert(%zu,\"u\\0v\",3)", p);
                M t = S<Ch>("u");
                t += Ch(0);
                t += Ch('v');
                ref(x.insert(p, t.data(), 3));
                ma.insert(p, t);
                break;
            }
            case INSN_OWN: {
                size_t p = ma.size() ? 1 : 0;
                note("a.insert(%zu,a.data()+1,size-1)", p);
                M t = ma.substr(1);
                ref(x.insert(p, x.data() + 1, ma.size() - 1));
                ma.insert(p, t);
                break;
            }
            case INS_BAD:
                note("a.insert(size+1,..)");
                rejected("insert beyond the end", [&] { x.insert(ma.size() + 1, S<Ch>("m").c_str()); });
                rejected("insert beyond the end", [&] { x.insert(size_t(-1), S<Ch>("m").c_str()); });
                break;
            case INSN_BAD:
                note("a.insert(size+1,..,1)");
                rejected("insert beyond the end", [&] { x.insert(ma.size() + 1, S<Ch>("m").c_str(), 1); });
                rejected("insert beyond the end", [&] { x.insert(size_t(-1), S<Ch>("m").c_str(), 1); });
                break;
            case PUSH:
                note("a.push_back('h')");
                x.push_back(Ch('h'));
                ma += Ch('h');
                break;
            case PUSH_OWN:
                note("a.push_back(a[0])");
                x.push_back(x[0]);
                ma += Ch(ma[0]);
                break;
            case POP:
                note("a.pop_back()");
                if (ma.empty())
                    rejected("pop_back of an empty string", [&] { x.pop_back(); });
                else {
                    x.pop_back();
                    ma.resize(ma.size() - 1);
                }
                break;
            case RES0:
                note("a.resize(0)");
                x.resize(0);
                ma.clear();
                break;
            case RESP2:
                note("a.resize(+2)");
                x.resize(ma.size() + 2);
                ma.resize(ma.size() + 2, Ch(0));
                break;
            case RES_M1:
                note("a.resize(-1)");
                x.resize(ma.size() - 1);
                ma.resize(ma.size() - 1);
                break;
            case RESERVE:
                note("a.reserve(size+1)");
                x.reserve(ma.size() + 1);
                break;
            case HUGE_SIZE: {
                const size_t top = size_t(-1);
                const size_t sizes[] = {top, top - 1, top / sizeof(Ch) + 1, top / sizeof(Ch)};
                for (size_t n : sizes) {
                    note("a.resize(%zu), a.reserve(%zu)", n, n);
                    if (n >= top_size<Ch>()) {
                        rejected("resize beyond the address space", [&] { x.resize(n); });
                        rejected("a string beyond the address space", [&] { C t(n, Ch('x')); });
                        rejected("append beyond the address space", [&] { x.append(n, Ch('x')); });
                        rejected("assign beyond the address space", [&] { x.assign(n, Ch('x')); });
                    }
                    if (n > top_size<Ch>())
                        rejected("reserve beyond the address space", [&] { x.reserve(n); });
                }
                break;
            }
            case SHRINK:
                note("a.shrink_to_fit()");
                x.shrink_to_fit();
                break;
            case CLEAR:
                note("a.clear()");
                x.clear();
                ma.clear();
                break;
            case ER0:
                note("a.erase(0)");
                x.erase(0);
                ma.erase(0, 1);
                break;
            case ER_LAST:
                note("a.erase(last)");
                x.erase(ma.size() - 1);
                ma.erase(ma.size() - 1);
                break;
            case ER_BAD:
                note("a.erase(size)");
                rejected("erase beyond the end", [&] { x.erase(ma.size()); });
                rejected("erase beyond the end", [&] { x.erase(size_t(-1)); });
                break;
            case W0:
                note("a[0]='w'");
                x[0] = Ch('w');
                ma[0] = Ch('w');
                break;
            case WLAST:
                note("*(end-1)='l'");
                *(x.end() - 1) = Ch('l');
                ma[ma.size() - 1] = Ch('l');
                break;
            case ASG_AB: {
                note("a=b");
                C& r = (x = static_cast<const C&>(y));
                ref(r);
                ma = mb;
                break;
            }
            case ASG_BA:
                note("b=a");
                y = static_cast<const C&>(x);
                mb = ma;
                break;
            case MOV_AB: {
                note("a=move(b)");
                C& r = (x = efp::move(y));
                ref(r);
                ma = mb;
                mb = read(y);
                break;
            }
            case SELF: {
                note("a=a");
                C& z = x;
                x = z;
                break;
            }
            case SELFMOVE: {
                note("a=move(a)");
                C& z = x;
                x = efp::move(z);
                ma = read(x);
                break;
            }
            case COPYC: {
                note("C t(a); t+='t'; b=t");
                Cell<C> t;
                new (t.blank()) C(static_cast<const C&>(x));
                same(*t, ma, "copy");
                t->push_back(Ch('t'));
                y = *t;
                mb = ma + Ch('t');
                break;
            }
            case MOVEC: {
                note("C t(move(a)); b=move(t)");
                Cell<C> t;
                new (t.blank()) C(efp::move(x));
                y = efp::move(*t);
                mb = ma;
                ma = read(x);
                break;
            }
            case SWAP:
                note("swap");
                efp::swap(x, y);
                ma.swap(mb);
                break;
            case SUB1:
                note("a=a.substr(1)");
                x = x.substr(1);
                ma = ma.substr(1);
                break;
            case SUB01:
                note("b=a.substr(0,2)");
                y = x.substr(0, 2);
                mb = ma.substr(0, 2);
                break;
            case SUBBAD:
                note("a.substr(size+1)");
                rejected("substr beyond the end", [&] { x.substr(ma.size() + 1); });
                rejected("substr beyond the end", [&] { x.substr(size_t(-1)); });
                rejected("copy beyond the end", [&] {
                    Ch buf[4];
                    x.copy(buf, 1, ma.size() + 1);
                });
                rejected("compare beyond the end", [&] { x.compare(ma.size() + 1, 1, y); });
                rejected("compare beyond the end", [&] { x.compare(size_t(-1), 1, y); });
                break;
            case B_LIT:
                note("b=\"ab\"");
                y = C(S<Ch>("ab").c_str());
                mb = S<Ch>("ab");
                break;
            case B_PUSH:
                note("b.push_back('c')");
                y.push_back(Ch('c'));
                mb += Ch('c');
                break;
        }
        core().log_on ? (void)0 : (void)0;
    }
    static int sgn(int x) {
        return (x > 0) - (x < 0);
    }
    static void same(C& c, const M& m, const char* who) {
        const C& k = c;
        MC_CHECK(c.size() == m.size(), "%s has size %zu, expected %zu", who, c.size(), m.size());
        MC_CHECK(size_t(efp::length(k)) == m.size(), "length(%s) is wrong", who);
        MC_CHECK(c.empty() == m.empty(), "%s.empty() is wrong", who);
        MC_CHECK(c.capacity() >= c.size(), "%s has a capacity below its size", who);
        MC_CHECK(size_t(k.end() - k.begin()) == m.size() && size_t(c.end() - c.begin()) == m.size(), "%s iterates wrongly", who);
        for (size_t i = 0; i < m.size(); ++i) {
            MC_CHECK(c[i] == m[i], "%s[%zu] is %d, expected %d", who, i, int(c[i]), int(m[i]));
            MC_CHECK(k[i] == m[i] && k.at(i) == m[i] && k.data()[i] == m[i] && c.data()[i] == m[i] && k.begin()[i] == m[i] && c.begin()[i] == m[i]
                         && efp::nth(i, k) == m[i],
                     "%s: access paths disagree at %zu", who, i);
        }
        bool t = false;
        try {
            (void)k.at(m.size());
        } catch (const std::exception&) {
            t = true;
        }
        MC_CHECK(t, "at() beyond the end of %s was not rejected", who);
        if (!m.empty())
            MC_CHECK(k.front() == m[0] && k.back() == m[m.size() - 1], "front/back of %s are wrong", who);
        const Ch* p = k.c_str();
        MC_CHECK(p != nullptr, "c_str of %s is null", who);
        for (size_t i = 0; i < m.size(); ++i)
            MC_CHECK(p[i] == m[i], "c_str of %s differs at %zu", who, i);
        MC_CHECK(p[m.size()] == Ch(0), "c_str of %s is not terminated", who);
        for (size_t i = 0; i < m.size(); ++i)
            MC_CHECK(c[i] == m[i], "c_str of %s changed the string", who);
        ToStd<Ch>::check(k, m);
        efp::VectorView<Ch> v = k.operator efp::VectorView<Ch>();
        MC_CHECK(v.size() == m.size() && (m.empty() || v.data() == k.data()), "view of %s does not show it", who);
        efp::VectorView<Ch> v2(k);
        MC_CHECK(v2.size() == m.size() && (m.empty() || v2.data() == k.data()), "view of %s does not show it", who);
        for (size_t i = 0; i < m.size(); ++i)
            MC_CHECK(v[i] == m[i] && v2.data()[i] == m[i], "view of %s differs", who);
        ToStd<Ch>::check_view(v, m);
        MC_CHECK(v == v2, "two views of %s differ", who);
        MC_CHECK((k == cut(m).c_str()) == (cut(m) == m), "%s == C string is wrong", who);
        MC_CHECK((v == cut(m).c_str()) == (cut(m) == m), "view of %s == C string is wrong", who);
        M other = m + Ch('x');
        MC_CHECK(!(k == other.c_str()), "%s equals a longer C string", who);
        MC_CHECK(!(v == other.c_str()), "view of %s equals a longer C string", who);
        if (!m.empty()) {
            other = m;
            other[m.size() - 1] = Ch('?');
            MC_CHECK(!(k == other.c_str()), "%s equals a different C string", who);
            MC_CHECK(!(v == other.c_str()), "view of %s equals a different C string", who);
        }
    }
    void check() {
        C& x = *a;
        C& y = *b;
        same(x, ma, "a");
        same(y, mb, "b");
        const C& cx = x;
        MC_CHECK((cx == static_cast<const C&>(y)) == (ma == mb), "a == b is %d", int(cx == y));
        MC_CHECK(sgn(cx.compare(y)) == sgn(ma.compare(mb)), "a.compare(b) is %d, expected sign %d", cx.compare(y), sgn(ma.compare(mb)));
        MC_CHECK(sgn(y.compare(x)) == sgn(mb.compare(ma)), "b.compare(a) is %d, expected sign %d", y.compare(x), sgn(mb.compare(ma)));
        MC_CHECK(cx.compare(cx) == 0, "a.compare(a) is not 0");
        size_t n = ma.size();
        size_t step = n > 6 ? n / 4 : 1;
        for (size_t p = 0; p <= n; p += step) {
            size_t lens[] = {0, 1, 2, n - p, n - p + 1, size_t(-1), size_t(-1) - p, size_t(-1) - 1};
            for (size_t l : lens) {
                int e = sgn(ma.compare(p, l, mb)), g = sgn(cx.compare(p, l, y));
                MC_CHECK(e == g, "a.compare(%zu,%zu,b) has sign %d, expected %d", p, l, g, e);
                M es = ma.substr(p, l);
                C gs = cx.substr(p, l);
                MC_CHECK(gs.size() == es.size(), "substr(%zu,%zu) has size %zu", p, l, gs.size());
                for (size_t i = 0; i < es.size(); ++i)
                    MC_CHECK(gs[i] == es[i], "substr(%zu,%zu) differs at %zu", p, l, i);
                std::vector<Ch> buf(n + 2, Ch('#'));
                size_t r = cx.copy(buf.data(), l, p);
                MC_CHECK(r == es.size(), "copy(%zu at %zu) returned %zu, expected %zu", l, p, r, es.size());
                for (size_t i = 0; i < buf.size(); ++i)
                    MC_CHECK(buf[i] == (i < es.size() ? es[i] : Ch('#')), "copy wrote a wrong character at %zu", i);
            }
        }
        MC_CHECK(cx.substr().size() == n, "substr() is not the whole string");
        if (!ma.empty() && n <= 12) {
            int e = sgn(ma.compare(mb));
            (void)e;
        }
    }
    void key(Hash& h) {
        h.u(a->capacity());
        h.u(b->capacity());
        h.u(a->data() == nullptr);
        h.u(b->data() == nullptr);
        h.u(ma.size());
        for (Ch v : ma)
            h.u(uint64_t(v));
        h.u(mb.size());
        for (Ch v : mb)
            h.u(uint64_t(v));
    }
};

// longer strings: every length, insertion of every length at every position, appends, own parts
template<typename Ch>
void string_grown(int lim) {
    typedef StringWorld<Ch> W;
    typedef typename W::M M;
    int n = choose(lim + 1);
    int what = choose(6);
    int mode = choose(3);
    W w;
    M m;
    for (int i = 0; i < n; ++i)
        m += Ch('a' + i % 26);
    if (mode == 0)
        *w.a = typename W::C(m.c_str());
    else
        for (int i = 0; i < n; ++i)
            w.a->push_back(m[size_t(i)]);
    if (mode == 2)
        w.a->shrink_to_fit();
    w.ma = m;
    auto& x = *w.a;
    note("length %d mode %d op %d", n, mode, what);
    int len = choose(7) * (what < 3 ? 3 : 1);
    M t;
    for (int i = 0; i < len; ++i)
        t += Ch('A' + i);
    if (what == 0) {
        int p = choose(n + 1);
        note("insert(%d, %d chars)", p, len);
        x.insert(size_t(p), t.c_str());
        w.ma.insert(size_t(p), t);
    } else if (what == 1) {
        int p = choose(n + 1);
        note("insert(%d, ptr, %d)", p, len);
        x.insert(size_t(p), t.data(), size_t(len));
        w.ma.insert(size_t(p), t);
    } else if (what == 2) {
        note("append(%d chars)", len);
        x.append(t.c_str());
        w.ma += t;
    } else if (what == 3) {
        int p = choose(n + 1), q = choose(n + 1);
        note("insert(%d, own part from %d)", p, q);
        M own = w.ma.substr(size_t(q));
        x.insert(size_t(p), x.c_str() + q, own.size());
        w.ma.insert(size_t(p), own);
    } else if (what == 4) {
        int q = choose(n + 1);
        note("append/assign own part from %d", q);
        M own = w.ma.substr(size_t(q));
        if (len % 2) {
            x.append(x.c_str() + q);
            w.ma += own;
        } else {
            x.assign(x.c_str() + q);
            w.ma = own;
        }
    } else {
        x += *w.a;
        w.ma += M(w.ma);
        *w.b = x;
        w.mb = w.ma;
        w.b->append(size_t(len), Ch('!'));
        w.mb.append(size_t(len), Ch('!'));
    }
    w.check();
    Hash h;
    w.key(h);
    outcome(h.get());
}

// compare / equality of every pair of short strings over an alphabet with high and zero characters
template<typename Ch>
void string_pairs_view(const efp::Vector<Ch>& x, const std::basic_string<Ch>* m) {
    typedef std::basic_string<Ch> M;
    efp::VectorView<Ch> v(x);
    MC_CHECK((v == m[1].c_str()) == (m[0] == M(m[1].c_str())), "equality of a view with a C string is wrong");
    efp::VectorView<Ch> cv(m[1].c_str());
    MC_CHECK(cv.size() == M(m[1].c_str()).size() && cv.data() == m[1].c_str() && cv.c_str() == cv.data(), "view of a C string is wrong");
}
template<typename C, typename M>
void string_pairs_view(const C&, const M*) {}

// traits of the user: letters are the same in both cases, and ordered backwards
struct NoCase: std::char_traits<char> {
    static char low(char c) {
        return c == 'A' ? 'a' : c;
    }
    static bool eq(char x, char y) {
        return low(x) == low(y);
    }
    static bool lt(char x, char y) {
        return (unsigned char)low(y) < (unsigned char)low(x);
    }
    static int compare(const char* x, const char* y, size_t n) {
        for (size_t i = 0; i < n; ++i)
            if (!eq(x[i], y[i]))
                return lt(x[i], y[i]) ? -1 : 1;
        return 0;
    }
};

template<typename Ch, typename Tr = std::char_traits<Ch>, typename C = efp::Vector<Ch>>
void string_pairs(int maxlen) {
    static const int al[] = {0, 'a', 'b', std::is_same<Tr, std::char_traits<Ch>>::value ? 0x80 : 'A', 0xff};
    typedef std::basic_string<Ch, Tr> M;
    M m[2];
    for (int k = 0; k < 2; ++k) {
        int n = choose(maxlen + 1);
        for (int i = 0; i < n; ++i)
            m[k] += Ch(al[choose(5)]);
    }
    C x(m[0].data(), m[0].size()), y(m[1].data(), m[1].size());
    int e = m[0].compare(m[1]), g = x.compare(y);
    MC_CHECK((e > 0) - (e < 0) == (g > 0) - (g < 0), "compare gives %d, expected sign of %d (lengths %zu, %zu)", g, e, m[0].size(), m[1].size());
    MC_CHECK((x == y) == (m[0] == m[1]), "equality is wrong");
    MC_CHECK((x == m[1].c_str()) == (m[0] == M(m[1].c_str())), "equality with a C string is wrong");
    string_pairs_view(x, m);
    Hash h;
    h.u(uint64_t((e > 0) - (e < 0)) + 5);
    h.u(m[0].size());
    h.u(m[1].size());
    outcome(h.get());
}

}  // namespace mc
#endif
