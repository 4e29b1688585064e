#ifndef MC_FMTCHECK_HPP
#define MC_FMTCHECK_HPP
#include "mc/core.hpp"
#include "mc/fmt_oracle.h"
#include "efp.hpp"
#include <cstdint>
#include <limits>
#include <string>
#include <vector>
namespace mc {
inline std::string esc(const std::string& s) {
    std::string r;
    for (char c : s.substr(0, 200)) {
        char b[8];
        if ((unsigned char)c < 32 || (unsigned char)c > 126) {
            snprintf(b, sizeof b, "\\x%02x", (unsigned char)c);
            r += b;
        } else
            r += c;
    }
    if (s.size() > 200)
        r += "... (" + std::to_string(s.size()) + " characters)";
    return r;
}
struct Got {
    bool ok;
    std::string s;
};
template<typename... As>
Got fmt(const std::string& f, const As&... as) {
    Got g;
    g.ok = false;
    try {
        efp::String s = efp::format(efp_fmt::runtime(efp_fmt::string_view(f.data(), f.size())), as...);
        MC_CHECK(s.c_str()[s.size()] == '\0', "the text of \"%s\" is not terminated", esc(f).c_str());
        g.s.assign(s.data(), s.size());
        g.ok = true;
    } catch (const std::exception&) {
    }
    return g;
}
inline void same(const std::string& f, const Got& g, bool ok, const std::string& want) {
    ++core().st.transitions;
    if (ok) {
        MC_CHECK(g.ok, "format string \"%s\" is rejected, expected \"%s\"", esc(f).c_str(), esc(want).c_str());
        MC_CHECK(g.s == want, "format string \"%s\" gives \"%s\", expected \"%s\"", esc(f).c_str(), esc(g.s).c_str(), esc(want).c_str());
    } else
        MC_CHECK(!g.ok, "invalid format string \"%s\" is accepted and gives \"%s\"", esc(f).c_str(), esc(g.s).c_str());
}
inline oracle::Arg arg_i(oracle::Kind k, long long v) {
    oracle::Arg a = oracle::Arg();
    a.k = k;
    a.i = v;
    a.u = (unsigned long long)v;
    return a;
}
inline oracle::Arg arg_s(const std::string& s) {
    oracle::Arg a = oracle::Arg();
    a.k = oracle::KS;
    a.s = s;
    return a;
}
template<typename T>
struct KindOf;
#define MC_KIND(T, K)                               \
    template<>                                      \
    struct KindOf<T> {                              \
        static oracle::Arg of(T v) {                \
            return arg_i(oracle::K, (long long)v);  \
        }                                           \
    };
MC_KIND(signed char, KI)
MC_KIND(short, KI)
MC_KIND(int, KI)
MC_KIND(long, KL)
MC_KIND(long long, KLL)
MC_KIND(unsigned char, KU)
MC_KIND(unsigned short, KU)
MC_KIND(unsigned, KU)
MC_KIND(unsigned long, KUL)
MC_KIND(unsigned long long, KULL)
MC_KIND(bool, KB)
MC_KIND(char, KC)
#undef MC_KIND
// every flag of a specification except width, precision and type
inline oracle::Spec choose_flags() {
    oracle::Spec s = oracle::Spec();
    static const char al[] = {0, '<', '>', '^', '<', '>', '^', '>', '^', '<'};
    static const char* fi[] = {"", "", "", "", "*", "*", "0", "<", "^", "+"};
    static const char sg[] = {0, '+', '-', ' '};
    int a = choose(10);
    s.align = al[a];
    s.fill = fi[a];
    s.sign = sg[choose(4)];
    s.alt = choose(2) != 0;
    s.zero = choose(2) != 0;
    s.prec = -1;
    return s;
}
}  // namespace mc
#endif
