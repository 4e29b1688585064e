// Sequence formatting, print/println and rejection of malformed format strings
#ifndef PART
    #define PART 0
#endif
#include "mc/fmtcheck.hpp"
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
using namespace mc;

// ---- capture of what is written to stdout --------------------------------------------------------
template<typename F>
static std::string captured(F f) {
    static int file = -1, keep = -1;
    if (file < 0) {
        char name[] = "capture-XXXXXX";
        file = mkstemp(name);
        unlink(name);
        keep = dup(1);
        if (file < 0 || keep < 0)
            fail("harness error: no capture file");
    }
    fflush(stdout);
    if (ftruncate(file, 0) || lseek(file, 0, SEEK_SET) < 0)
        fail("harness error: capture file");
    dup2(file, 1);
    bool threw = false;
    try {
        f();
    } catch (const std::exception&) {
        threw = true;
    }
    fflush(stdout);
    dup2(keep, 1);
    std::string r;
    lseek(file, 0, SEEK_SET);
    char b[4096];
    ssize_t n;
    while ((n = read(file, b, sizeof b)) > 0)
        r.append(b, size_t(n));
    if (threw)
        r = r.empty() ? "!error" : "!error after output " + r;
    return r;
}
template<typename... As>
static void printed(const std::string& f, const As&... as) {
    Got g = fmt(f, as...);
    efp_fmt::string_view v(f.data(), f.size());
    std::string p = captured([&] { efp::print(efp_fmt::runtime(v), as...); });
    ++core().st.transitions;
    std::string want = g.ok ? g.s : "!error";
    MC_CHECK(p == want, "print of \"%s\" writes \"%s\", expected \"%s\"", esc(f).c_str(), esc(p).c_str(), esc(want).c_str());
    p = captured([&] { efp::println(efp_fmt::runtime(v), as...); });
    want = g.ok ? g.s + "\n" : "!error";
    MC_CHECK(p == want, "println of \"%s\" writes \"%s\", expected \"%s\"", esc(f).c_str(), esc(p).c_str(), esc(want).c_str());
}

// ---- elements ------------------------------------------------------------------------------------
template<typename T>
struct El;
template<>
struct El<int> {
    static int at(int i) {
        static const int v[] = {0, -1, 42, 2147483647};
        return v[i];
    }
    static std::string text(int i) {
        static const char* v[] = {"0", "-1", "42", "2147483647"};
        return v[i];
    }
};
template<>
struct El<double> {
    static double at(int i) {
        static const double v[] = {0, -1.5, 0.1, INFINITY};
        return v[i];
    }
    static std::string text(int i) {
        static const char* v[] = {"0", "-1.5", "0.1", "inf"};
        return v[i];
    }
};
template<>
struct El<float> {
    static float at(int i) {
        return float(El<double>::at(i));
    }
    static std::string text(int i) {
        return El<double>::text(i);
    }
};
template<>
struct El<bool> {
    static bool at(int i) {
        return i % 2 != 0;
    }
    static std::string text(int i) {
        return i % 2 ? "true" : "false";
    }
};
template<>
struct El<signed char> {
    static signed char at(int i) {
        return (signed char)(i == 3 ? -128 : i * 60);
    }
    static std::string text(int i) {
        return std::to_string(int(at(i)));
    }
};
template<>
struct El<unsigned long long> {
    static unsigned long long at(int i) {
        return i == 3 ? ~0ull : (unsigned long long)i << 40;
    }
    static std::string text(int i) {
        return std::to_string(at(i));
    }
};
template<>
struct El<const char*> {
    static const char* at(int i) {
        static const char* v[] = {"", "a", "{}", "two words, [x]"};
        return v[i];
    }
    static std::string text(int i) {
        return at(i);
    }
};
template<>
struct El<efp::String> {
    static efp::String at(int i) {
        return efp::String(El<const char*>::at(i));
    }
    static std::string text(int i) {
        return El<const char*>::at(i);
    }
};
template<>
struct El<char> {
    static char at(int i) {
        return "a{ \""[i];
    }
    static std::string text(int i) {
        return std::string(1, at(i));
    }
};
static std::string join(const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? ", " : "") + v[i];
    return r + "]";
}
// nested sequences as elements
template<typename T>
struct El<efp::Vector<T, std::allocator<T>>> {
    static efp::Vector<T> at(int i) {
        efp::Vector<T> v;
        for (int k = 0; k < i; ++k)
            v.push_back(El<T>::at(k));
        return v;
    }
    static std::string text(int i) {
        std::vector<std::string> v;
        for (int k = 0; k < i; ++k)
            v.push_back(El<T>::text(k));
        return join(v);
    }
};
template<typename T, size_t n>
struct El<efp::ArrVec<T, n>> {
    static efp::ArrVec<T, n> at(int i) {
        efp::ArrVec<T, n> v;
        for (int k = 0; k < i && k < int(n); ++k)
            v.push_back(El<T>::at(k));
        return v;
    }
    static std::string text(int i) {
        std::vector<std::string> v;
        for (int k = 0; k < i && k < int(n); ++k)
            v.push_back(El<T>::text(k));
        return join(v);
    }
};
template<typename T, size_t n>
struct El<efp::Array<T, n>> {
    static efp::Array<T, n> at(int i) {
        efp::Array<T, n> v;
        for (int k = 0; k < int(n); ++k)
            v[size_t(k)] = El<T>::at((i + k) % 4);
        return v;
    }
    static std::string text(int i) {
        std::vector<std::string> v;
        for (int k = 0; k < int(n); ++k)
            v.push_back(El<T>::text((i + k) % 4));
        return join(v);
    }
};
template<typename T, size_t n>
struct El<efp::Vcq<T, n>> {
    static efp::Vcq<T, n> at(int i) {
        efp::Vcq<T, n> v;
        for (int k = 0; k < i; ++k)
            v.push_back(El<T>::at(k));
        return v;
    }
    static std::string text(int i) {
        std::vector<std::string> v;
        for (int k = i > int(n) ? i - int(n) : 0; k < i; ++k)
            v.push_back(El<T>::text(k));
        return join(v);
    }
};
template<typename T, size_t n>
struct El<efp::Vcb<T, n>> {
    static efp::Vcb<T, n> at(int i) {
        efp::Vcb<T, n> v;
        for (int k = 0; k < int(n); ++k)
            v.push_back(El<T>::at((i + k) % 4));
        return v;
    }
    static std::string text(int i) {
        std::vector<std::string> v;
        for (int k = 0; k < int(n); ++k)
            v.push_back(El<T>::text((i + k) % 4));
        return join(v);
    }
};

// a sequence formatted in several contexts
template<typename S>
static void contexts(const S& s, const std::string& want) {
    same("{}", fmt("{}", s), true, want);
    same("{0}{0}", fmt("{0}{0}", s), true, want + want);
    same("a{}b{}c", fmt("a{}b{}c", s, 7), true, "a" + want + "b7c");
    same("{1}{2}{0}", fmt("{1}{2}{0}", 1, s, efp::String("x")), true, want + "x1");
    S copy(s);
    same("{}", fmt("{}", copy), true, want);
    same("{:}", fmt("{:}", s), true, want);
    printed("<{}>", s);
    std::string p = captured([&] { efp::println("{}", s); });
    MC_CHECK(p == want + "\n", "println writes \"%s\", expected \"%s\"", esc(p).c_str(), esc(want).c_str());
    p = captured([&] { efp::print("{} {}", s, 1); });
    MC_CHECK(p == want + " 1", "print writes \"%s\", expected \"%s\"", esc(p).c_str(), esc(want).c_str());
    efp::String r = efp::format("{}", s);
    MC_CHECK(std::string(r.data(), r.size()) == want, "format gives \"%s\", expected \"%s\"", esc(std::string(r.data(), r.size())).c_str(), esc(want).c_str());
}
static std::vector<int> picks(int lo, int hi) {
    int n = lo + (hi > lo ? choose(hi - lo + 1) : 0);
    std::vector<int> v;
    for (int i = 0; i < n; ++i)
        v.push_back(choose(4));
    return v;
}
template<typename T>
static std::string expected(const std::vector<int>& v) {
    std::vector<std::string> t;
    for (int i : v)
        t.push_back(El<T>::text(i));
    return join(t);
}
template<typename T>
static void vec(int hi) {
    std::vector<int> v = picks(0, hi);
    std::string w = expected<T>(v);
    note("Vector %s", w.c_str());
    efp::Vector<T> s;
    for (int i : v)
        s.push_back(El<T>::at(i));
    contexts(s, w);
    outcome(std::hash<std::string>()(w));
}
template<typename T, size_t n>
static void arrvec() {
    std::vector<int> v = picks(0, int(n));
    std::string w = expected<T>(v);
    note("ArrVec %s", w.c_str());
    efp::ArrVec<T, n> s;
    for (int i : v)
        s.push_back(El<T>::at(i));
    contexts(s, w);
    outcome(std::hash<std::string>()(w));
}
template<typename T, size_t n>
static void array() {
    std::vector<int> v = picks(int(n), int(n));
    std::string w = expected<T>(v);
    note("Array %s", w.c_str());
    efp::Array<T, n> s;
    for (size_t i = 0; i < n; ++i)
        s[i] = El<T>::at(v[i]);
    contexts(s, w);
    outcome(std::hash<std::string>()(w));
}
template<typename T, size_t n>
static void vcb() {
    std::vector<int> v = picks(int(n), int(n));
    int rot = choose(2 * int(n) + 1);
    std::string w = expected<T>(v);
    note("Vcb %s rotated by %d", w.c_str(), rot);
    efp::Vcb<T, n> s;
    for (int i = 0; i < rot; ++i)
        s.push_back(El<T>::at(3));
    for (int i : v)
        s.push_back(El<T>::at(i));
    contexts(s, w);
    outcome(std::hash<std::string>()(w));
}
template<typename T, size_t n>
static void vcq() {
    std::vector<int> v = picks(0, int(n));
    int rot = choose(2 * int(n) + 1), full = choose(2);
    std::string w = expected<T>(v);
    note("Vcq %s rotated by %d%s", w.c_str(), rot, full ? " (full)" : "");
    efp::Vcq<T, n> s;
    for (int i = 0; i < rot; ++i) {
        s.push_back(El<T>::at(3));
        if (!full)
            s.pop_front();
    }
    while (full && s.size() > 0)
        s.pop_front();
    for (int i : v)
        s.push_back(El<T>::at(i));
    contexts(s, w);
    outcome(std::hash<std::string>()(w));
}
// long sequences: every output length around the buffer sizes
static void longseq() {
    int n = choose(core().thorough ? 1200 : 400), k = choose(3);
    note("%d elements", n);
    std::string w = "[";
    if (k == 0) {
        efp::Vector<int> s;
        for (int i = 0; i < n; ++i) {
            s.push_back(i);
            w += (i ? ", " : "") + std::to_string(i);
        }
        w += "]";
        same("{}", fmt("{}", s), true, w);
        same("{}", fmt("{}|{}", s, s), true, w + "|" + w);
        std::string p = captured([&] { efp::println("{}", s); });
        MC_CHECK(p == w + "\n", "println of %d elements writes \"%s\"", n, esc(p).c_str());
    } else if (k == 1) {
        efp::Vector<efp::String> s;
        std::string e(size_t(n), 'y');
        s.push_back(efp::String(e.data(), e.size()));
        s.push_back(efp::String("z"));
        same("{}", fmt("{}", s), true, "[" + e + ", z]");
    } else {
        efp::Vector<efp::Vector<double>> s;
        for (int i = 0; i < n / 20; ++i) {
            efp::Vector<double> r;
            w += i ? ", [" : "[";
            for (int j = 0; j < 5; ++j) {
                r.push_back(i + j * 0.25);
                char b[32];
                snprintf(b, sizeof b, "%s%g", j ? ", " : "", i + j * 0.25);
                w += b;
            }
            w += "]";
            s.push_back(r);
        }
        w += "]";
        same("{}", fmt("{}", s), true, w);
    }
}
// ---- print and println of scalars ------------------------------------------------------------------
static void scalars() {
    static const std::string fs[] = {"", "x", "{}", "{}{}", "{1} {0}", "{:>5}|{:x}", "{{}}", "{", "}", "{2}", "{:z}", "a\nb{}\n", std::string("n\0l{}", 5), "\xc3\xa9{}", "{:{}}", "{0} {}"};
    std::string f = fs[choose(16)];
    int v = choose(4);
    note("\"%s\"", esc(f).c_str());
    switch (v) {
        case 0: printed(f, 255, 16); break;
        case 1: printed(f, efp::String("str"), 7); break;
        case 2: printed(f, 'c', true); break;
        default: printed(f, 2.5, 3); break;
    }
}
static void long_prints() {
    int n = choose(core().thorough ? 2200 : 1100);
    note("%d characters", n);
    std::string s(size_t(n), 'a');
    for (size_t i = 0; i < s.size(); ++i)
        s[i] = char('a' + i % 26);
    printed("{}", s.c_str());
    printed(s + "{}", 5);
    printed("{:*>" + std::to_string(n + 1) + "}", 5);
}
// several prints one after another
static void sequences() {
    int n = 1 + choose(4);
    std::string want;
    std::vector<int> ops;
    for (int i = 0; i < n; ++i)
        ops.push_back(choose(5));
    note("%d prints", n);
    std::string got = captured([&] {
        for (int o : ops)
            switch (o) {
                case 0: efp::print("a"); break;
                case 1: efp::println("b{}", 1); break;
                case 2: efp::println(""); break;
                case 3: efp::print("{}", efp::String("s")); break;
                default: fputs("raw", stdout);
            }
    });
    for (int o : ops)
        want += o == 0 ? "a" : o == 1 ? "b1\n" : o == 2 ? "\n" : o == 3 ? "s" : "raw";
    MC_CHECK(got == want, "the prints write \"%s\", expected \"%s\"", esc(got).c_str(), esc(want).c_str());
}
// ---- malformed format strings ----------------------------------------------------------------------
// the library accepts a few combinations std::format rejects (and vice versa); they are not judged
static bool judged(oracle::Kind k, const std::string& f, bool oracle_ok, bool ours_ok) {
    size_t c = f.find(':');
    bool sign = c != std::string::npos && f.find_first_of("+- ", c) != std::string::npos;
    if (oracle_ok == ours_ok)
        return true;
    if (oracle_ok)
        // the sign option is documented for signed numbers only
        return !(sign && (k == oracle::KU || k == oracle::KC || k == oracle::KB || f.find('c') != std::string::npos));
    if (k == oracle::KB || k == oracle::KC)
        return false;  // '0' and '#' on text presentations
    return !((k == oracle::KI || k == oracle::KU) && f.find('c') != std::string::npos);
}
template<typename T>
static void against(const std::string& f, const oracle::Arg& a, const T& v) {
    std::string want;
    bool ok = oracle::format1(f, a, want);
    Got g = fmt(f, v);
    if (judged(a.k, f, ok, g.ok)) {
        if (ok && (a.k == oracle::KI || a.k == oracle::KU) && f.find('c') != std::string::npos && f.find_first_of("+-#0 ") != std::string::npos)
            return;
        if (ok && a.k == oracle::KD)
            want = g.s;  // the text of floats is another property
        same(f, g, ok, want);
    } else
        ++core().st.transitions;
}
static void all_kinds(const std::string& f) {
    against(f, arg_i(oracle::KI, 65), 65);
    against(f, arg_i(oracle::KU, 65), 65u);
    against(f, arg_i(oracle::KB, 1), true);
    against(f, arg_i(oracle::KC, 'q'), 'q');
    oracle::Arg d = oracle::Arg();
    d.k = oracle::KD;
    d.d = 2.5;
    against(f, d, 2.5);
    against(f, arg_s("str"), efp::String("str"));
    against(f, arg_s("str"), "str");
    d.k = oracle::KP;
    d.p = (void*)16;
    against(f, d, (const void*)16);
    d.k = oracle::KN;
    std::string want;
    bool ok = oracle::format1(f, d, want);
    same(f, fmt(f), ok, want);
}
static void bodies(int len) {
    // the first characters for the longest strings, all of them for shorter ones
    static const char al[] = "01.<+#dsc{}:*xbf-^ e";
    std::string f;
    int n = choose(len + 1);
    for (int i = 0; i < n; ++i)
        f += al[choose(n > 3 && !core().thorough ? 13 : 20)];
    if (core().log_on)
        note("\"{:%s}\"", f.c_str());
    all_kinds("{:" + f + "}");
}
static void raw(int len) {
    static const char al[] = "{}:0a1";
    std::string f;
    int n = choose(len + 1);
    for (int i = 0; i < n; ++i)
        f += al[choose(6)];
    if (f.find('a') != std::string::npos && f.find(':') != std::string::npos)
        f.replace(f.find('a'), 1, "d");
    if (core().log_on)
        note("\"%s\"", f.c_str());
    all_kinds(f);
}
// a sequence has no format options
static void seqspec() {
    static const char al[] = "0<>.dxs5{}:n";
    std::string f;
    int n = 1 + choose(3);
    for (int i = 0; i < n; ++i)
        f += al[choose(12)];
    note("\"{:%s}\" of sequences", f.c_str());
    std::string g = "{:" + f + "}";
    // whatever the options, no crash; unknown ones are rejected
    efp::Vector<int> v = {1, 2};
    efp::Array<int, 2> a = {1, 2};
    efp::ArrVec<int, 3> r = {1, 2};
    efp::Vcb<int, 2> b;
    efp::Vcq<int, 2> q;
    bool ok = f[0] == '}';
    std::string rest = ok ? f.substr(1) + "}" : "";
    // what follows the field has to be valid text on its own
    Got t = ok ? fmt(rest, 1) : Got();
    (void)t;
    auto check = [&](const Got& x) {
        ++core().st.transitions;
        if (!ok)
            MC_CHECK(!x.ok, "\"%s\" of a sequence is accepted and gives \"%s\"", g.c_str(), esc(x.s).c_str());
    };
    check(fmt(g, v));
    check(fmt(g, a));
    check(fmt(g, r));
    check(fmt(g, b));
    check(fmt(g, q));
}
// huge numbers in widths, precisions and indexes
static void numbers() {
    static const char* ns[] = {"2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "99999999999999999999", "18446744073709551616", "18446744073709551617", "00", "01", "1000000"};
    static const char* at[] = {"{%}", "{:{%}}", "{:.{%}}", "{:%$}", "{:.%d}", "{%:d}", "{0:{%}}"};
    std::string n = ns[choose(11)], f = at[choose(7)];
    f.replace(f.find('%'), 1, n);
    note("%s", f.c_str());
    same(f, fmt(f, 5, 6), false, "");
    same(f, fmt(f, "s", 6), false, "");
    static const char* wt[] = {"{:%}", "{:.%}", "{:.%f}", "{:<%}"};
    if (n.size() > 10 || n > "2147483647") {
        for (const char* w : wt) {
            std::string g = w;
            g.replace(g.find('%'), 1, n);
            if (n.size() < 10)
                continue;
            same(g, fmt(g, 5), false, "");
            same(g, fmt(g, 5.0), false, "");
            same(g, fmt(g, "s"), false, "");
        }
    }
}

#define ALL(T)                                           \
    add_choice("Vector-" #T, [] { vec<T>(3); });         \
    add_choice("ArrVec-" #T, arrvec<T, 3>);              \
    add_choice("Array-" #T, array<T, 3>);                \
    add_choice("Vcb-" #T, vcb<T, 2>);                    \
    add_choice("Vcq-" #T, vcq<T, 3>)
#define SOME(T)                                          \
    add_choice("Vector-of-" #T, [] { vec<SOME_##T>(3); }); \
    add_choice("ArrVec-of-" #T, arrvec<SOME_##T, 2>);    \
    add_choice("Array-of-" #T, array<SOME_##T, 2>);      \
    add_choice("Vcb-of-" #T, vcb<SOME_##T, 2>);          \
    add_choice("Vcq-of-" #T, vcq<SOME_##T, 2>)
typedef efp::String String;
typedef const char* cstr;
typedef unsigned long long ull;
typedef signed char schar;
typedef efp::Vector<int> SOME_Vector;
typedef efp::Vector<efp::Vector<double>> SOME_VectorVector;
typedef efp::ArrVec<int, 2> SOME_ArrVec;
typedef efp::Array<int, 2> SOME_Array;
typedef efp::Vcq<int, 2> SOME_Vcq;
typedef efp::Vcb<int, 2> SOME_Vcb;
typedef efp::Vector<efp::String> SOME_Strings;
static void setup() {
#if PART == 0 || PART == 1
    ALL(int);
    ALL(double);
    ALL(String);
    add_choice("Array1-int", array<int, 1>);
    add_choice("Vcb1-int", vcb<int, 1>);
    add_choice("Vcq1-int", vcq<int, 1>);
    add_choice("Vcb3-int", vcb<int, 3>);
    add_choice("ArrVec1-int", arrvec<int, 1>);
    add_choice("Array4-bool", array<bool, 4>);
    add_choice("long-sequences", longseq, 2);
    add_choice("print-scalars", scalars);
    add_choice("print-long", long_prints, 2);
    add_choice("print-sequences", sequences);
#endif
#if PART == 0 || PART == 5
    ALL(float);
    ALL(schar);
#endif
#if PART == 0 || PART == 2
    ALL(bool);
    ALL(cstr);
    ALL(ull);
    add_choice("ArrVec-char", arrvec<char, 3>);
    add_choice("Array-char", array<char, 3>);
    add_choice("Vcb-char", vcb<char, 2>);
    add_choice("Vcq-char", vcq<char, 3>);
#endif
#if PART == 0 || PART == 3
    SOME(Vector);
    SOME(ArrVec);
    SOME(Array);
    SOME(Vcq);
#endif
#if PART == 0 || PART == 5
    SOME(Vcb);
#endif
#if PART == 0 || PART == 6
    SOME(VectorVector);
    SOME(Strings);
#endif
#if PART == 0 || PART == 4
    // throwing is slow under the sanitizers: the longest strings are left to the plain build
#ifdef MC_ASAN
    const int cut = 1;
#else
    const int cut = 0;
#endif
    add_choice("malformed-options", [=] { bodies((core().thorough ? 5 : 4) - cut); }, 8);
    add_choice("malformed-text", [=] { raw((core().thorough ? 8 : 7) - 2 * cut); }, 8);
    add_choice("malformed-sequence-options", seqspec, 2);
    add_choice("huge-numbers", numbers);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
