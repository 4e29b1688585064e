// Formatting of integers, characters, bools, pointers and strings against std::format
#ifndef PART
    #define PART 0
#endif
#include "mc/fmtcheck.hpp"
#include <climits>
using namespace mc;

template<typename T>
static std::vector<T> corner_values() {
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    v.push_back(0);
    v.push_back(1);
    v.push_back(7);
    v.push_back(65);
    v.push_back(100);
    v.push_back(L::max());
    v.push_back(L::lowest());
    if (L::is_signed) {
        v.push_back(T(-1));
        v.push_back(T(-10));
        v.push_back(T(L::lowest() + 1));
    }
    return v;
}
template<>
std::vector<bool> corner_values<bool>() {
    return std::vector<bool>({false, true});
}
template<>
std::vector<char> corner_values<char>() {
    return std::vector<char>({'a', ' ', '{', '0', '\n', '\0', '\x7f', '\xe9'});
}
// values around every power of two and ten
template<typename T>
static std::vector<T> edge_values() {
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    unsigned long long mx = (unsigned long long)L::max();
    std::vector<unsigned long long> b;
    for (unsigned long long p = 1; p <= mx; p *= 2) {
        b.push_back(p);
        if (p > mx / 2)
            break;
    }
    for (unsigned long long p = 1; p <= mx; p *= 10) {
        b.push_back(p);
        b.push_back(p / 10 * 12);
        if (p > mx / 10)
            break;
    }
    for (unsigned long long x : b)
        for (int d = -1; d <= 1; ++d) {
            unsigned long long y = x + (unsigned long long)(long long)d;
            if (y > mx)
                continue;
            v.push_back(T(y));
            if (L::is_signed)
                v.push_back(T(-(long long)y));
        }
    v.push_back(L::max());
    v.push_back(L::lowest());
    return v;
}
template<typename T>
static void one(const std::string& f, T v) {
    std::string want;
    if (!std::numeric_limits<T>::is_signed && (f == "{:+}" || f == "{:+06}" || f == "{:^ 30x}"))
        return;  // the library documents the sign option for signed types only
    bool ok = oracle::format1(f, KindOf<T>::of(v), want);
    same(f, fmt(f, v), ok, want);
}
static const int widths[] = {0, 1, 2, 3, 5, 8, 13, 36, 70};
template<typename T>
static void specs(const char* types, int nw) {
    oracle::Spec s = choose_flags();
    int t = choose(int(strlen(types)) + 1);
    s.type = t ? types[t - 1] : char(0);
    s.width = widths[choose(nw)];
    std::string f = oracle::text(s);
    note("\"%s\"", f.c_str());
    bool boolish = std::is_same<T, bool>::value, charish = std::is_same<T, char>::value;
    if (boolish && (s.type == 'c' || s.alt || s.sign || (s.zero && (s.type == 0 || s.type == 's'))))
        return;  // accepted as an extension
    if (charish && s.zero && (s.type == 0 || s.type == 'c'))
        return;
    if (s.type == 'c' && !charish && (s.sign || s.alt || s.zero))
        return;  // not a valid combination; libraries differ in how they report it
    if (s.sign && (charish || !std::numeric_limits<T>::is_signed))
        return;  // the library documents the sign option for signed types only
    for (T v : corner_values<T>()) {
        if (s.type == 'c' && !charish && (v < T(0) || (unsigned long long)v > 127))
            continue;
        one(f, v);
    }
    Hash h;
    for (char c : f)
        h.u(uint64_t(c));
    outcome(h.get());
}
template<typename T>
static void edges() {
    static const char* fs[] = {"{}", "{:d}", "{:x}", "{:#X}", "{:o}", "{:#o}", "{:b}", "{:#b}", "{:+}", "{:021}", "{:>22}", "{:#070b}", "{:^ 30x}"};
    std::string f = fs[choose(13)];
    note("%s", f.c_str());
    for (T v : edge_values<T>())
        one(f, v);
}
// every value of a narrow type
template<typename T>
static void all_values() {
    static const char* fs[] = {"{}", "{:x}", "{:#X}", "{:o}", "{:b}", "{:+06}", "{:<7}|", "{:_^9}"};
    std::string f = fs[choose(8)];
    int hi = choose(sizeof(T) == 1 ? 1 : 16);
    note("%s %d", f.c_str(), hi);
    typedef std::numeric_limits<T> L;
    long n = sizeof(T) == 1 ? 256 : 4096;
    for (long i = 0; i < n; ++i)
        one(f, T(long(L::lowest()) + hi * n + i));
}
static void all_chars() {
    static const char* fs[] = {"{}", "{:c}", "{:3}", "{:>3c}", "{:*^4}", "{:d}", "{:#x}", "{:05d}"};
    std::string f = fs[choose(8)];
    note("%s", f.c_str());
    for (int i = 0; i < 256; ++i)
        one(f, char(i));
    for (int i = 0; i < 2; ++i)
        if (f.find('+') == std::string::npos && f.find('#') == std::string::npos && f.find('c') == std::string::npos)
            one(f, bool(i));
}
#ifdef __SIZEOF_INT128__
static std::string dec128(unsigned __int128 v, unsigned base) {
    std::string r;
    do
        r.insert(r.begin(), "0123456789abcdef"[unsigned(v % base)]);
    while (v /= base);
    return r;
}
static void int128() {
    static const char ty[] = {'d', 'x', 'o', 'b'};
    static const unsigned ba[] = {10, 16, 8, 2};
    int t = choose(4), p = choose(128), d = choose(3), neg = choose(2);
    unsigned __int128 v = (unsigned __int128)1 << p;
    v += (unsigned __int128)(__int128)(d - 1);
    if (p == 127 && d > 0 && !(neg && d == 1))
        neg = 0;
    std::string f = std::string("{:") + ty[t] + "}";
    note("%s of 2^%d%+d%s", f.c_str(), p, d - 1, neg ? " negated" : "");
    std::string want = dec128(v, ba[t]);
    same(f, fmt(f, v), true, want);
    if (p == 127 && d > 0)
        return;
    same(f, fmt(f, neg ? -(__int128)v : (__int128)v), true, neg && v ? "-" + want : want);
}
#endif
// dynamic width given as any integer type, automatic and manual
template<typename W>
static void dynamic() {
    static const char* fs[] = {"{:{}}", "{:*^{}}", "{:0{}}", "{0:{1}}", "{0:>{1}}", "{0:{1}d}", "{:#{}x}", "{:+{}}"};
    std::string f = fs[choose(8)];
    static const int ws[] = {0, 1, 2, 5, 9, 30, 600, -1, -5};
    int w = ws[choose(9)];
    if (w < 0 && !std::numeric_limits<W>::is_signed)
        return;
    if ((long long)W(w) != w)
        return;
    note("%s %d", f.c_str(), w);
    std::string want;
    for (int v : {0, 7, -123, 99999}) {
        bool ok = oracle::format3(f, arg_i(oracle::KI, v), w, 0, want);
        if (w == 0) {
            // a dynamic width of 0 is no width
            std::string g = f;
            std::string cut = f.find("{1}") != std::string::npos ? "{1}" : "{}";
            g.erase(f.find(cut, 1), cut.size());
            ok = oracle::format1(g, arg_i(oracle::KI, v), want);
        }
        same(f, fmt(f, v, W(w)), ok && w >= 0, want);
    }
}
// width / precision arguments that are no non-negative int
static void dynamic_bad() {
    static const char* fs[] = {"{:{}}", "{0:{1}}", "{:*>{}}", "{:.{}}", "{0:.{1}}"};
    std::string f = fs[choose(5)];
    note("%s", f.c_str());
    bool pr = f.find('.') != std::string::npos;
    std::string none;
    auto all = [&](const char* what) {
        note(" %s", what);
        if (pr) {
#define BAD(x) same(f, fmt(f, "abc", x), false, none), same(f, fmt(f, 1.5, x), false, none)
            BAD(1.5), BAD("x"), BAD(LLONG_MAX), BAD(INT_MAX + 1u), BAD(-1), BAD(LLONG_MIN), BAD(ULLONG_MAX);
            BAD(1.5f), BAD(efp::String("1"));
#undef BAD
        } else {
#define BAD(x) same(f, fmt(f, 42, x), false, none), same(f, fmt(f, "abc", x), false, none)
            BAD(1.5), BAD("x"), BAD(LLONG_MAX), BAD(INT_MAX + 1u), BAD(-1), BAD(LLONG_MIN), BAD(ULLONG_MAX);
            BAD(1.5f), BAD(efp::String("1"));
#undef BAD
        }
        same(f, fmt(f, 42), false, none);
    };
    all("bad");
}
static void manual3() {
    static const char* fs[] = {"{0:{1}.{2}}", "{0:{2}.{1}}", "{:{}.{}}", "{:*^{}.{}}", "{0:.{1}}", "{0:{1}.2}", "{0:5.{2}}", "{0:>{2}.{2}}"};
    std::string f = fs[choose(8)];
    int w = choose(8) + 1, p = choose(8) + 1;
    static const char* vs[] = {"", "a", "ab", "abcde", "abcdefghijkl"};
    std::string v = vs[choose(5)];
    note("%s %s %d %d", f.c_str(), v.c_str(), w, p);
    std::string want;
    bool ok = oracle::format3(f, arg_s(v), w, p, want);
    same(f, fmt(f, v.c_str(), w, p), ok, want);
    same(f, fmt(f, efp::String(v.c_str(), v.size()), w, p), ok, want);
    same(f, fmt(f, efp_fmt::string_view(v.c_str(), v.size()), (short)w, (unsigned long long)p), ok, want);
}
static void strings() {
    oracle::Spec s = oracle::Spec();
    static const char al[] = {0, '<', '>', '^', '<', '>', '^', '>', '^'};
    static const char* fi[] = {"", "", "", "", "*", "*", "*", "0", "="};
    int a = choose(9);
    s.align = al[a];
    s.fill = fi[a];
    static const int ws[] = {0, 1, 2, 3, 4, 5, 9, 20};
    s.width = ws[choose(8)];
    static const int ps[] = {-1, 0, 1, 2, 3, 4, 9};
    s.prec = ps[choose(7)];
    s.type = choose(2) ? 's' : char(0);
    std::string f = oracle::text(s), want;
    note("%s", f.c_str());
    static const char* vs[] = {"", "a", "ab", "a{}", "abcd", "hello world", "tab\t\"q\"\\"};
    for (const char* v : vs) {
        std::string t(v);
        bool ok = oracle::format1(f, arg_s(t), want);
        same(f, fmt(f, v), ok, want);
        same(f, fmt(f, efp::String(v)), ok, want);
        same(f, fmt(f, efp_fmt::string_view(v, t.size())), ok, want);
        char buf[32];
        strcpy(buf, v);
        same(f, fmt(f, static_cast<char*>(buf)), ok, want);
    }
    std::string z("x\0y", 3);
    bool ok = oracle::format1(f, arg_s(z), want);
    same(f, fmt(f, efp::String(z.data(), 3)), ok, want);
    same(f, fmt(f, efp_fmt::string_view(z.data(), 3)), ok, want);
}
// code points count, not bytes; the fill may be any code point
static size_t points(const std::string& s) {
    size_t n = 0;
    for (char c : s)
        n += (c & 0xc0) != 0x80;
    return n;
}
static void utf8() {
    static const char* fi[] = {"*", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x90\x8d\x88"};
    static const char* tx[] = {"", "\xc3\xa9", "a\xc3\xa9", "\xe2\x82\xac\xe2\x82\xac", "x\xc3\xa9y\xce\xa9z", "plain"};
    static const char al[] = {'<', '>', '^'};
    std::string fill = fi[choose(4)], v = tx[choose(6)];
    char a = al[choose(3)];
    int w = choose(9), p = choose(7) - 1;
    std::string f = "{:" + fill + a;
    if (w)
        f += std::to_string(w);
    if (p >= 0)
        f += "." + std::to_string(p);
    f += "}";
    note("\"%s\"", esc(f).c_str());
    std::string cut;
    size_t n = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        if ((v[i] & 0xc0) != 0x80 && p >= 0 && int(n++) == p)
            break;
        cut += v[i];
    }
    size_t have = points(cut), pad = size_t(w) > have ? size_t(w) - have : 0, left = a == '<' ? 0 : a == '>' ? pad : pad / 2;
    std::string want;
    for (size_t i = 0; i < left; ++i)
        want += fill;
    want += cut;
    for (size_t i = left; i < pad; ++i)
        want += fill;
    same(f, fmt(f, v.c_str()), true, want);
    same(f, fmt(f, efp::String(v.data(), v.size())), true, want);
    std::string g = "{:" + fill + a + (w ? std::to_string(w) : "") + "}", num;
    pad = size_t(w) > 2 ? size_t(w) - 2 : 0;
    left = a == '<' ? 0 : a == '>' ? pad : pad / 2;
    for (size_t i = 0; i < left; ++i)
        num += fill;
    num += "42";
    for (size_t i = left; i < pad; ++i)
        num += fill;
    same(g, fmt(g, 42), true, num);
}
static void pointers() {
    oracle::Spec s = oracle::Spec();
    static const char al[] = {0, '<', '>', '^', '<', '>', '^'};
    static const char* fi[] = {"", "", "", "", "*", "*", "*"};
    int a = choose(7);
    s.align = al[a];
    s.fill = fi[a];
    s.prec = -1;
    s.width = choose(24);
    s.type = choose(2) ? 'p' : char(0);
    std::string f = oracle::text(s), want;
    note("%s", f.c_str());
    static const uintptr_t vs[] = {0, 1, 15, 16, 0xff, 0xabcdef, 0x7fffffff, 0xffffffffu, UINTPTR_MAX, UINTPTR_MAX / 2};
    for (uintptr_t u : vs) {
        oracle::Arg x = oracle::Arg();
        x.k = oracle::KP;
        x.p = reinterpret_cast<const void*>(u);
        bool ok = oracle::format1(f, x, want);
        same(f, fmt(f, reinterpret_cast<const void*>(u)), ok, want);
        same(f, fmt(f, reinterpret_cast<void*>(u)), ok, want);
    }
    oracle::Arg x = oracle::Arg();
    x.k = oracle::KP;
    bool ok = oracle::format1(f, x, want);
    same(f, fmt(f, nullptr), ok, want);
}
// literal text, escapes, indexes and replacement fields in any order
static void pieces() {
    static const std::string ps[] = {"z", "{{", "}}", "{}", "{0}", "{1}", "{2:f}", "{3:>3}", "{:5}", std::string("\0", 1), "{:", "}", "{4}", "\xc3\xa9 %d", "{0:*<{0}}"};
    int n = choose(core().thorough ? 7 : 6);
    std::string f;
    for (int i = 0; i < n; ++i)
        f += ps[choose(15)];
    std::string want;
    bool ok = oracle::mixed(f, 5, "str", 2.5, 'c', want);
    if (core().log_on)
        note("\"%s\"", esc(f).c_str());
    same(f, fmt(f, 5, "str", 2.5, 'c'), ok, want);
}
// every output length around the sizes of the internal buffers
static void long_outputs() {
    int kind = choose(4), blk = choose(core().thorough ? 45 : 22);
    note("kind %d block %d", kind, blk);
    for (int n = blk * 50; n < blk * 50 + 50; ++n) {
        std::string f, want;
        std::string v(size_t(n), 'x');
        for (size_t i = 0; i < v.size(); ++i)
            v[i] = char('a' + i % 26);
        switch (kind) {
            case 0:
                f = "<{:*^" + std::to_string(n + 1) + "}>";
                oracle::format1(f, arg_i(oracle::KI, -42), want);
                same(f, fmt(f, -42), true, want);
                f = "<{:0" + std::to_string(n + 1) + "}>";
                oracle::format1(f, arg_i(oracle::KI, -42), want);
                same(f, fmt(f, -42), true, want);
                f = "<{:#0" + std::to_string(n + 1) + "b}>";
                oracle::format1(f, arg_i(oracle::KI, 77), want);
                same(f, fmt(f, 77), true, want);
                break;
            case 1:
                f = "<{}>";
                same(f, fmt(f, v.c_str()), true, "<" + v + ">");
                same(f, fmt(f, efp::String(v.data(), v.size())), true, "<" + v + ">");
                break;
            case 2:
                f = v + "{}" + v + "{}";
                same(f, fmt(f, 1234567890, v.c_str()), true, v + "1234567890" + v + v);
                break;
            default:
                f = "{:>" + std::to_string(n + 1) + "}{}{}{:<9}|";
                oracle::mixed(f, 1, v, 0.5, 'c', want);
                same(f, fmt(f, 1, v.c_str(), 0.5, 'c'), true, want);
        }
    }
}
// more arguments than fit the packed representation
template<size_t... I>
struct Seq {};
template<size_t N, size_t... I>
struct MkSeq: MkSeq<N - 1, N - 1, I...> {};
template<size_t... I>
struct MkSeq<0, I...> {
    typedef Seq<I...> type;
};
template<size_t... I>
static Got many(const std::string& f, Seq<I...>) {
    return fmt(f, int(1000 + I)...);
}
template<size_t N>
static void arity() {
    int i = choose(int(N) + 2), j = choose(int(N) + 1);
    std::string f = "{" + std::to_string(i) + "}-{" + std::to_string(j) + ":x}", want;
    note("%zu arguments, %s", N, f.c_str());
    char x[16];
    snprintf(x, sizeof x, "%x", 1000 + j);
    same(f, many(f, typename MkSeq<N>::type()), i < int(N) && j < int(N), std::to_string(1000 + i) + "-" + x);
    std::string a, w;
    for (int k = 0; k < i; ++k) {
        a += "{} ";
        w += std::to_string(1000 + k) + " ";
    }
    same(a, many(a, typename MkSeq<N>::type()), i <= int(N), w);
    std::string g = "{0:{" + std::to_string(j) + "}}";
    w = j < int(N) ? std::string(size_t(1000 + j - 4), ' ') + "1000" : "";
    same(g, many(g, typename MkSeq<N>::type()), j < int(N), w);
}
static void mixed_many() {
    int i = choose(19);
    std::string f = "{" + std::to_string(i) + "}";
    note("argument %d of a mixed list", i);
    static const char* want[] = {"1", "a", "true", "2.5", "str", "18446744073709551615", "-9223372036854775808", "0x10", "view", "0.1", "z", "false", "1e+300", "7", "8", "owned", "-5", "tail"};
    same(f, fmt(f, 1, 'a', true, 2.5, "str", ULLONG_MAX, LLONG_MIN, (void*)16, efp_fmt::string_view("view", 4), 0.1f, 'z', false, 1e300, (short)7, 8ul, efp::String("owned"), (signed char)-5, "tail"), i < 18, i < 18 ? want[i] : "");
}
static void named() {
    static const char* fs[] = {"{x}", "{y:>4}", "{x}{y}{x}", "{:{x}}", "{z}", "{0:{x}}", "{x:{y}}", "{xx}", "{_u}", "{} {x}"};
    static const char* want[] = {"3", "   7", "373", "  1", 0, "  1", "      3", 0, "u", "1 3"};
    int i = choose(10);
    note("%s", fs[i]);
    Got g;
    std::string f = fs[i];
    g.ok = false;
    try {
        efp::String s = efp::format(efp_fmt::runtime(efp_fmt::string_view(f.data(), f.size())), 1, efp_fmt::arg("x", 3), efp_fmt::arg("y", 7), efp_fmt::arg("_u", "u"));
        g.s.assign(s.data(), s.size());
        g.ok = true;
    } catch (const std::exception&) {
    }
    same(f, g, want[i] != 0, want[i] ? want[i] : "");
}
// the plain interface with literal format strings
static void literals() {
    note("literals");
    auto eq = [](const efp::String& s, const char* w) {
        ++core().st.transitions;
        MC_CHECK(std::string(s.data(), s.size()) == w, "format gives \"%s\", expected \"%s\"", esc(std::string(s.data(), s.size())).c_str(), w);
    };
    eq(efp::format(""), "");
    eq(efp::format("plain"), "plain");
    eq(efp::format("{{}}"), "{}");
    eq(efp::format("{} {} {}", 1, 'c', "s"), "1 c s");
    eq(efp::format("{1} {0}", 1, 2), "2 1");
    eq(efp::format("{:08.3f}|{:>6}|{:^#10x}", 3.14159, true, 255), "0003.142|  true|   0xff   ");
    eq(efp::format("{:{}}", "ab", 5), "ab   ");
    eq(efp::format("{:.{}}", "abcdef", 2), "ab");
    int i = 5;
    const int c = 6;
    efp::String s("str");
    const efp::String cs("cstr");
    eq(efp::format("{}{}{}{}", i, c, s, cs), "56strcstr");
    eq(efp::format("{}", efp::move(s)), "str");
}

#define SP(T, types, nw) add_choice("spec-" #T, [] { specs<T>(types, core().thorough ? 9 : nw); }, 2)
static void setup() {
#if PART == 0 || PART == 1
    SP(int, "dxXobBcs", 7);
    SP(unsigned, "dxXobBcs", 5);
    SP(long long, "dxXobBc", 9);
    SP(unsigned long long, "dxXobBc", 9);
    SP(signed char, "dxXobBc", 5);
    SP(unsigned char, "dxXobBc", 5);
    SP(short, "dxXobBc", 5);
    SP(unsigned short, "dxXobBc", 5);
    SP(long, "dxXobBc", 5);
    SP(unsigned long, "dxXobBc", 5);
    SP(bool, "dxXobBcs", 6);
    SP(char, "dxXobBcs", 6);
    add_choice("edges-signed-char", edges<signed char>);
    add_choice("edges-int", edges<int>);
    add_choice("edges-unsigned", edges<unsigned>);
    add_choice("edges-long", edges<long>);
    add_choice("edges-unsigned-long", edges<unsigned long>);
    add_choice("edges-long-long", edges<long long>);
    add_choice("edges-unsigned-long-long", edges<unsigned long long>);
    add_choice("all-signed-char", all_values<signed char>);
    add_choice("all-unsigned-char", all_values<unsigned char>);
    add_choice("all-short", all_values<short>, 4);
    add_choice("all-unsigned-short", all_values<unsigned short>, 4);
    add_choice("all-char-bool", all_chars);
#ifdef __SIZEOF_INT128__
    add_choice("int128", int128);
#endif
#endif
#if PART == 0 || PART == 2
    add_choice("dynamic-width-int", dynamic<int>);
    add_choice("dynamic-width-unsigned", dynamic<unsigned>);
    add_choice("dynamic-width-long-long", dynamic<long long>);
    add_choice("dynamic-width-unsigned-long-long", dynamic<unsigned long long>);
    add_choice("dynamic-width-short", dynamic<short>);
    add_choice("dynamic-width-unsigned-char", dynamic<unsigned char>);
    add_choice("dynamic-bad", dynamic_bad);
    add_choice("dynamic-both", manual3);
    add_choice("strings", strings, 2);
    add_choice("utf8", utf8);
    add_choice("pointers", pointers);
    add_choice("pieces", pieces, 8);
    add_choice("long-outputs", long_outputs, 4);
    add_choice("arguments-1", arity<1>);
    add_choice("arguments-2", arity<2>);
    add_choice("arguments-14", arity<14>);
    add_choice("arguments-15", arity<15>);
    add_choice("arguments-16", arity<16>);
    add_choice("arguments-17", arity<17>);
    add_choice("arguments-33", arity<33>);
    add_choice("arguments-mixed", mixed_many);
    add_choice("arguments-named", named);
    add_choice("literals", literals);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
