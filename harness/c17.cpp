// Formatting of float and double against printf, to_chars and strtod
#ifndef PART
    #define PART 0
#endif
#include "mc/fmtcheck.hpp"
#include <cmath>
using namespace mc;

static double from_bits(uint64_t u) {
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static float from_bits32(uint32_t u) {
    float d;
    memcpy(&d, &u, 4);
    return d;
}
static void one(const oracle::Spec& s, const std::string& f, double v) {
    same(f, fmt(f, v), true, oracle::of_float(s, v, false));
}
static void one(const oracle::Spec& s, const std::string& f, float v) {
    same(f, fmt(f, v), true, oracle::of_float(s, v, true));
}
static oracle::Spec plain(char type = 0, int prec = -1) {
    oracle::Spec s = oracle::Spec();
    s.type = type;
    s.prec = prec;
    return s;
}
static const double corner[] = {0.0, -0.0, 1, -1, 0.5, 1.5, 2.5, 0.1, -0.001, 9.995, 0.00012345, 99999.5, 123456789, 1e15, 9007199254740993.0, 1e16, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 6.02e23, INFINITY, -INFINITY, NAN};
// every combination of flags, types, widths and precisions
template<typename T>
static void specs() {
    oracle::Spec s = choose_flags();
    static const char ty[] = {0, 'e', 'E', 'f', 'F', 'g', 'G', 'a', 'A'};
    s.type = ty[choose(9)];
    static const int ws[] = {0, 1, 6, 12, 30}, ps[] = {-1, 0, 1, 3, 8, 20};
    s.width = ws[choose(5)];
    s.prec = ps[choose(6)];
    std::string f = oracle::text(s);
    note("\"%s\"", f.c_str());
    for (double v : corner)
        one(s, f, T(v));
    one(s, f, T(-T(NAN)));
    Hash h;
    for (char c : f)
        h.u(uint64_t(c));
    outcome(h.get());
}
// numbers built from few decimal digits: every mantissa below a bound at every exponent
template<typename T>
static void decimals(int digits) {
    int lim = digits == 2 ? 100 : digits == 3 ? 1000 : 10000;
    int e = choose(sizeof(T) == 4 ? 86 : 640), blk = choose(lim / 100);
    int ex = e - (sizeof(T) == 4 ? 46 : 326);
    note("mantissas from %d, exponent %d", blk * 100, ex);
    oracle::Spec s = plain();
    for (int m = blk * 100; m < blk * 100 + 100; ++m) {
        if (lim > 100 && m % 10 == 0)
            continue;
        char b[40];
        snprintf(b, sizeof b, "%de%d", m, ex);
        T v = sizeof(T) == 4 ? T(strtof(b, 0)) : T(strtod(b, 0));
        if (!std::isfinite(v))
            continue;
        one(s, "{}", v);
    }
    outcome(uint64_t(e) * 1000 + uint64_t(blk));
}
// the leading and trailing bits of the significand, at every exponent
static void bits64(int top, int low) {
    int ex = choose(2048), hi = choose(1 << top);
    if (ex == 2047)
        return;
    note("exponent %d, leading bits %d", ex, hi);
    oracle::Spec s = plain();
    for (uint64_t lo = 0; lo < (1u << low); ++lo)
        for (int fill = 0; fill < 2; ++fill) {
            uint64_t mid = fill ? ((uint64_t(1) << (52 - top)) - 1) & ~((uint64_t(1) << low) - 1) : 0;
            double v = from_bits(uint64_t(ex) << 52 | uint64_t(hi) << (52 - top) | mid | lo);
            one(s, "{}", v);
            Got g = fmt("{}", v);
            MC_CHECK(strtod(g.s.c_str(), 0) == v, "%s does not read back as the same value", g.s.c_str());
        }
}
// all floats with the given leading 16 + trailing pattern; thorough: all floats
static void bits32(bool all) {
    int hi = choose(1 << 8), nx = choose(1 << 7);
    note("leading bits %d %d", hi, nx);
    oracle::Spec s = plain();
    uint32_t base = uint32_t(hi) << 23 | uint32_t(nx) << 16;
    if (hi == 255)
        return;
    auto check = [&](uint32_t u) {
        float v = from_bits32(u);
        Got g = fmt("{}", v);
        MC_CHECK(g.ok && strtof(g.s.c_str(), 0) == v, "%s does not read back as the same value", g.s.c_str());
        same("{}", g, true, oracle::of_float(s, v, true));
    };
    if (all)
        for (uint32_t lo = 0; lo < 65536; ++lo)
            check(base | lo);
    else
        for (uint32_t lo = 0; lo < 16; ++lo) {
            check(base | lo);
            check(base | (0xffff - lo));
            check(base | (1u << lo));
        }
}
// ties and near ties at every precision
static void ties() {
    static const char ty[] = {'f', 'e', 'g', 0, 'a'};
    int t = choose(5), p = choose(26), k = choose(24);
    note("type %c precision %d, multiples of 2^-%d", ty[t] ? ty[t] : '-', p, k);
    oracle::Spec s = plain(ty[t], p);
    std::string f = oracle::text(s);
    for (int n = 0; n < 200; ++n) {
        double v = std::ldexp(double(n), -k);
        one(s, f, v);
        one(s, f, -v);
        one(s, f, std::nextafter(v, 1e300));
        if (v > 0)
            one(s, f, std::nextafter(v, 0));
        one(s, f, float(v));
    }
    if (!s.alt) {
        s.alt = true;
        f = oracle::text(s);
        for (int n = 0; n < 200; n += 7)
            one(s, f, std::ldexp(double(n), -k));
    }
}
// decimal borders: 9.99..5, 0.000..5 and their neighbours at every magnitude and precision
static void borders() {
    static const char ty[] = {'f', 'e', 'g', 0};
    int t = choose(4), p = choose(24), e = choose(50) - 25;
    note("type %c precision %d exponent %d", ty[t] ? ty[t] : '-', p, e);
    oracle::Spec s = plain(ty[t], p);
    std::string f = oracle::text(s);
    static const char* ms[] = {"1", "5", "9", "95", "99", "995", "999", "9995", "99995", "999999999999999", "4999999999999999", "5000000000000001", "25", "125", "15", "45", "9999995", "99999949999", "1234565", "12345678901234567"};
    for (const char* m : ms) {
        std::string b = std::string(m) + "e" + std::to_string(e);
        double v = strtod(b.c_str(), 0);
        one(s, f, v);
        one(s, f, std::nextafter(v, 0));
        one(s, f, std::nextafter(v, 1e300));
        one(s, f, float(v));
    }
}
// every binary exponent with every presentation and a range of precisions
static void magnitudes(int np) {
    static const char ty[] = {'f', 'e', 'g', 'a', 0};
    static const int ps[] = {0, 1, 2, 6, 15, 16, 17, 18, 30, 100, 340, 766, 767, 768, 800, 1074, 1100};
    int t = choose(5), p = choose(np), blk = choose(64);
    note("type %c precision %d exponents from %d", ty[t] ? ty[t] : '-', ps[p], blk * 32);
    oracle::Spec s = plain(ty[t], ps[p]);
    std::string f = oracle::text(s);
    for (int ex = blk * 32; ex < blk * 32 + 32 && ex < 2047; ++ex)
        for (uint64_t m : {uint64_t(0), uint64_t(1), (uint64_t(1) << 52) - 1, uint64_t(0x5555555555555), uint64_t(0x8000000000000)})
            one(s, f, from_bits(uint64_t(ex) << 52 | m));
    if (blk < 8)
        for (int ex = blk * 32; ex < blk * 32 + 32 && ex < 255; ++ex)
            for (uint32_t m : {0u, 1u, 0x7fffffu, 0x2aaaaau, 0x400000u})
                one(s, f, from_bits32(uint32_t(ex) << 23 | m));
}
// integers of every digit count
static void integers() {
    int t = choose(5), k = choose(64);
    static const char ty[] = {'f', 'e', 'g', 'a', 0};
    note("type %c, around 2^%d", ty[t] ? ty[t] : '-', k);
    for (int p : {-1, 0, 1, 5, 17}) {
        oracle::Spec s = plain(ty[t], p);
        std::string f = oracle::text(s);
        for (int d = -40; d <= 40; ++d) {
            double v = std::ldexp(1.0, k) + d;
            one(s, f, v);
            one(s, f, std::pow(10, k % 23) + d);
            one(s, f, float(v));
        }
    }
}
// width, zero padding and alignment at every output length, across the buffer sizes
static void padding() {
    static const char ty[] = {'f', 'e', 'g', 'a', 0};
    int t = choose(5), z = choose(5), blk = choose(24);
    oracle::Spec s = plain(ty[t], -1);
    static const char al[] = {0, '<', '^', '>'};
    s.zero = z == 4;
    s.align = z < 4 ? al[z] : char(0);
    note("type %c align %d widths from %d", ty[t] ? ty[t] : '-', z, blk * 25);
    for (int w = blk * 25 + 1; w <= blk * 25 + 25; ++w) {
        s.width = w;
        std::string f = oracle::text(s);
        for (double v : {1.5, -0.1, 1e300, -1e-300, 0.0, -0.0, 123456.0}) {
            one(s, f, v);
            one(s, f, float(v == 1e300 ? 1e30 : v == -1e-300 ? -1e-30 : v));
        }
        one(s, f, double(INFINITY));
        one(s, f, double(-NAN));
    }
}
// dynamic width and precision
static void dynamic() {
    static const char* fs[] = {"{:{}.{}f}", "{0:{1}.{2}e}", "{0:0{2}.{1}g}", "{:.{}f}", "{0:.{2}f}", "{:{}f}", "{0:+{1}.{2}f}"};
    int k = choose(7);
    std::string f = fs[k], want;
    int w = choose(18) + 1, p = choose(18) + 1;
    note("%s %d %d", f.c_str(), w, p);
    for (double v : {0.0, 1.0, -2.5, 12345.6789, 1e-7, 1e22}) {
        oracle::Arg a = oracle::Arg();
        a.k = oracle::KD;
        a.d = v;
        bool ok = oracle::format3(f, a, w, p, want);
        same(f, fmt(f, v, w, p), ok, want);
        same(f, fmt(f, v, (unsigned char)w, (long long)p), ok, want);
    }
}
static void nonfinite() {
    oracle::Spec s = choose_flags();
    static const char ty[] = {0, 'e', 'E', 'f', 'F', 'g', 'G', 'a', 'A'};
    s.type = ty[choose(9)];
    s.width = choose(10);
    s.prec = choose(4) - 1;
    std::string f = oracle::text(s);
    note("%s", f.c_str());
    for (double v : {double(INFINITY), double(-INFINITY), double(NAN), double(-NAN)}) {
        one(s, f, v);
        one(s, f, float(v));
    }
}

static void setup() {
#if PART == 0 || PART == 1
    add_choice("spec-double", specs<double>, 6, false);
    add_choice("spec-float", specs<float>, 6, false);
    add_choice("nonfinite", nonfinite, 4, false);
    add_choice("padding", padding, 4, false);
    add_choice("dynamic", dynamic, 1, false);
    add_choice("integers", integers, 4, false);
    add_choice("ties", ties, 8, false);
    add_choice("borders", borders, 8, false);
#endif
#if PART == 0 || PART == 2
    add_choice("shortest-double-decimals", [] { decimals<double>(core().thorough ? 4 : 3); }, 8, false);
    add_choice("shortest-float-decimals", [] { decimals<float>(core().thorough ? 4 : 3); }, 2, false);
    add_choice("shortest-double-bits", [] { bits64(core().thorough ? 7 : 3, core().thorough ? 4 : 2); }, 8, false);
    add_choice("shortest-float-bits", [] { bits32(core().thorough && core().bound_scale >= 0); }, 8, false);
    add_choice("magnitudes", [] { magnitudes(17); }, 8, false);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
