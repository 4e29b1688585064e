// compiled with g++ -std=c++20 only
#include "mc/fmt_oracle.h"
#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <format>
#include <vector>
namespace oracle {
template<typename F>
static bool guarded(std::string& out, F f) {
    try {
        out = f();
        return true;
    } catch (const std::format_error&) {
        return false;
    }
}
template<typename F>
static bool with(const Arg& a, F f) {
    switch (a.k) {
        case KI: return f(int(a.i));
        case KL: return f(long(a.i));
        case KLL: return f((long long)(a.i));
        case KU: return f(unsigned(a.u));
        case KUL: return f((unsigned long)(a.u));
        case KULL: return f((unsigned long long)(a.u));
        case KB: return f(bool(a.i));
        case KC: return f(char(a.i));
        case KF: return f(a.f);
        case KD: return f(a.d);
        case KP: return f(a.p);
        default: return f(a.s);
    }
}
bool format1(const std::string& f, const Arg& a, std::string& out) {
    if (a.k == KN)
        return guarded(out, [&] { return std::vformat(f, std::make_format_args()); });
    return with(a, [&](const auto& v) { return guarded(out, [&] { return std::vformat(f, std::make_format_args(v)); }); });
}
bool format3(const std::string& f, const Arg& a, int x, int y, std::string& out) {
    return with(a, [&](const auto& v) { return guarded(out, [&] { return std::vformat(f, std::make_format_args(v, x, y)); }); });
}
bool mixed(const std::string& f, int a, const std::string& b, double c, char d, std::string& out) {
    return guarded(out, [&] { return std::vformat(f, std::make_format_args(a, b, c, d)); });
}
std::string text(const Spec& s) {
    std::string r;
    if (s.align) {
        r += s.fill;
        r += s.align;
    }
    if (s.sign)
        r += s.sign;
    if (s.alt)
        r += '#';
    if (s.zero)
        r += '0';
    if (s.width)
        r += std::to_string(s.width);
    if (s.prec >= 0)
        r += "." + std::to_string(s.prec);
    if (s.type)
        r += s.type;
    return r.empty() ? "{}" : "{:" + r + "}";
}
static std::string pf(const char* f, int p, double v) {
    std::vector<char> b(1600 + (p > 0 ? size_t(p) : 0));
    int n = p >= 0 ? snprintf(b.data(), b.size(), f, p, v) : snprintf(b.data(), b.size(), f, v);
    return std::string(b.data(), size_t(n));
}
std::string of_float(const Spec& s, double v, bool single) {
    bool neg = std::signbit(v), upper = s.type == 'A' || s.type == 'E' || s.type == 'F' || s.type == 'G';
    double m = std::fabs(v);
    std::string pre, body;
    bool finite = std::isfinite(v);
    if (!finite)
        body = std::isnan(v) ? (upper ? "NAN" : "nan") : (upper ? "INF" : "inf");
    else if (s.type == 'a' || s.type == 'A') {
        body = pf(s.prec >= 0 ? (s.alt ? "%#.*a" : "%.*a") : (s.alt ? "%#a" : "%a"), s.prec, m);
        body = body.substr(2);
        pre = "0x";
        if (upper) {
            for (char& c : body)
                c = char(toupper(c));
            pre = "0X";
        }
    } else if (s.type == 0 && s.prec < 0) {
        // shortest digits; scientific below 1e-4 and from 1e16 on
        char b[64];
        auto r = single ? std::to_chars(b, b + 64, float(m), std::chars_format::scientific) : std::to_chars(b, b + 64, m, std::chars_format::scientific);
        std::string t(b, r.ptr);
        size_t e = t.find('e');
        int x = atoi(t.c_str() + e + 1);
        std::string dig;
        for (size_t i = 0; i < e; ++i)
            if (t[i] != '.')
                dig += t[i];
        if (m == 0) {
            dig = "0";
            x = 0;
        }
        int lim = 16;
        if (x < -4 || x >= lim) {
            body = dig.substr(0, 1);
            if (dig.size() > 1 || s.alt)
                body += "." + dig.substr(1);
            char eb[16];
            snprintf(eb, sizeof eb, "e%c%02d", x < 0 ? '-' : '+', x < 0 ? -x : x);
            body += eb;
        } else if (x < 0) {
            body = "0." + std::string(size_t(-x - 1), '0') + dig;
        } else if (int(dig.size()) <= x + 1) {
            body = dig + std::string(size_t(x + 1) - dig.size(), '0');
            if (s.alt)
                body += ".";
        } else
            body = dig.substr(0, size_t(x + 1)) + "." + dig.substr(size_t(x + 1));
    } else {
        char f[8];
        snprintf(f, sizeof f, "%%%s.*%c", s.alt ? "#" : "", s.type ? s.type : 'g');
        body = pf(f, s.prec < 0 ? 6 : s.prec, m);
    }
    std::string sg = neg ? "-" : s.sign == '+' ? "+" : s.sign == ' ' ? " " : "";
    std::string all = sg + pre + body;
    int w = int(all.size());
    if (w >= s.width)
        return all;
    size_t padn = size_t(s.width - w);
    if (s.zero && !s.align && finite)
        return sg + pre + std::string(padn, '0') + body;
    size_t left = s.align == '<' ? 0 : s.align == '^' ? padn / 2 : padn;
    std::string r;
    for (size_t i = 0; i < left; ++i)
        r += s.fill.empty() ? " " : s.fill;
    r += all;
    for (size_t i = left; i < padn; ++i)
        r += s.fill.empty() ? " " : s.fill;
    return r;
}
}  // namespace oracle
