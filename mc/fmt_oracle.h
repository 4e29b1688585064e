// Reference formatter: libstdc++'s std::format (an independent implementation), with printf and to_chars
// where the library documents a different rendering (default notation of floats, hexadecimal floats).
#ifndef MC_FMT_ORACLE_H
#define MC_FMT_ORACLE_H
#include <string>
namespace oracle {
enum Kind { KI, KL, KLL, KU, KUL, KULL, KB, KC, KF, KD, KP, KS, KN };
struct Arg {
    Kind k;
    long long i;
    unsigned long long u;
    double d;
    float f;
    const void* p;
    std::string s;
};
// false: the format string is invalid for these arguments
bool format1(const std::string& f, const Arg& a, std::string& out);
bool format3(const std::string& f, const Arg& a, int x, int y, std::string& out);
bool mixed(const std::string& f, int a, const std::string& b, double c, char d, std::string& out);
// floats: a specification taken apart
struct Spec {
    std::string fill;
    char align;  // 0 < > ^
    char sign;   // 0 + - ' '
    bool alt, zero;
    int width, prec;  // 0 / -1: none
    char type;        // 0 none
};
std::string text(const Spec& s);
std::string of_float(const Spec& s, double v, bool single);
}  // namespace oracle
#endif
