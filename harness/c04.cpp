#include "mc/string_world.hpp"
using namespace mc;
static void setup() {
    Bounds b = {3, 4, 3, 5, 40000};
    add_world<StringWorld<char>>("string", b, 12);
    Bounds s = {2, 3, 3, 4, 40000};
    add_world<StringWorld<wchar_t>>("wstring", s, 4);
    add_world<StringWorld<char16_t>>("u16string", s, 4);
    add_world<StringWorld<char32_t>>("u32string", s, 4);
    add_world<StringWorld<char, efp::Vector<char, UserAlloc<char>>>>("string-allocator", s, 4);
#if __cplusplus >= 202002L
    add_world<StringWorld<char8_t>>("u8string", s, 4);
    add_choice("u8string-pairs", [] { string_pairs<char8_t>(2); }, 1);
#endif
    add_choice("string-grown", [] { string_grown<char>(core().thorough ? 40 : 18); }, 8);
    add_choice("wstring-grown", [] { string_grown<wchar_t>(core().thorough ? 24 : 8); }, 4);
    add_choice("string-pairs", [] { string_pairs<char>(core().thorough ? 4 : 3); }, 4);
    add_choice("wstring-pairs", [] { string_pairs<wchar_t>(2); }, 1);
    add_choice("u16string-pairs", [] { string_pairs<char16_t>(2); }, 1);
    add_choice("string-traits-pairs", [] { string_pairs<char, NoCase, efp::BasicString<char, NoCase>>(core().thorough ? 4 : 3); }, 4);
    add_choice("u32string-pairs", [] { string_pairs<char32_t>(2); }, 1);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
