#ifndef PART
    #define PART 0
#endif
#include "mc/views.hpp"
using namespace mc;
template<typename K>
static void add(const char* el, int alpha = 3, int maxlen = 4) {
    add_choice(std::string("views-") + K::name() + std::to_string(int(K::hi)) + "-" + el, [=] { views<K>(alpha, core().thorough ? maxlen + (alpha ? 1 : 0) : maxlen); }, 2);
}
static void setup() {
#if PART == 0 || PART == 1
    add<KArray<int, 1>>("int");
    add<KArray<int, 3>>("int");
    add<KArray<int, 5>>("int", 2);
    add<KArrVec<int, 1>>("int");
    add<KArrVec<int, 4>>("int");
#endif
#if PART == 0 || PART == 2
    add<KVector<int, 6>>("int");
    add<KVcb<int, 1>>("int");
    add<KVcb<int, 3>>("int");
    add<KVcq<int, 3>>("int");
    add<KStdArray<int, 3>>("int");
    add<KStdVector<int, 5>>("int");
#endif
#if PART == 0 || PART == 3
    add<KArrayView<int, 3>>("int");
    add<KArrVecView<int, 3>>("int");
    add<KVectorView<int, 5>>("int");
    add<KUserFixed<int, 3>>("int");
    add<KUserBounded<int, 3>>("int");
    add<KUserDynamic<int, 3>>("int");
    add<KString>("char");
    add<KStdString>("char");
    add<KStringView>("char");
#endif
#if PART == 0 || PART == 4
    add<KArray<Tracked, 3>>("tracked", 2);
    add<KArrVec<Tracked, 3>>("tracked", 2);
    add<KVector<Tracked>>("tracked", 2);
    add<KVcb<Tracked, 2>>("tracked", 2);
    add<KVcq<Tracked, 3>>("tracked", 2);
    add<KVector<std::string>>("string", 2, 3);
    add_choice("equality-Array", view_equality<KArray<int, 4>>);
    add_choice("equality-ArrVec", view_equality<KArrVec<int, 4>>);
    add_choice("equality-Vector", view_equality<KVector<int>>);
    add_choice("equality-Vcb", view_equality<KVcb<int, 4>>);
    add_choice("equality-Vcq", view_equality<KVcq<int, 4>>);
    add_choice("equality-user", view_equality<KUserBounded<int, 4>>);
    add_choice("equality-std-vector", view_equality<KStdVector<int>>);
    add_choice("conversions", view_conversions);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
