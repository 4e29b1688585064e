#include "mc/listfn.hpp"
using namespace mc;
#ifndef PART
    #define PART 0
#endif
template<typename K>
static void add_u(const char* el, int alpha = 3) {
    add_choice(std::string("unary-") + K::name() + "-" + std::to_string(int(K::hi)) + "-" + el, [alpha] { unary<K>(alpha); }, 2);
}
template<typename K, typename L>
static void add_b(const char* el) {
    add_choice(std::string("binary-") + K::name() + std::to_string(int(K::hi)) + "-" + L::name() + std::to_string(int(L::hi)) + "-" + el, [] { binary<K, L>(2); }, 1);
}
template<typename K>
static void add_bb() {
    add_b<K, KArray<int, 2>>("int");
    add_b<K, KArrVec<int, 3>>("int");
    add_b<K, KVector<int>>("int");
    add_b<KArray<int, 3>, K>("int2");
    add_b<KArrVec<int, 2>, K>("int2");
    add_b<KVector<int>, K>("int2");
}
template<typename O, typename I, typename D>
static void add_n(const char* x) {
    add_choice(std::string("nested-") + O::name() + "-" + I::name() + "-" + D::name() + x, [] { nested<O, I, D>(); }, 1);
}

static void setup() {
#if PART == 0 || PART == 1
    add_u<KArray<int, 1>>("int");
    add_u<KArray<int, 4>>("int");
    add_u<KArrVec<int, 4>>("int");
    add_u<KVector<int, 5>>("int");
    add_u<KVcb<int, 3>>("int");
    add_u<KVcq<int, 3>>("int");
    add_u<KArrayView<int, 3>>("int");
    add_u<KArrVecView<int, 4>>("int");
    add_u<KVectorView<int>>("int");
    add_u<KStdArray<int, 3>>("int");
    add_u<KStdVector<int>>("int");
    add_u<KString>("char");
    add_u<KStdString>("char");
    add_u<KStringView>("char");
    add_u<KVector<int, 40>>("int-long", 0);
    add_u<KArrVec<int, 33>>("int-long", 0);
    add_u<KUserFixed<int, 3>>("int");
    add_u<KUserBounded<int, 3>>("int");
    add_u<KUserDynamic<int>>("int");
    add_choice("generated", generated);
#endif
#if PART == 0 || PART == 2
    add_u<KArray<Tracked, 3>>("tracked");
    add_u<KArrVec<Tracked, 3>>("tracked");
    add_u<KVector<Tracked>>("tracked");
    add_u<KVcb<Tracked, 3>>("tracked");
    add_u<KVcq<Tracked, 3>>("tracked");
    add_u<KArrVecView<Tracked, 3>>("tracked");
    add_u<KVectorView<Tracked>>("tracked");
    add_u<KStdVector<Tracked>>("tracked");
    add_u<KVector<std::string, 3>>("string");
    add_u<KArrVec<std::string, 2>>("string");
    add_u<KArray<std::string, 2>>("string");
    add_u<KArray<Bag, 2>>("recursive");
    add_u<KArrVec<Bag, 2>>("recursive");
    add_u<KVector<Bag, 3>>("recursive");
    add_u<KStdArray<std::string, 2>>("string");
    add_u<KUserBounded<Tracked, 2>>("tracked");
    add_u<KUserDynamic<std::string, 2>>("string");
    add_b<KArray<Tracked, 2>, KVector<Tracked>>("tracked");
    add_b<KArrVec<Tracked, 2>, KArray<Tracked, 3>>("tracked");
    add_b<KVcq<Tracked, 2>, KArrVec<Tracked, 3>>("tracked");
    add_b<KVector<std::string>, KArrVec<std::string, 2>>("string");
#endif
#if PART == 0 || PART == 3
    add_bb<KArray<int, 1>>();
    add_bb<KArrVec<int, 1>>();
    add_bb<KVcb<int, 2>>();
    add_bb<KVcq<int, 2>>();
    add_bb<KVector<int, 2>>();
#endif
#if PART == 0 || PART == 4
    add_bb<KArrayView<int, 2>>();
    add_bb<KArrVecView<int, 2>>();
    add_bb<KVectorView<int>>();
    add_bb<KStdArray<int, 2>>();
    add_bb<KStdVector<int>>();
#endif
#if PART == 0 || PART == 5
    add_b<KUserFixed<int, 2>, KArray<int, 3>>("int");
    add_b<KUserBounded<int, 2>, KUserDynamic<int, 2>>("int");
    add_b<KVector<int, 2>, KUserFixed<int, 2>>("int");
    add_b<KUserDynamic<int, 2>, KArrVec<int, 2>>("int");
    add_b<KString, KStdString>("char");
    add_b<KStdString, KString>("char");
    add_b<KStringView, KString>("char");
    add_b<KStringView, KArrVec<char, 3>>("char");
    add_b<KArray<char, 2>, KString>("char");
    add_choice("ternary-array-array-array", ternary<KArray<int, 2>, KArray<int, 1>, KArray<int, 3>>);
    add_choice("ternary-arrvec-vector-array", ternary<KArrVec<int, 2>, KVector<int>, KArray<int, 2>>);
    add_choice("ternary-vcq-arrvec-vcb", ternary<KVcq<int, 2>, KArrVec<int, 3>, KVcb<int, 2>>);
    add_choice("ternary-stdvec-view-vector", ternary<KStdVector<int>, KVectorView<int>, KVector<int>>);
    add_choice("ternary-tracked", ternary<KVector<Tracked>, KArrVec<Tracked, 2>, KArray<Tracked, 2>>);
    add_choice("ternary-user", ternary<KUserBounded<int, 2>, KUserFixed<int, 2>, KUserDynamic<int, 2>>);
    add_n<OArray<KUserBounded<int, 2>, 2>, KUserBounded<int, 2>, KUserFixed<int, 1>>("");
    add_n<OVector<KUserDynamic<int, 2>>, KUserDynamic<int, 2>, KUserBounded<int, 2>>("");
    add_n<OArray<KArray<int, 2>, 3>, KArray<int, 2>, KArray<int, 1>>("");
    add_n<OArray<KArray<int, 2>, 1>, KArray<int, 2>, KArray<int, 2>>("-1");
    add_n<OArray<KArrVec<int, 2>, 3>, KArrVec<int, 2>, KArray<int, 2>>("");
    add_n<OArrVec<KArray<int, 2>, 3>, KArray<int, 2>, KArray<int, 1>>("");
    add_n<OArrVec<KArrVec<int, 3>, 3>, KArrVec<int, 3>, KArrVec<int, 2>>("");
    add_n<OArrVec<KArrVec<int, 2>, 2>, KArrVec<int, 2>, KVector<int>>("");
    add_n<OVector<KVector<int, 2>>, KVector<int, 2>, KVector<int>>("");
    add_n<OVector<KArray<int, 2>>, KArray<int, 2>, KArray<int, 1>>("");
    add_n<OVector<KString>, KString, KString>("");
    add_n<OStdVector<KStdVector<int, 2>>, KStdVector<int, 2>, KStdVector<int>>("");
    add_n<OStdArray<KStdArray<int, 2>, 2>, KStdArray<int, 2>, KStdArray<int, 2>>("");
    add_n<OArrVec<KVector<Tracked, 2>, 2>, KVector<Tracked, 2>, KArrVec<Tracked, 2>>("-tracked");
    add_n<OVector<KArrVec<Tracked, 2>>, KArrVec<Tracked, 2>, KVector<Tracked>>("-tracked");
    add_n<OArray<KArrVec<Tracked, 2>, 2>, KArrVec<Tracked, 2>, KArrVec<Tracked, 1>>("-tracked");
    add_n<OVector<KString>, KString, KStringView>("-view");
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
