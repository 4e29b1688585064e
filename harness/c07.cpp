// Enum: histories, and every number of alternatives
#include "mc/enum_many.hpp"
#include "mc/moveonly.hpp"
#include "mc/tree_world.hpp"

// matches with other result types and kinds of branches
static void match_kinds() {
    typedef efp::Enum<int, Small, Heap, Wide> E;
    int i = choose(4);
    note("match kinds, alternative %d", i);
    E e = i == 0 ? E(5) : i == 1 ? E(AltMk<Small>::mk(6)) : i == 2 ? E(Heap(7)) : E(AltMk<Wide>::mk(8));
    int hits = 0;
    // void result, capturing lambdas
    e.match(
        [&](int v) { MC_CHECK(v == 5 && i == 0, "int branch"); ++hits; },
        [&](const Small& s) { MC_CHECK(s.c == 6 && i == 1, "Small branch"); ++hits; },
        [&](const Heap& h) { MC_CHECK(h.p->v == 7 && i == 2, "Heap branch"); ++hits; },
        [&](const Wide& w) { MC_CHECK(w.v == 8 && i == 3, "Wide branch"); ++hits; }
    );
    MC_CHECK(hits == 1, "%d branches called", hits);
    // by-value branches, heap result
    std::string s = e.match(
        [](int v) { return std::string("int") + std::to_string(v); },
        [](Heap h) { return std::string("heap") + std::to_string(h.p->v); },
        []() { return std::string("other, a long text that does not fit inline"); }
    );
    MC_CHECK(s == (i == 0 ? "int5" : i == 2 ? "heap7" : "other, a long text that does not fit inline"), "match returned %s", s.c_str());
    Heap hh = e.match([](const Heap& h) { return h; }, []() { return Heap(99); });
    MC_CHECK(hh.p && hh.p->v == (i == 2 ? 7 : 99), "match returned a wrong object");
#if __cplusplus >= 201402L
    int g = e.match([](int v) { return v; }, [](const auto&) { return -1; });
    MC_CHECK(g == (i == 0 ? 5 : -1), "generic branch gives %d", g);
#endif
    // nested
    typedef efp::Enum<E, double> N;
    N n(e);
    int r = n.match([&](const E& q) { return q == e ? 1 : 2; }, [](double) { return 3; });
    MC_CHECK(r == 1, "nested Enum gives %d", r);
    N n2 = n;
    n2 = N(2.5);
    MC_CHECK(n2.index() == 1 && n2.get<double>() == 2.5 && n.index() == 0 && n.get<E>() == e, "nested assignment is wrong");
    n = n2;
    n2 = N(e);
    MC_CHECK(n.index() == 1 && n2.get<0>() == e, "nested assignment is wrong");
    efp::Vector<E> v;
    for (int k = 0; k < 3; ++k) {
        v.push_back(e);
        v.push_back(E(k));
    }
    for (int k = 0; k < 3; ++k)
        MC_CHECK(v[size_t(2 * k)] == e && v[size_t(2 * k + 1)].get<int>() == k, "Enums in a Vector are wrong");
}

static void setup() {
    Bounds b = {3, 5, 4, 7, 60000};
    add_world<EnumWorld<int, Tracked, Heap, Wide, Small>>("enum-mixed", b, 8);
    add_world<EnumWorld<Tracked, Small, Wide, double, Heap>>("enum-mixed2", b, 8);
    add_world<EnumWorld<Empty, Heap, std::string, Tracked, Wide>>("enum-mixed3", Bounds {3, 0, 3, 0, 0}, 8);
    add_world<EnumWorld<Heap, Bag, std::string, double, Small>>("enum-recursive", Bounds {2, 0, 3, 0, 0}, 8);
    add_world<TreeWorld>("enum-tree", Bounds {4, 6, 5, 8, 40000}, 8);
    add_world<SoleEnumWorld<efp::Enum<int, Sole, std::string>>>("enum-moveonly", Bounds {3, 5, 4, 7, 30000}, 4);
    add_world<SoleEnumWorld<efp::Enum<Sole, int>>>("enum2-moveonly", Bounds {3, 5, 4, 7, 30000}, 4);
    add_choice("match-kinds", match_kinds);
    add_many<1>();
    add_many<2, 5>();
    add_many<3>();
    add_many<4, 2>();
    add_many<5>();
    add_many<6>();
    add_many<7>();
    add_many<8, 1>();
    add_many<9>();
    add_many<15>();
    add_many<16>();
    add_many<17>();
#ifdef MC_BIG
    add_many<10>();
    add_many<11>();
    add_many<12>();
    add_many<13>();
    add_many<14>();
    add_many<18>();
    add_many<24>();
#endif
    add_many<31>();
    add_many<32>();
    add_many<33>();
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
