#include "mc/array_world.hpp"
#include "mc/moveonly.hpp"
#include "mc/large.hpp"
using namespace mc;

// default constructed Arrays of class type hold default values
static void array_default() {
    note("default Array");
    int k = choose(3);
    if (k == 0) {
        Cell<efp::Array<Tracked, 3>> a;
        new (a.blank()) efp::Array<Tracked, 3>();
        for (size_t i = 0; i < 3; ++i)
            MC_CHECK(val((*a)[i]) == 0, "default Array element is %d", val((*a)[i]));
    } else if (k == 1) {
        Cell<efp::Array<std::string, 2>> a;
        new (a.blank()) efp::Array<std::string, 2>();
        MC_CHECK((*a)[0].empty() && (*a)[1].empty(), "default Array of strings not empty");
    } else {
        Cell<efp::Array<efp::Vector<Tracked>, 2>> a;
        new (a.blank()) efp::Array<efp::Vector<Tracked>, 2>();
        (*a)[0].push_back(Tracked(1));
        efp::Array<efp::Vector<Tracked>, 2> b = *a;
        b[0].push_back(Tracked(2));
        MC_CHECK((*a)[0].size() == 1 && b[0].size() == 2 && b[1].empty(), "nested Array is not copied by value");
    }
}

// conversions between capacities and kinds, for every length
template<typename A, size_t n, size_t m>
static void convert() {
    int len = choose(int(n) + 1);
    note("ArrVec<%zu> of %d elements", n, len);
    efp::ArrVec<A, n> x;
    for (int i = 0; i < len; ++i)
        x.push_back(mk<A>(i + 1));
    {
        Cell<efp::ArrVec<A, m>> y;
        new (y.blank()) efp::ArrVec<A, m>(x);
        MC_CHECK(y->size() == size_t(len), "converted ArrVec has size %zu, expected %d", y->size(), len);
        for (int i = 0; i < len; ++i)
            MC_CHECK(val((*y)[size_t(i)]) == i + 1, "converted ArrVec differs at %d", i);
        while (y->size() < m)
            y->push_back(mk<A>(40));
        bool t = false;
        try {
            y->push_back(mk<A>(41));
        } catch (const std::exception&) {
            t = true;
        }
        MC_CHECK(t, "full ArrVec accepted an element");
    }
    {
        Cell<efp::Vector<A>> y;
        new (y.blank()) efp::Vector<A>(x);
        MC_CHECK(y->size() == size_t(len), "Vector made from an ArrVec has size %zu, expected %d", y->size(), len);
        for (int i = 0; i < len; ++i)
            MC_CHECK(val((*y)[size_t(i)]) == i + 1, "Vector made from an ArrVec differs at %d", i);
        y->push_back(mk<A>(40));
        MC_CHECK(y->size() == size_t(len) + 1 && val((*y)[size_t(len)]) == 40, "Vector made from an ArrVec cannot grow");
    }
    MC_CHECK(x.size() == size_t(len), "source changed");
    for (int i = 0; i < len; ++i)
        MC_CHECK(val(x[size_t(i)]) == i + 1, "source changed at %d", i);
}

template<typename A>
static void ctors() {
    // every list length against every capacity; sized construction
    int len = choose(5);
    note("list of %d", len);
    std::vector<std::function<void(void*)>> mkers;
    auto chk = [&](size_t cap, size_t got, bool threw) {
        if (size_t(len) > cap)
            MC_CHECK(threw, "a list of %d was accepted by an ArrVec of capacity %zu", len, cap);
        else
            MC_CHECK(!threw && got == size_t(len), "a list of %d in an ArrVec of capacity %zu gives size %zu (threw %d)", len, cap, got, int(threw));
    };
    auto il = [&](size_t cap, std::function<size_t(std::initializer_list<A>)> f) {
        bool threw = false;
        size_t got = 999;
        try {
            switch (len) {
                case 0: got = f({}); break;
                case 1: got = f({mk<A>(1)}); break;
                case 2: got = f({mk<A>(1), mk<A>(2)}); break;
                case 3: got = f({mk<A>(1), mk<A>(2), mk<A>(3)}); break;
                default: got = f({mk<A>(1), mk<A>(2), mk<A>(3), mk<A>(4)}); break;
            }
        } catch (const std::exception&) {
            threw = true;
        }
        chk(cap, got, threw);
    };
    auto vals = [](A* p, size_t k) {
        for (size_t i = 0; i < k; ++i)
            MC_CHECK(val(p[i]) == int(i) + 1, "list element %zu is %d", i, val(p[i]));
        return k;
    };
    il(1, [&](std::initializer_list<A> l) { efp::ArrVec<A, 1> v(l); return vals(v.data(), v.size()); });
    il(2, [&](std::initializer_list<A> l) { efp::ArrVec<A, 2> v(l); return vals(v.data(), v.size()); });
    il(3, [&](std::initializer_list<A> l) { efp::ArrVec<A, 3> v(l); return vals(v.data(), v.size()); });
    il(4, [&](std::initializer_list<A> l) { efp::ArrVec<A, 4> v(l); return vals(v.data(), v.size()); });
}

// large capacities
template<size_t cap>
static void large_cap() {
    size_t n = cap - size_t(choose(3));
    large_list<efp::ArrVec<int, cap>>(cap, n, core().thorough);
}
template<size_t n>
static void large_array() {
    note("Array of %zu", n);
    typedef efp::Array<int, n> V;
    std::unique_ptr<V> a(new V());
    std::vector<int> m;
    for (size_t i = 0; i < n; ++i) {
        (*a)[i] = large_value(i);
        m.push_back(large_value(i));
    }
    same_large(*a, m, "a");
    std::unique_ptr<V> b(new V(*a)), c(new V());
    *c = *b;
    same_large(*b, m, "copy");
    same_large(*c, m, "assigned");
    for (size_t i = 0; i < n; i += n - 1) {
        MC_CHECK(*a == *c, "equal Arrays differ");
        (*c)[i] = 1;
        MC_CHECK(!(*a == *c), "Arrays that differ at %zu are equal", i);
        *c = efp::move(*b);
        *b = *a;
    }
    same_large(*c, m, "moved");
    efp::Vector<int> v(*a);
    same_large(v, m, "as a Vector");
    rejected_large("resize of an Array", [&] { a->resize(n - 1); });
    rejected_large("resize of an Array", [&] { a->resize(n + 256); });
    outcome(n);
}
template<size_t from, size_t to>
static void large_convert() {
    note("ArrVec of %zu to one of %zu", from, to);
    std::unique_ptr<efp::ArrVec<int, from>> a(new efp::ArrVec<int, from>());
    std::vector<int> m;
    for (size_t i = 0; i < from; ++i) {
        a->push_back(large_value(i));
        m.push_back(large_value(i));
    }
    std::unique_ptr<efp::ArrVec<int, to>> b(new efp::ArrVec<int, to>(*a));
    same_large(*b, m, "converted");
    efp::Vector<int> v(*a);
    same_large(v, m, "as a Vector");
    outcome(from);
}

static void setup() {
    Bounds b = {3, 5, 4, 7, 40000};
    Bounds s = {3, 4, 3, 5, 40000};
    add_world<ListWorld<efp::ArrVec<Tracked, 1>>>("arrvec1-tracked", s, 4);
    add_world<ListWorld<efp::ArrVec<Tracked, 2>>>("arrvec2-tracked", s, 4);
    add_world<ListWorld<efp::ArrVec<Tracked, 3>>>("arrvec3-tracked", b, 8);
    add_world<ListWorld<efp::ArrVec<int, 4>>>("arrvec4-int", b, 8);
    add_world<ListWorld<efp::ArrVec<std::string, 2>>>("arrvec2-string", s, 4);
    add_world<SoleListWorld<efp::ArrVec<Sole, 3>>>("arrvec3-moveonly", Bounds {3, 4, 4, 6, 30000}, 4);
    add_world<ListWorld<efp::ArrVec<Bag, 3>>>("arrvec3-recursive", Bounds {2, 3, 3, 4, 30000}, 4);
    add_choice("arrvec20-grown-tracked", [] { grown<ListWorld<efp::ArrVec<Tracked, 20>>>(20, 20); }, 8);
    add_choice("arrvec33-grown-int", [] { grown<ListWorld<efp::ArrVec<int, 33>>>(33, 33); }, 8);
    Bounds ab = {3, 0, 4, 0, 0};
    add_world<ArrayWorld<Tracked, 1>>("array1-tracked", ab, 4);
    add_world<ArrayWorld<Tracked, 3>>("array3-tracked", ab, 4);
    add_world<ArrayWorld<int, 2>>("array2-int", ab, 4);
    add_world<ArrayWorld<std::string, 2>>("array2-string", ab, 4);
    add_world<ArrayWorld<Bag, 2>>("array2-recursive", ab, 4);
    add_choice("arrvec128-large", large_cap<128>, 2);
    add_choice("arrvec256-large", large_cap<256>, 2);
    add_choice("arrvec258-large", large_cap<258>, 2);
    add_choice("arrvec4097-large", large_cap<4097>, 2);
    add_choice("arrvec65537-large", large_cap<65537>, 4);
    add_choice("array-large", [] {
        switch (choose(6)) {
            case 0: large_array<128>(); break;
            case 1: large_array<255>(); break;
            case 2: large_array<256>(); break;
            case 3: large_array<257>(); break;
            case 4: large_array<65536>(); break;
            default: large_array<65537>();
        }
    });
    add_choice("convert-large", [] {
        switch (choose(3)) {
            case 0: large_convert<255, 300>(); break;
            case 1: large_convert<257, 257>(); break;
            default: large_convert<65537, 70000>();
        }
    });
    add_choice("array-default", array_default);
    add_choice("convert-2-to-3", convert<Tracked, 2, 3>);
    add_choice("convert-3-to-3", convert<Tracked, 3, 3>);
    add_choice("convert-1-to-5", convert<Tracked, 1, 5>);
    add_choice("convert-4-to-9-int", convert<int, 4, 9>);
    add_choice("convert-2-to-4-string", convert<std::string, 2, 4>);
    add_choice("convert-2-to-4-recursive", convert<Bag, 2, 4>);
    add_choice("list-lengths", ctors<Tracked>);
    add_choice("list-lengths-int", ctors<int>);
    add_choice("list-lengths-recursive", ctors<Bag>);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
