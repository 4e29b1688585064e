#include "mc/list_world.hpp"
#include "mc/large.hpp"
#include "mc/moveonly.hpp"
#include "mc/tree_world.hpp"
using namespace mc;
static void setup() {
    Bounds b = {3, 5, 4, 7, 60000};
    add_world<ListWorld<efp::Vector<Tracked>>>("vector-tracked", b, 8);
    add_world<ListWorld<efp::Vector<int>>>("vector-int", b, 8);
    Bounds c = {3, 4, 3, 5, 60000};
    add_world<ListWorld<efp::Vector<std::string>>>("vector-string", c, 8);
    add_world<TreeWorld>("vector-tree", Bounds {4, 6, 5, 8, 40000}, 8);
    add_world<SoleListWorld<efp::Vector<Sole>>>("vector-moveonly", Bounds {3, 4, 4, 6, 30000}, 4);
    add_world<ListWorld<efp::Vector<Bag>>>("vector-recursive", Bounds {2, 3, 3, 4, 30000}, 4);
    add_world<ListWorld<efp::Vector<Tracked, UserAlloc<Tracked>>>>("vector-allocator", c, 8);
    add_choice("vector-grown-allocator", [] { grown<ListWorld<efp::Vector<Tracked, UserAlloc<Tracked>>>>(6, 40); }, 8);
    add_choice("vector-grown-tracked", [] { grown<ListWorld<efp::Vector<Tracked>>>(20, 70); }, 8);
    add_choice("vector-large", [] { size_t n = choose_large(); large_list<efp::Vector<int>>(0, n, core().thorough); }, 8);
    add_choice("vector-grown-int", [] { grown<ListWorld<efp::Vector<int>>>(36, 140); }, 8);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
