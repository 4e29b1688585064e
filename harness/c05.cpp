#include "mc/cyclic_world.hpp"
#include "mc/large.hpp"
using namespace mc;
template<typename A, size_t n>
static void add(const char* t, int len, int dev, int tlen, int tdev, bool states = false) {
    char b[64];
    snprintf(b, sizeof b, "vcb%zu-%s", n, t);
    Bounds bd = {3, states ? 5 : 0, 4, states ? 6 : 0, 60000};
    add_world<VcbWorld<A, n>>(b, bd, 4);
    snprintf(b, sizeof b, "vcb%zu-%s-long", n, t);
    add_choice(b, [=] {
        bool th = core().thorough;
        deviations<VcbWorld<A, n>>(th ? tlen : len, (th ? tdev : dev) + (core().bound_scale < 0 ? -1 : 0));
    }, 8);
}
static void setup() {
    add_choice("vcb-large", [] {
        switch (choose(9)) {
            case 0: large_vcb<64>(); break;
            case 1: large_vcb<127>(); break;
            case 2: large_vcb<128>(); break;
            case 3: large_vcb<129>(); break;
            case 4: large_vcb<255>(); break;
            case 5: large_vcb<256>(); break;
            case 6: large_vcb<257>(); break;
            case 7: large_vcb<32768>(); break;
            default: large_vcb<65537>();
        }
    }, 4);
    add<Tracked, 1>("tracked", 6, 2, 8, 3);
    add<Tracked, 2>("tracked", 9, 2, 10, 3);
    add<Tracked, 3>("tracked", 12, 2, 12, 3, true);
    add<int, 4>("int", 14, 2, 13, 3);
    add<int, 5>("int", 16, 2, 16, 3);
    add<std::string, 2>("string", 7, 2, 8, 3);
    add<Bag, 2>("recursive", 6, 1, 7, 2);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
