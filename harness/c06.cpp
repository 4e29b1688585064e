#include "mc/cyclic_world.hpp"
#include "mc/large.hpp"
using namespace mc;
template<typename A, size_t n>
static void add(const char* t, int len, int dev, int tlen, int tdev, bool states = false) {
    char b[64];
    snprintf(b, sizeof b, "vcq%zu-%s", n, t);
    Bounds bd = {3, states ? 5 : 0, 4, states ? 6 : 0, 60000};
    add_world<VcqWorld<A, n>>(b, bd, 4);
    snprintf(b, sizeof b, "vcq%zu-%s-long", n, t);
    add_choice(b, [=] {
        bool th = core().thorough;
        deviations<VcqWorld<A, n>>(th ? tlen : len, (th ? tdev : dev) + (core().bound_scale < 0 ? -1 : 0));
    }, 8);
}
static void setup() {
    add_choice("vcq-large", [] {
        switch (choose(9)) {
            case 0: large_vcq<64>(); break;
            case 1: large_vcq<127>(); break;
            case 2: large_vcq<128>(); break;
            case 3: large_vcq<129>(); break;
            case 4: large_vcq<255>(); break;
            case 5: large_vcq<256>(); break;
            case 6: large_vcq<257>(); break;
            case 7: large_vcq<32768>(); break;
            default: large_vcq<65537>();
        }
    }, 4);
    add<Tracked, 1>("tracked", 6, 2, 7, 3);
    add<Tracked, 2>("tracked", 7, 2, 8, 3);
    add<Tracked, 3>("tracked", 7, 2, 8, 3, true);
    add<int, 4>("int", 8, 1, 10, 2);
    add<int, 5>("int", 10, 1, 12, 2);
    add<std::string, 2>("string", 6, 2, 7, 2);
    add<Bag, 2>("recursive", 5, 1, 6, 2);
    // pure push / pop histories, long enough to wrap several times
    add_choice("vcq3-pushpop", [] { deviations<VcqWorld<Tracked, 3>>(core().thorough ? 20 : 14, 0); }, 4);
    add_choice("vcq4-pushpop", [] { deviations<VcqWorld<int, 4>>(core().thorough ? 22 : 15, 0); }, 4);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
