#include "mc/enum_many.hpp"
static void setup_big() {
#if MC_BIGN == 1
    add_many<63>(2);
    add_many<64>(2);
    add_many<65>(2);
#elif MC_BIGN == 2
    add_many<127>(4);
    add_many<128>(4);
#elif MC_BIGN == 3
    add_many<129>(4);
    add_many<200>(8);
#elif MC_BIGN == 4
    add_many<256>(8);
#elif MC_BIGN == 5
    add_many<255>(8);
#elif MC_BIGN == 6
    add_many<254>(8);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup_big);
}
