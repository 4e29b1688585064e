// The library in its freestanding configuration (-ffreestanding) on a toolchain whose standard headers are
// there all the same: the wrappers in mc/free include each as a hosted one.
#ifndef MC_FREESTANDING_HPP
#define MC_FREESTANDING_HPP
#define MC_FREE 1
#include <cstddef>
#endif
