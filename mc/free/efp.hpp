// efp.hpp of the freestanding configuration: the headers that support it.
#ifndef MC_FREE_EFP_HPP
#define MC_FREE_EFP_HPP
#include "efp/cpp_core.hpp"
#include "efp/meta.hpp"
#include "efp/trait.hpp"
#include "efp/sequence.hpp"
#include "efp/enum.hpp"
#include "efp/maybe.hpp"
#include "efp/prelude.hpp"
#include "efp/cyclic.hpp"
#include "efp/numeric.hpp"
#include "efp/sort.hpp"
#include "efp/string.hpp"
#include "efp/concurrency.hpp"
#include "efp/c_utility.hpp"
#endif
