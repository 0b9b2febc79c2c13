#include "perm.h"
using namespace px;
PX_TYPE(pi, "pairs of integers", std::pair<su::Intp<true, 64>, uint32_t>)
PX_TYPE(i13, "13-bit integers", su::Intp<false, 13>)
