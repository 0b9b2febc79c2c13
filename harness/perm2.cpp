#include "perm.h"
using namespace px;
PX_TYPE(i9, "signed 9-bit integers", su::Intp<true, 9>)
PX_TYPE(str, "bit strings", std::vector<bool>)
