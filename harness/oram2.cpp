#include "oram.h"
using namespace ox;
OX_TYPE(i9, "signed 9-bit integers", su::Intp<true, 9>)
using namespace ox;
OX_TYPE(i64, "signed 64-bit integers", su::Intp<true, 64>)
using namespace ox;
OX_TYPE(u13, "13-bit integers", su::Intp<false, 13>)
