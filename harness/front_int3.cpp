#include "front_int.h"
namespace fx {
FX_ZOO(true, 2, false, 1)
FX_ZOO(false, 1, false, 1)
FX_ZOO(false, 64, false, 32)
FX_ZOO(true, 8, true, 3)
}
