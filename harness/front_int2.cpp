#include "front_int.h"
namespace fx {
FX_ZOO(true, 64, true, 33)
FX_ZOO(false, 7, true, 1)
}
