#include "front_int.h"
namespace fx {
FX_ZOO(false, 32, false, 9)
FX_ZOO(true, 13, false, 5)
}
