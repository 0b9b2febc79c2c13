// Plain build: no happens-before tracking.
#include "kernel.h"
namespace dsim {
bool instrumented() { return false; }
namespace k {
void hbAcquire(const void*) {}
void hbRelease(const void*) {}
void hbThreadStart(Fiber*, Fiber*) {}
void hbThreadEnd(Fiber*) {}
void hbJoin(Fiber*) {}
void hbReset() {}
} // namespace k
} // namespace dsim
