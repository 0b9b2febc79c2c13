#include "game.h"
namespace hx {
SchedPtr* robbedSlot();
template <SchedPtr* P>
struct Rob {
  friend SchedPtr* robbedSlot() { return P; }
};
template struct Rob<&sch::SchedulerKeeper<0>::scheduler_>;
SchedPtr* keeperSlot() { return robbedSlot(); }
} // namespace hx
