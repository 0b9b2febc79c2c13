#include "cloudsim.h"
#include "dsim.h"

namespace cloudsim {
static Store* g = nullptr;
Store& store() {
  if (!g) g = new Store;
  return *g;
}
void reset() {
  delete g;
  g = new Store;
}
void log(const std::string& l) {
  auto& h = store().history;
  if (h.size() < 4000) h.push_back(l);
}
std::string request(const char* what, const std::string& detail, bool mayFail) {
  auto& s = store();
  s.requests++;
  if (dsim::inFiber()) {
    uint64_t d = s.minNs;
    if (s.maxNs > s.minNs) d += dsim::netChoice("cloud_delay", 16) * ((s.maxNs - s.minNs) / 15);
    dsim::sleepNs(d);
  }
  std::string kind = std::string("cloud_") + what;
  // one literal per kind: fault() keys must have static lifetime
  static const char* kinds[] = {"cloud_create", "cloud_part", "cloud_complete", "cloud_abort",
                                "cloud_get", "cloud_head", "cloud_put"};
  for (auto k : kinds)
    if (kind == k && mayFail && dsim::fault(k)) {
      log(std::string(what) + " " + detail + " -> error");
      return "simulated service error (503 SlowDown) in " + std::string(what);
    }
  return "";
}
} // namespace cloudsim
