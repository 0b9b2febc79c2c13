// Stand-in for the simulator's interface, for demonstrations: no simulated time, and faults by a function of the demo.
#pragma once
#include <cstdint>
#include <functional>
namespace dsim {
inline std::function<bool(const char*)>& faults() { static std::function<bool(const char*)> f; return f; }
inline bool fault(const char* k) { return faults() && faults()(k); }
inline bool inFiber() { return false; }
inline void sleepNs(uint64_t) {}
inline uint64_t netChoice(const char*, uint64_t) { return 0; }
inline uint64_t faultValue(const char*, uint64_t) { return 0; }
inline void probe(const char*, uint64_t = 1) {}
}
