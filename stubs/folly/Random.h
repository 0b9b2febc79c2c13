#pragma once
#include <cstdint>
#include <random>
namespace folly {
struct Random {
  static uint32_t rand32() { std::random_device d; return d(); }
  static uint64_t rand64() { std::random_device d; return ((uint64_t)d() << 32) | d(); }
  static uint32_t rand32(uint32_t max) { return max ? rand32() % max : 0; }
  static uint32_t rand32(uint32_t a, uint32_t b) { return a + rand32(b - a); }
  static uint64_t secureRand64() { return rand64(); }
  static uint32_t secureRand32() { return rand32(); }
  static uint32_t secureRand32(uint32_t max) { return rand32(max); }
};
} // namespace folly
