// Stub of the emp-toolkit surface fbpcf uses (the real library is not available here).
#pragma once
#include <emmintrin.h>
#include <immintrin.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace emp {
using block = __m128i;
constexpr int XOR = -1, PUBLIC = 0, ALICE = 1, BOB = 2;
class Group {
 public:
  unsigned char* scratch = nullptr;
  size_t scratch_size = 0;
  void resize_scratch(size_t n) {
    if (n > scratch_size) {
      delete[] scratch;
      scratch = new unsigned char[n];
      scratch_size = n;
    }
  }
  ~Group() { delete[] scratch; }
};
class Point {
 public:
  Group* group = nullptr;
  std::string v;
  size_t size() { return v.size(); }
  void to_bin(unsigned char* b, size_t n) { memcpy(b, v.data(), n); }
  void from_bin(Group* g, const unsigned char* b, size_t n) {
    group = g;
    v.assign((const char*)b, n);
  }
};
// CRTP base class of channels, as in emp-tool/io/io_channel.h
template <class T>
class IOChannel {
 public:
  uint64_t counter = 0;
  void send_data(const void* data, int64_t nbyte) {
    counter += nbyte;
    derived().send_data_internal(data, nbyte);
  }
  void recv_data(void* data, int64_t nbyte) { derived().recv_data_internal(data, nbyte); }
  void send_block(const block* b, int64_t n) { send_data(b, n * sizeof(block)); }
  void recv_block(block* b, int64_t n) { recv_data(b, n * sizeof(block)); }

 private:
  T& derived() { return *static_cast<T*>(this); }
};
} // namespace emp
