#pragma once
#include "emp-tool/emp-tool.h"
void dsim_emp_random(void* p, size_t n);

namespace emp {
// Correlated OT with the interface of emp-ot's IKNP. Correct but not secure: the receiver
// tells its choice bits to the sender. It exercises fbpcf's adapters and wrappers only.
template <typename IO>
class IKNP {
 public:
  explicit IKNP(IO* io) : io_(io) {}
  void setup_send(const bool* in) {
    uint64_t w[2] = {0, 0};
    for (int i = 0; i < 128; i++)
      if (in[i]) w[i / 64] |= 1ull << (i % 64);
    memcpy(&delta_, w, 16);
    char c = 1;
    io_->send_data(&c, 1);
    io_->flush();
  }
  void setup_recv() {
    char c = 0;
    io_->recv_data(&c, 1);
  }
  void send_cot(block* data, int64_t n) {
    std::vector<unsigned char> b(n);
    io_->recv_data(b.data(), n);
    std::vector<block> out(n);
    for (int64_t i = 0; i < n; i++) {
      dsim_emp_random(&data[i], 16);
      out[i] = b[i] ? _mm_xor_si128(data[i], delta_) : data[i];
    }
    io_->send_block(out.data(), n);
    io_->flush();
  }
  void recv_cot(block* data, const bool* b, int64_t n) {
    std::vector<unsigned char> c(n);
    for (int64_t i = 0; i < n; i++) c[i] = b[i];
    io_->send_data(c.data(), n);
    io_->flush();
    io_->recv_block(data, n);
  }

 private:
  IO* io_;
  block delta_;
};
} // namespace emp
inline void block_to_bool(bool* data, emp::block b) {
  uint64_t w[2];
  memcpy(w, &b, 16);
  for (int i = 0; i < 128; i++) data[i] = (w[i / 64] >> (i % 64)) & 1;
}
