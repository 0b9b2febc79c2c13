#pragma once
#include <future>
#include <iostream>
#include <thread>
#include "emp-ot/emp-ot.h"
using std::endl; // as the real headers do
namespace emp {
template <class IO>
inline void setup_semi_honest(IO*, int) {}
class NetIO : public IOChannel<NetIO> {
 public:
  NetIO(const char* address, int port, bool quiet = false) : address_(address ? address : ""), port_(port) {}
  void send_data_internal(const void*, int64_t) {}
  void recv_data_internal(void*, int64_t) {}
  void flush() {}
  std::string address_;
  int port_;
};
class Bit {
 public:
  Bit(bool v = false, int party = PUBLIC) : v(v) {}
  bool v;
};
class Integer {
 public:
  Integer(int n, int64_t v, int party = PUBLIC) : v(v) {}
  int64_t v;
};
} // namespace emp
