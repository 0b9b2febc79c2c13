// C15: oblivious aggregation.
#pragma once
#include "game.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"

namespace ox {
using namespace hx;
namespace so = fbpcf::mpc_std_lib::oram;
namespace su = fbpcf::mpc_std_lib::util;

struct Batch {
  std::vector<uint32_t> index;
  uint64_t data = 0;
  uint32_t width = 1;
  uint32_t readAfter = 0; // 0 nothing, 1 Alice, 2 Bob, 3 shares
};
struct Session {
  uint32_t type = 0, impl = 0, size = 1, party0 = 0;
  std::vector<Batch> batches;
};
struct OEnv {
  int me = 0;
  const char* what = "";
  IPartyCommunicationAgentFactory* af = nullptr;
  std::shared_ptr<std::map<std::string, std::pair<std::string, std::string>>> shares; // what both hold, to be joined
};
struct IOramType {
  virtual ~IOramType() = default;
  virtual void run(OEnv& e, const Session& s, size_t no) = 0;
};
using OramMaker = std::unique_ptr<IOramType> (*)();
std::vector<std::pair<const char*, OramMaker>>& oramTypes();
struct OramReg {
  OramReg(const char* n, OramMaker m) { oramTypes().push_back({n, m}); }
};

template <class T>
struct Val; // value, its bits, sum
template <>
struct Val<uint32_t> {
  static constexpr size_t w = 32;
  static uint32_t draw(Prf& g) { return g.below(3) ? (uint32_t)g.next() : (uint32_t)g.below(2) - (uint32_t)g.below(2); }
  static std::vector<bool> bits(uint32_t v) {
    std::vector<bool> r(32);
    for (int i = 0; i < 32; i++) r[i] = v >> i & 1;
    return r;
  }
  static std::string show(uint32_t v) { return strf("%u", v); }
  static uint32_t add(uint32_t a, uint32_t b) { return a + b; }
};
template <>
struct Val<su::AggregationValue> {
  using A = su::AggregationValue;
  static constexpr size_t w = 64;
  static A draw(Prf& g) { return A(Val<uint32_t>::draw(g), Val<uint32_t>::draw(g)); }
  static std::vector<bool> bits(const A& v) {
    auto a = Val<uint32_t>::bits(v.conversionCount), b = Val<uint32_t>::bits(v.conversionValue);
    a.insert(a.end(), b.begin(), b.end());
    return a;
  }
  static std::string show(const A& v) { return strf("(%u,%u)", v.conversionCount, v.conversionValue); }
  static A add(const A& a, const A& b) { return A(a.conversionCount + b.conversionCount, a.conversionValue + b.conversionValue); }
};
template <bool S, int8_t W>
struct Val<su::Intp<S, W>> {
  using I = su::Intp<S, W>;
  using N = typename I::NativeType;
  static constexpr size_t w = W;
  static constexpr uint64_t mask = W == 64 ? ~0ull : (1ull << (W & 63)) - 1;
  static I of(uint64_t v) {
    v &= mask;
    if (S && W < 64 && (v >> (W - 1) & 1)) v |= ~mask;
    return I((N)v);
  }
  static I draw(Prf& g) { return of(g.below(3) ? g.next() : g.below(2) - g.below(2)); }
  static std::vector<bool> bits(const I& v) {
    std::vector<bool> r(W);
    uint64_t x = (uint64_t)(N)v;
    for (int i = 0; i < W; i++) r[i] = x >> i & 1;
    return r;
  }
  static std::string show(const I& v) { return strf("%lld", (long long)(N)v); }
  static I add(const I& a, const I& b) { return of((uint64_t)(N)a + (uint64_t)(N)b); }
};

template <class T>
struct OramType : IOramType {
  const char* name;
  explicit OramType(const char* n) : name(n) {}
  using V = Val<T>;
  void run(OEnv& e, const Session& s, size_t no) override {
    bool first = e.me == (int)s.party0;
    int p0 = s.party0, p1 = 1 - s.party0;
    std::unique_ptr<so::IWriteOnlyOramFactory<T>> f;
    auto ledger = std::make_shared<Ledger>();
    LedgerFactory counted(e.me, std::make_unique<BorrowedFactory>(*e.af), ledger);
    IPartyCommunicationAgentFactory& af = dsim::param("stats", 0) ? (IPartyCommunicationAgentFactory&)counted : *e.af;
    const char* impl = s.impl == 0 ? "tree" : s.impl == 1 ? "tree, narrow" : "linear";
    if (s.impl == 0) f = so::getSecureWriteOnlyOramFactory<T, 12, 0>(first, p0, p1, af);
    else if (s.impl == 1) f = so::getSecureWriteOnlyOramFactory<T, 6, 0>(first, p0, p1, af);
    else f = so::getSecureLinearOramFactory<T, 0>(first, p0, p1, af);
    auto oram = f->create(s.size);
    std::vector<T> want(s.size, T(0));
    auto check = [&](uint32_t how, size_t at) {
      for (size_t i = 0; i < s.size; i++) {
        if (how == 3) {
          T mine = oram->secretRead(i);
          // both hold a share; joined by whoever comes second
          auto key = strf("%zu/%zu/%zu", no, at, i);
          auto& slot = (*e.shares)[key];
          std::string b((const char*)&mine, sizeof(T));
          (e.me ? slot.second : slot.first) = b;
          if (!slot.first.empty() && !slot.second.empty()) {
            T a, c;
            memcpy((void*)&a, slot.first.data(), sizeof(T));
            memcpy((void*)&c, slot.second.data(), sizeof(T));
            T sum = V::add(a, c);
            DSIM_CHECK(V::bits(sum) == V::bits(want[i]), "wrong-bucket", "%s, %s aggregation of %s, %u buckets: bucket %zu holds %s (shares), expected %s",
                       e.what, impl, name, s.size, i, V::show(sum).c_str(), V::show(want[i]).c_str());
            dsim::probe("shared_reads_verified");
          }
        } else {
          auto role = how == 2 ? so::IWriteOnlyOram<T>::Bob : so::IWriteOnlyOram<T>::Alice;
          T got = oram->publicRead(i, role);
          if (first == (how == 1))
            DSIM_CHECK(V::bits(got) == V::bits(want[i]), "wrong-bucket", "%s, %s aggregation of %s, %u buckets: bucket %zu reads %s, expected %s",
                       e.what, impl, name, s.size, i, V::show(got).c_str(), V::show(want[i]).c_str());
          else
            DSIM_CHECK(V::bits(got) == V::bits(T(0)), "wrong-reader", "%s, %s aggregation: the other party was handed %s", e.what, impl, V::show(got).c_str());
          dsim::probe("buckets_verified");
        }
      }
    };
    for (size_t b = 0; b < s.batches.size(); b++) {
      auto& B = s.batches[b];
      Prf g{B.data};
      size_t n = B.index.size();
      std::vector<std::vector<bool>> ix(B.width, std::vector<bool>(n)), vs(V::w, std::vector<bool>(n));
      for (size_t k = 0; k < n; k++) {
        T v = V::draw(g);
        want[B.index[k]] = V::add(want[B.index[k]], v);
        auto bits = V::bits(v);
        for (size_t i = 0; i < B.width; i++) {
          bool m = g.next() & 1;
          ix[i][k] = e.me ? m : m ^ (B.index[k] >> i & 1);
        }
        for (size_t i = 0; i < V::w; i++) {
          bool m = g.next() & 1;
          vs[i][k] = e.me ? m : m ^ bits[i];
        }
      }
      oram->obliviousAddBatch(ix, vs);
      dsim::probe("batches_added");
      if (B.readAfter) check(B.readAfter, b);
    }
    check(1, 1000);
    check(2, 1001);
    check(3, 1002);
    if (dsim::param("stats", 0)) {
      auto t = oram->getTrafficStatistics();
      DSIM_CHECK(t.first == ledger->sent && t.second == ledger->received, "aggregation-traffic",
                 "%s, %s aggregation of %s: party %d reports %llu/%llu bytes sent/received, %llu/%llu crossed its channels", e.what, impl, name, e.me,
                 (unsigned long long)t.first, (unsigned long long)t.second, (unsigned long long)ledger->sent, (unsigned long long)ledger->received);
      dsim::probe("aggregation_traffic_verified");
    }
  }
};
} // namespace ox
#define OX_TYPE(id, label, ...) \
  static ox::OramReg ox_reg_##id(label, []() -> std::unique_ptr<ox::IOramType> { return std::make_unique<ox::OramType<__VA_ARGS__>>(label); });
