// Draws and builds secret-share engines and their parts over every provided back end.
#pragma once
#include "common.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"

namespace hx {
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
using MC = std::shared_ptr<fbpcf::util::MetricCollector>;

enum Rcot { kIknpDummyBase = 0, kExtDummyBase = 1, kIknpNp = 2, kExtNp = 3, kDummyRcot = 4 };
inline const char* rcotName(int r) {
  static const char* n[] = {"iknp", "extended", "iknp+np", "extended+np", "dummy"};
  return n[r];
}

struct EngCfg {
  int n = 2;
  int tuples = 0; // 0 dummy, 1 two-party, 2 product shares
  int rcot = 0;
  size_t buffer = 64;
  int64_t extSize = 512, baseSize = 128, weight = 8;
  std::string desc() const {
    return strf("%d parties, %s tuples%s%s, buffer %zu", n, tuples == 0 ? "dummy" : tuples == 1 ? "two-party" : "product-share",
                tuples ? "/" : "", tuples ? rcotName(rcot) : "", buffer);
  }
};

inline void drawExt(EngCfg& c) {
  // power-of-two extendedSize / weight, extendedSize > baseSize + weight*log2(extendedSize/weight)
  static const int64_t t[][3] = {{512, 128, 8}, {1024, 256, 16}, {512, 96, 4}, {2048, 512, 32}, {256, 64, 2}, {640, 128, 5}};
  auto& e = t[dsim::wl("ext_cfg", 6)];
  c.extSize = e[0];
  c.baseSize = e[1];
  c.weight = e[2];
}

// arith: whether integer multiplication is needed (product shares); maxParties
inline EngCfg drawEng(int maxParties) {
  EngCfg c;
  int eng = dsim::param("eng", -1);
  c.n = 2 + dsim::wlz("parties", maxParties - 1, 6500);
  if (eng >= 0)
    c.tuples = eng;
  else
    c.tuples = dsim::wlz("tuples", 3, 4000);
  if (c.tuples == 1) c.n = 2;
  int rc = dsim::param("rcot", -1);
  if (rc >= 0)
    c.rcot = rc;
  else
    c.rcot = c.tuples == 0 ? 0 : dsim::wlp("rcot_np", 60) ? 2 : dsim::wlp("rcot_ext", 3000) ? 1 : 0;
  static const size_t bufs[] = {64, 16, 33, 128, 200, 1, 7, 8, 500, 1000};
  c.buffer = bufs[dsim::wl("buffer", 10)];
  if (c.buffer < 8 && c.tuples == 2) c.buffer = 16;
  if (c.rcot == 1 || c.rcot == 3) drawExt(c);
  return c;
}

// Base transfers with fresh random messages that the sender simply tells the receiver: cheap, and distributed
// like the real ones for everything built on top (the repository's dummy hands out fixed messages).
class DealerBaseOt final : public ot::IBaseObliviousTransfer {
 public:
  explicit DealerBaseOt(std::unique_ptr<IPartyCommunicationAgent> a) : a_(std::move(a)) {}
  std::pair<std::vector<__m128i>, std::vector<__m128i>> send(size_t n) override {
    std::vector<unsigned char> b(32 * n);
    dsim::entropy(b.data(), b.size());
    a_->send(b);
    std::vector<__m128i> m0(n), m1(n);
    if (n) memcpy(m0.data(), b.data(), 16 * n), memcpy(m1.data(), b.data() + 16 * n, 16 * n);
    return {m0, m1};
  }
  std::vector<__m128i> receive(const std::vector<bool>& choice) override {
    size_t n = choice.size();
    auto b = a_->receive(32 * n);
    std::vector<__m128i> m(n);
    for (size_t i = 0; i < n; i++) memcpy(&m[i], b.data() + 16 * (i + (choice[i] ? n : 0)), 16);
    return m;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return a_->getTrafficStatistics(); }
  std::unique_ptr<IPartyCommunicationAgent> extractCommunicationAgent() override { return std::move(a_); }

 private:
  std::unique_ptr<IPartyCommunicationAgent> a_;
};
class DealerBaseOtFactory final : public ot::IBaseObliviousTransferFactory {
 public:
  std::unique_ptr<ot::IBaseObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override {
    return std::make_unique<DealerBaseOt>(std::move(a));
  }
};

inline std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransferFactory> iknpFactory(bool np) {
  if (np)
    return std::make_unique<ot::IknpShRandomCorrelatedObliviousTransferFactory>(
        std::make_unique<ot::NpBaseObliviousTransferFactory>());
  return std::make_unique<ot::IknpShRandomCorrelatedObliviousTransferFactory>(
      std::make_unique<DealerBaseOtFactory>());
}
// watches the strings that extensions consume: they must not be handed out as well
struct SpyExtender final : ot::ferret::IRcotExtender {
  std::unique_ptr<ot::ferret::IRcotExtender> e;
  std::vector<__m128i>* used;
  SpyExtender(std::unique_ptr<ot::ferret::IRcotExtender> e, std::vector<__m128i>* used) : e(std::move(e)), used(used) {}
  int senderInit(__m128i d, int64_t x, int64_t b, int64_t w) override { return e->senderInit(d, x, b, w); }
  int receiverInit(int64_t x, int64_t b, int64_t w) override { return e->receiverInit(x, b, w); }
  void setCommunicationAgent(std::unique_ptr<IPartyCommunicationAgent> a) override { e->setCommunicationAgent(std::move(a)); }
  int getBaseCotSize() const override { return e->getBaseCotSize(); }
  std::vector<__m128i> senderExtendRcot(std::vector<__m128i>&& b) override {
    used->insert(used->end(), b.begin(), b.end());
    return e->senderExtendRcot(std::move(b));
  }
  std::vector<__m128i> receiverExtendRcot(std::vector<__m128i>&& b) override { return e->receiverExtendRcot(std::move(b)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return e->getTrafficStatistics(); }
};
struct SpyExtenderFactory final : ot::ferret::IRcotExtenderFactory {
  std::unique_ptr<ot::ferret::IRcotExtenderFactory> f;
  std::vector<__m128i>* used;
  SpyExtenderFactory(std::unique_ptr<ot::ferret::IRcotExtenderFactory> f, std::vector<__m128i>* used) : f(std::move(f)), used(used) {}
  std::unique_ptr<ot::ferret::IRcotExtender> create() override { return std::make_unique<SpyExtender>(f->create(), used); }
};
inline std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcotFactory(const EngCfg& c, std::vector<__m128i>* used = nullptr) {
  switch (c.rcot) {
    case kIknpDummyBase:
    case kIknpNp: return iknpFactory(c.rcot == kIknpNp);
    case kDummyRcot: return std::make_shared<ot::insecure::DummyRandomCorrelatedObliviousTransferFactory>();
    default: {
      std::unique_ptr<ot::ferret::IRcotExtenderFactory> x = std::make_unique<ot::ferret::RcotExtenderFactory>(
          std::make_unique<ot::ferret::TenLocalLinearMatrixMultiplierFactory>(),
          std::make_unique<ot::ferret::RegularErrorMultiPointCotFactory>(std::make_unique<ot::ferret::SinglePointCotFactory>()));
      if (used) x = std::make_unique<SpyExtenderFactory>(std::move(x), used);
      return std::make_shared<ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(iknpFactory(c.rcot == kExtNp), std::move(x),
                                                                                         c.extSize, c.baseSize, c.weight);
    }
  }
}
inline std::shared_ptr<tg::ProductShareGeneratorFactory> productFactory(const EngCfg& c, int me,
                                                                       IPartyCommunicationAgentFactory& af) {
  return std::make_shared<tg::ProductShareGeneratorFactory>(
      std::make_unique<fbpcf::engine::util::AesPrgFactory>(c.buffer),
      std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, af, rcotFactory(c)));
}
inline std::unique_ptr<tg::ITupleGeneratorFactory> boolTupleFactory(const EngCfg& c, int me,
                                                                   IPartyCommunicationAgentFactory& af, MC mc) {
  switch (c.tuples) {
    case 0: return std::make_unique<tg::insecure::DummyTupleGeneratorFactory>(mc);
    case 1: return std::make_unique<tg::TwoPartyTupleGeneratorFactory>(rcotFactory(c), af, me, c.buffer, mc);
    default:
      return std::make_unique<tg::TupleGeneratorFactory>(productFactory(c, me, af),
                                                         std::make_unique<fbpcf::engine::util::AesPrgFactory>(),
                                                         (int)c.buffer, me, c.n, mc);
  }
}
inline std::unique_ptr<tg::IArithmeticTupleGeneratorFactory> arithTupleFactory(const EngCfg& c, int me,
                                                                              IPartyCommunicationAgentFactory& af) {
  if (c.tuples == 0) return std::make_unique<tg::insecure::DummyArithmeticTupleGeneratorFactory>();
  return std::make_unique<tg::ArithmeticTupleGeneratorFactory>(
      productFactory(c, me, af), std::make_unique<fbpcf::engine::util::AesPrgFactory>(), (int)c.buffer, me, c.n);
}
inline std::unique_ptr<fbpcf::engine::ISecretShareEngine> makeEngine(const EngCfg& c, int me,
                                                                    IPartyCommunicationAgentFactory& af, MC mc,
                                                                    bool boolean, bool arith) {
  auto b = boolean ? boolTupleFactory(c, me, af, mc)
                   : std::unique_ptr<tg::ITupleGeneratorFactory>(std::make_unique<tg::NullTupleGeneratorFactory>(mc));
  auto a = arith ? arithTupleFactory(c, me, af)
                 : std::unique_ptr<tg::IArithmeticTupleGeneratorFactory>(
                       std::make_unique<tg::NullArithmeticTupleGeneratorFactory>());
  auto f = fbpcf::engine::getEngineFactoryWithTupleGeneratorFactories(me, c.n, af, std::move(b), std::move(a));
  return f->create();
}
} // namespace hx
