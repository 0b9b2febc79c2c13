// Agents that keep what each party sent and received, channel by channel.
#pragma once
#include "common.h"
namespace hx {
struct Tap {
  // per channel name and peer: bytes sent / received by this party, in order, per message
  std::map<std::pair<std::string, int>, std::vector<std::vector<uint8_t>>> sent, received;
};
class TapAgent final : public IPartyCommunicationAgent {
 public:
  TapAgent(std::unique_ptr<IPartyCommunicationAgent> a, std::shared_ptr<Tap> t, std::pair<std::string, int> k)
      : a_(std::move(a)), t_(t), s_(t->sent[k]), r_(t->received[k]) {}
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return a_->getTrafficStatistics(); }

 private:
  void recvImpl(void* d, int n) override {
    auto v = a_->receive(n);
    if (n) memcpy(d, v.data(), n);
    r_.push_back({v.begin(), v.end()});
  }
  void sendImpl(const void* d, int n) override {
    auto p = (const unsigned char*)d;
    s_.push_back({p, p + n});
    a_->send(std::vector<unsigned char>(p, p + n));
  }
  std::unique_ptr<IPartyCommunicationAgent> a_;
  std::shared_ptr<Tap> t_;
  std::vector<std::vector<uint8_t>>&s_, &r_;
};
class TapFactory final : public IPartyCommunicationAgentFactory {
 public:
  TapFactory(std::unique_ptr<IPartyCommunicationAgentFactory> f, std::shared_ptr<Tap> t)
      : IPartyCommunicationAgentFactory(f->getMetricsCollector()), f_(std::move(f)), t_(std::move(t)) {}
  std::unique_ptr<IPartyCommunicationAgent> create(int id, std::string name) override {
    // several channels may carry the same name: number them
    auto k = std::make_pair(name + "#" + std::to_string(count_[{name, id}]++), id);
    return std::make_unique<TapAgent>(f_->create(id, name), t_, k);
  }

 private:
  std::unique_ptr<IPartyCommunicationAgentFactory> f_;
  std::shared_ptr<Tap> t_;
  std::map<std::pair<std::string, int>, int> count_;
};
} // namespace hx
