// Shared harness helpers: clusters of simulated parties over the real transports.
#pragma once
#include <atomic>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "dsim.h"
#include "fbpcf/engine/communication/IPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"

namespace hx {
using fbpcf::engine::communication::InMemoryPartyCommunicationAgentFactory;
using fbpcf::engine::communication::IPartyCommunicationAgent;
using fbpcf::engine::communication::IPartyCommunicationAgentFactory;
using fbpcf::engine::communication::SocketPartyCommunicationAgent;
using fbpcf::engine::communication::SocketPartyCommunicationAgentFactory;

enum class Net { InMem = 0, Socket = 1, Tls = 2 };

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
// deterministic pseudo-random stream usable inside parties without touching the decision streams
struct Prf {
  uint64_t s;
  uint64_t next() { return mix(s++); }
  uint64_t below(uint64_t n) { return next() % n; }
};

// now and then a size around those where blocks, words of lengths and buffers end; 0 otherwise
inline size_t drawLarge(uint32_t per10k, size_t limit) {
  if (!dsim::wlp("large", per10k)) return 0;
  static const size_t s[] = {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536, 100, 200, 250, 500, 1000, 5000, 10000};
  size_t ok = 0, c[16];
  for (auto x : s)
    if (x <= limit) c[ok++] = x;
  if (!ok) return 0;
  size_t x = c[dsim::wl("large_size", ok)];
  switch (dsim::wl("large_off", 4)) {
    case 0: break;
    case 1: x += 1; break;
    case 2: x -= 1; break;
    default: x = x - 9 + dsim::dataRand() % 19;
  }
  dsim::probe("large_sizes");
  return x;
}

struct Cluster {
  int n;
  Net kind;
  int timeoutSec = 30;
  int portBase = 5000;
  int ctor = 0; // 1: without a waiting time, 2: without a waiting time and TLS data
  using Host = InMemoryPartyCommunicationAgentFactory::HostInfo;
  std::vector<std::map<int, std::shared_ptr<Host>>> maps;
  Cluster(int n_, Net k) : n(n_), kind(k), maps(n_) {
    for (int i = 0; i < n; i++) {
      std::string h = "party" + std::to_string(i);
      dsim::hostName(i, h.c_str());
      for (int j = i + 1; j < n; j++) {
        auto h = std::make_shared<Host>();
        h->mutex = std::make_unique<std::mutex>();
        maps[i][j] = maps[j][i] = h;
      }
    }
  }
  static SocketPartyCommunicationAgent::TlsInfo tlsInfo(bool on) {
    setenv("HOME", "/verif/sim", 1);
    return fbpcf::engine::communication::getTlsInfoFromArgs(on, "certs/ca.pem", "certs/cert.pem", "certs/key.pem", "certs/passphrase.pem");
  }
  int port(int a, int b) const { return portBase + 200 * (std::min(a, b) * 8 + std::max(a, b)); }
  std::map<int, SocketPartyCommunicationAgentFactory::PartyInfo> infos(int me) const {
    std::map<int, SocketPartyCommunicationAgentFactory::PartyInfo> m;
    for (int j = 0; j < n; j++)
      if (j != me) m[j] = {"party" + std::to_string(j), port(me, j)};
    return m;
  }
  // call inside the party (connects, blocking)
  std::unique_ptr<IPartyCommunicationAgentFactory> factory(
      int me, std::shared_ptr<fbpcf::util::MetricCollector> mc = nullptr) {
    if (!mc) mc = std::make_shared<fbpcf::util::MetricCollector>("party_" + std::to_string(me));
    if (kind == Net::InMem) {
      auto m = maps[me];
      return std::make_unique<InMemoryPartyCommunicationAgentFactory>(me, std::move(m), mc);
    }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    if (ctor == 2 && kind == Net::Socket) return std::make_unique<SocketPartyCommunicationAgentFactory>(me, infos(me), mc);
    if (ctor == 1) return std::make_unique<SocketPartyCommunicationAgentFactory>(me, infos(me), tlsInfo(kind == Net::Tls), mc);
#pragma GCC diagnostic pop
    return std::make_unique<SocketPartyCommunicationAgentFactory>(
        me, infos(me), tlsInfo(kind == Net::Tls), mc, timeoutSec);
  }
};

// Independent account of the bytes that cross each channel obtained through a factory.
struct Ledger {
  uint64_t sent = 0, received = 0, toHigher = 0, toLower = 0; // bytes; channels opened
};
class LedgerAgent final : public IPartyCommunicationAgent {
 public:
  LedgerAgent(std::unique_ptr<IPartyCommunicationAgent> a, std::shared_ptr<Ledger> l) : a_(std::move(a)), l_(std::move(l)) {}
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    auto t = a_->getTrafficStatistics();
    if (!dsim::param("fault", 0))
      DSIM_CHECK(t.first == sent_ && t.second == received_, "channel-traffic",
                 "a channel reports %llu/%llu bytes sent/received, %llu/%llu crossed it", (unsigned long long)t.first,
                 (unsigned long long)t.second, (unsigned long long)sent_.load(), (unsigned long long)received_.load());
    return t;
  }

 private:
  // totals are entered before sending and after receiving, as a channel in use does; they are
  // only compared while the channel is idle
  void recvImpl(void* d, int n) override {
    auto v = a_->receive(n);
    if (n) memcpy(d, v.data(), n);
    received_ += n;
    l_->received += n;
  }
  void sendImpl(const void* d, int n) override {
    auto p = (const unsigned char*)d;
    a_->send(std::vector<unsigned char>(p, p + n));
    sent_ += n;
    l_->sent += n;
  }
  std::unique_ptr<IPartyCommunicationAgent> a_;
  std::shared_ptr<Ledger> l_;
  std::atomic<uint64_t> sent_{0}, received_{0};
};
class LedgerFactory final : public IPartyCommunicationAgentFactory {
 public:
  LedgerFactory(int me, std::unique_ptr<IPartyCommunicationAgentFactory> f, std::shared_ptr<Ledger> l)
      : IPartyCommunicationAgentFactory(f->getMetricsCollector()), me_(me), f_(std::move(f)), l_(std::move(l)) {}
  std::unique_ptr<IPartyCommunicationAgent> create(int id, std::string name) override {
    auto a = f_->create(id, name);
    (id > me_ ? l_->toHigher : l_->toLower)++;
    return std::make_unique<LedgerAgent>(std::move(a), l_);
  }

 private:
  int me_;
  std::unique_ptr<IPartyCommunicationAgentFactory> f_;
  std::shared_ptr<Ledger> l_;
};

// a factory that belongs to somebody else
class BorrowedFactory final : public IPartyCommunicationAgentFactory {
 public:
  explicit BorrowedFactory(IPartyCommunicationAgentFactory& f) : IPartyCommunicationAgentFactory(f.getMetricsCollector()), f_(f) {}
  std::unique_ptr<IPartyCommunicationAgent> create(int id, std::string name) override { return f_.create(id, name); }

 private:
  IPartyCommunicationAgentFactory& f_;
};

// Transport for this run: parameter "net": 0/1/2 fixed, 3 = in-memory or socket, 4 = any with few TLS
inline Net drawNet() {
  if (dsim::param("crypt", 0) == 3) return Net::Tls;
  if (dsim::param("crypt", 0)) return Net::Socket; // memory channels do not notice that the peer is gone
  switch (dsim::param("net", 3)) {
    case 0: return Net::InMem;
    case 1: return Net::Socket;
    case 2: return Net::Tls;
    case 3: return dsim::wl("net_kind", 2) ? Net::Socket : Net::InMem;
    default: {
      auto k = dsim::wl("net_kind", 16);
      return k == 15 ? Net::Tls : k < 8 ? Net::InMem : Net::Socket;
    }
  }
}
inline const char* name(Net k) { return k == Net::InMem ? "memory" : k == Net::Socket ? "socket" : "tls"; }

// Parameter "crypt": one call for randomness or into the cryptographic library fails. Whoever makes it reports an
// error (and its process ends); the others report an error or have correct results.
struct Crypt {
  bool on = false, keepsState = false; // objects in static storage outlive an error
  std::map<int, std::string> error; // by party
};
inline Crypt& crypt() {
  static Crypt c;
  return c;
}
inline void drawCrypt() {
  auto& c = crypt();
  if (c.on) return;
  c.on = true;
  static const char* fns[] = {"", "BN_new", "BN_dup", "BN_CTX_new", "EC_POINT_new", "EC_GROUP_new_by_curve_name", "BN_CTX_get", "BN_rand_range", "BN_add_word",
                              "BN_lshift", "BN_mod_word", "EC_GROUP_get_order", "EC_POINT_mul", "EC_POINT_add", "EC_POINT_copy", "EC_POINT_invert",
                              "EC_POINT_point2hex", "EC_POINT_hex2point", "SHA256_Init", "SHA256_Update", "SHA256_Final"};
  static const char* tls[] = {"SSL_CTX_new", "SSL_new", "SSL_get1_peer_certificate", "X509_NAME_oneline", "SSL_CTX_ctrl", "SSL_CTX_set_num_tickets",
                              "SSL_CTX_use_certificate_file", "SSL_CTX_use_PrivateKey_file", "SSL_CTX_load_verify_locations",
                              "X509_VERIFY_PARAM_set1_host", "SSL_set_fd", "SSL_connect", "SSL_accept", "SSL_read", "SSL_write"};
  int which = dsim::param("crypt", 0);
  if (which == 3 && dsim::wl("entropy_or_crypto", 8)) {
    // the connection of a pair, and the channels made after it
    int fn = dsim::wl("crypt_fn", sizeof tls / sizeof *tls);
    dsim::cryptoFailOnly(tls[fn], (int)dsim::wl("crypt_party", 4) - 1, dsim::wl("crypt_call", fn >= 13 ? 30 : 6));
    dsim::setFaultRate("crypto_fail", 10000);
    dsim::setFaultBudget(1);
    return;
  }
  if (which == 1 && dsim::wl("entropy_or_crypto", 4)) {
    static const int upTo[] = {2, 5, 16, 60, 400};
    int fn = dsim::wl("crypt_fn", sizeof fns / sizeof *fns);
    int nth = dsim::wl("crypt_call", upTo[dsim::wl("crypt_scale", 5)]);
    dsim::cryptoFailOnly(fns[fn], (int)dsim::wl("crypt_party", 3) - 1, nth);
    dsim::setFaultRate("crypto_fail", 10000);
  } else {
    static const unsigned rates[] = {10000, 5000, 2000, 500, 100};
    dsim::setFaultRate("entropy_fail", rates[dsim::wl("crypt_rate", 5)]);
  }
  dsim::setFaultBudget(1);
}
// Runs one function per party; in a fault-free run an escaping exception is a violation.
inline void addParties(int n, std::function<void(int)> f) {
  if (dsim::param("crypt", 0)) drawCrypt();
  for (int i = 0; i < n; i++)
    dsim::addParty(i, [i, f] {
      try {
        f(i);
      } catch (const std::exception& e) {
        if (!crypt().on || !dsim::faultsInjected()) dsim::fail("unexpected-error", "party %d: %s", i, e.what());
        crypt().error[i] = e.what();
        dsim::crashParty(i, false);
      }
    });
}
inline void judgeCrypt(dsim::End e) {
  if (e != dsim::End::Done)
    dsim::fail("survivor-hangs", "%s: %s", e == dsim::End::Deadlock ? "blocked for ever" : "no progress", dsim::blockedReport().substr(0, 700).c_str());
  if (!dsim::faultsInjected()) {
    dsim::probe("runs_without_failing_calls");
    return;
  }
  for (int p = 0; p < 8; p++) {
    auto f = dsim::cryptoFailures(p);
    if (!f.main && !f.background) continue;
    bool told = crypt().error.count(p);
    // what only the log shows, and what the library can do without (such as keys for session tickets)
    bool needed = f.what != "X509_NAME_oneline" && f.what != "SSL_get1_peer_certificate" && !(dsim::param("crypt", 0) == 3 && f.what == "RAND_bytes");
    if (f.main && needed) DSIM_CHECK(told, "failure-ignored", "party %d goes on after %s failed", p, f.what.c_str());
    dsim::probe(!told ? "background_failures_without_effect" : f.main ? "failures_reported" : "background_failures_reported");
    dsim::event(f.what.c_str());
  }
  if (!crypt().keepsState)
    DSIM_CHECK(dsim::liveCryptoObjects().empty(), "left-behind", "what %s made is never freed after %s failed", dsim::liveCryptoObjects().c_str(),
               (dsim::cryptoFailures(0).what + dsim::cryptoFailures(1).what + dsim::cryptoFailures(2).what + dsim::cryptoFailures(3).what).c_str());
  dsim::pass();
}
inline void judgeEnd(dsim::End e) {
  if (e == dsim::End::Deadlock)
    dsim::fail("deadlock", "%s", dsim::blockedReport().substr(0, 900).c_str());
  if (e == dsim::End::StepLimit)
    dsim::fail("no-progress", "step limit; %s", dsim::blockedReport().substr(0, 900).c_str());
  if (e == dsim::End::TimeLimit)
    dsim::fail("no-progress-in-time", "%s", dsim::blockedReport().substr(0, 900).c_str());
}
inline void mustFinish(dsim::RunOptions o = {}) {
  if (crypt().on) o.maxSimNs = std::max<uint64_t>(o.maxSimNs, 1000000ull * 1'000'000'000ull); // slow links: many messages
  auto e = dsim::runAll(o);
  if (crypt().on) judgeCrypt(e);
  judgeEnd(e);
}
template <class... A>
std::string strf(const char* f, A... a) {
  char b[1024];
  snprintf(b, sizeof b, f, a...);
  return b;
}
} // namespace hx
