// C29: random choices made by two parties together.
#include <openssl/sha.h>
#include <cmath>
#include <set>
#include "perm.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"

using namespace hx;
namespace su = fbpcf::mpc_std_lib::util;
namespace sl = fbpcf::mpc_std_lib;
using Bytes = std::vector<uint8_t>;

namespace {
// keeps the messages of one party in order, and may change one byte of those it sends
struct Line {
  bool out;
  Bytes b;
};
class WatchedAgent final : public IPartyCommunicationAgent {
 public:
  explicit WatchedAgent(std::unique_ptr<IPartyCommunicationAgent> a) : a_(std::move(a)) {}
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return a_->getTrafficStatistics(); }
  std::vector<Line>* log = nullptr;
  size_t sentBytes = 0, flipAt = SIZE_MAX; // position in what is sent from now on
  uint8_t flipBy = 0;

 private:
  void recvImpl(void* d, int n) override {
    auto v = a_->receive(n);
    if (n) memcpy(d, v.data(), n);
    log->push_back({false, Bytes(v.begin(), v.end())});
  }
  void sendImpl(const void* d, int n) override {
    Bytes b((const uint8_t*)d, (const uint8_t*)d + n);
    if (flipAt >= sentBytes && flipAt < sentBytes + n) b[flipAt - sentBytes] ^= flipBy;
    sentBytes += n;
    log->push_back({true, b});
    a_->send(std::vector<unsigned char>(b.begin(), b.end()));
  }
  std::unique_ptr<IPartyCommunicationAgent> a_;
};
Bytes bytes(__m128i x) {
  Bytes b(16);
  _mm_storeu_si128((__m128i*)b.data(), x);
  return b;
}
Bytes join(const std::vector<Line>& l, bool out) {
  Bytes r;
  for (auto& x : l)
    if (x.out == out) r.insert(r.end(), x.b.begin(), x.b.end());
  return r;
}
Bytes part(const Bytes& b, size_t from, size_t n) {
  if (b.size() < from + n) return {};
  return Bytes(b.begin() + from, b.begin() + from + n);
}
// Pearson's statistic is far outside of what uniform choices give
bool skewed(const std::vector<uint64_t>& cells, uint64_t total) {
  double e = double(total) / cells.size(), x = 0, k = cells.size() - 1;
  for (auto c : cells) x += (c - e) * (c - e) / e;
  return x > k + 8 * std::sqrt(2 * k) + 40;
}
size_t rankOf(std::vector<uint32_t> p) {
  size_t r = 0;
  for (size_t i = 0; i < p.size(); i++) {
    size_t smaller = 0;
    for (size_t j = i + 1; j < p.size(); j++) smaller += p[j] < p[i];
    r = r * (p.size() - i) + smaller;
  }
  return r;
}
size_t factorial(size_t n) { return n < 2 ? 1 : n * factorial(n - 1); }
} // namespace

// agreeing on a public seed
DSIM_HARNESS(pubseed) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  Net kind = drawNet();
  bool crypto = dsim::param("crypt", 0), broken = dsim::param("fault", 0) || crypto;
  if (crypto) drawCrypt();
  int n = 2 + dsim::wlz("parties", 2, 7000);
  Cluster cl(n, kind);
  cl.timeoutSec = 20;
  struct Session {
    int first, second;
    int cheat; // byte the first party changes in what it sends: 0..31 the claim, 32..63 share and salt; -1 honest
    uint8_t by;
    bool done[2] = {false, false};
    Bytes value[2];
    std::vector<Line> log[2];
  };
  std::vector<Session> ss;
  int k = 1 + dsim::wl("sessions", 12);
  std::string list;
  for (int i = 0; i < k; i++) {
    Session s;
    s.first = dsim::wl("first", n);
    s.second = (s.first + 1 + dsim::wl("second", n - 1)) % n;
    s.cheat = !crypto && dsim::wlp("cheat", 4000) ? (int)dsim::wl("byte", 64) : -1;
    s.by = 1 << dsim::wl("bit", 8);
    list += s.cheat < 0 ? strf(" %d-%d", s.first, s.second) : strf(" %d(changes byte %d)-%d", s.first, s.cheat, s.second);
    ss.push_back(s);
  }
  dsim::note(strf("%d parties over %s, sessions%s", n, name(kind), list.c_str()));
  if (broken && !crypto) {
    int how = dsim::wl("trouble", 3), victim = dsim::wl("victim", n), other = (victim + 1) % n;
    if (how < 2)
      dsim::at(dsim::wl("at", 1000 << dsim::wl("at_scale", 5)) * (dsim::net().maxDelayNs / 1000 + 1), [=] {
        if (how == 0) dsim::crashParty(victim, false);
        else dsim::resetConnection(victim, other, true);
        dsim::probe(how ? "connections_reset" : "crashes");
      });
    else {
      dsim::setFaultRate("net_read_error", 400);
      dsim::setFaultRate("net_write_error", 400);
      dsim::setFaultBudget(1 + dsim::wl("budget", 2));
    }
  }
  std::set<int> aware; // sessions whose cheat was found out
  for (int me = 0; me < n; me++)
    dsim::addParty(me, [&, me] {
      try {
        auto f = cl.factory(me);
        std::vector<std::unique_ptr<WatchedAgent>> ag(n);
        for (int i = 0; i < n; i++)
          for (int j = i + 1; j < n; j++)
            if (i == me || j == me) ag[i + j - me] = std::make_unique<WatchedAgent>(f->create(i + j - me, "seed"));
        for (size_t i = 0; i < ss.size(); i++) {
          auto& s = ss[i];
          if (s.first != me && s.second != me) continue;
          int side = s.second == me;
          auto& a = *ag[side ? s.first : s.second];
          a.log = &s.log[side];
          a.sentBytes = 0;
          a.flipAt = !side && s.cheat >= 0 ? s.cheat : SIZE_MAX;
          a.flipBy = s.by;
          try {
            auto v = su::secureSamplePublicSeed(!side, a);
            s.value[side] = bytes(v);
            s.done[side] = true;
          } catch (const std::exception& e) {
            if (!broken) DSIM_CHECK(side && s.cheat >= 0, "unexpected-error", "party %d, session %zu: %s", me, i, e.what());
            aware.insert(i);
            if (broken) throw;
          }
        }
      } catch (const std::exception& e) {
        if (!broken) dsim::fail("unexpected-error", "party %d: %s", me, e.what());
        dsim::probe("parties_reporting_error");
        if (crypto && !dsim::faultsInjected()) dsim::fail("unexpected-error", "party %d: %s", me, e.what());
        crypt().error[me] = e.what();
        dsim::crashParty(me, false);
      }
    });
  dsim::RunOptions o;
  o.maxSimNs = 2000ull * 1'000'000'000ull;
  auto e = dsim::runAll(o);
  if (crypto) judgeCrypt(e);
  if (e != dsim::End::Done)
    dsim::fail(broken ? "survivor-hangs" : "deadlock", "%s: %s", e == dsim::End::Deadlock ? "blocked for ever" : "no progress", dsim::blockedReport().substr(0, 700).c_str());
  std::set<Bytes> seen; // contributions
  auto fresh = [&](const Bytes& b, const char* what, size_t i) {
    DSIM_CHECK(seen.insert(b).second, "not-fresh", "session %zu: the %s was used before", i, what);
  };
  std::vector<uint64_t> ones(128 * 3);
  uint64_t honest = 0;
  for (size_t i = 0; i < ss.size(); i++) {
    auto& s = ss[i];
    auto out0 = join(s.log[0], true), in0 = join(s.log[0], false), out1 = join(s.log[1], true);
    if (s.cheat >= 0) {
      DSIM_CHECK(!s.done[1], "cheat-accepted", "session %zu: the first party changed byte %d of what it sends, and the second still returned a seed", i, s.cheat);
      if (aware.count(i)) dsim::probe("cheats_found_out");
    }
    // whoever returns a value returns the combination of both contributions
    auto share0 = part(out0, 32, 16), salt = part(out0, 48, 16), share1 = part(out1, 0, 16), claim = part(out0, 0, 32);
    if (s.cheat >= 32 && s.cheat < 48 && share0.size()) share0[s.cheat - 32] ^= s.by; // what it really chose
    for (int side = 0; side < 2; side++) {
      if (!s.done[side]) continue;
      DSIM_CHECK(share0.size() && salt.size() && share1.size(), "incomplete", "session %zu: party %d returned a seed without both contributions", i, side ? s.second : s.first);
      Bytes want(16);
      for (int b = 0; b < 16; b++) want[b] = share0[b] ^ share1[b];
      DSIM_CHECK(s.value[side] == want, "wrong-seed", "session %zu: party %d's seed is not made of both contributions", i, side ? s.second : s.first);
    }
    if (s.done[0] && s.done[1]) {
      DSIM_CHECK(s.value[0] == s.value[1], "seeds-differ", "session %zu: the parties %d and %d have different seeds", i, s.first, s.second);
      dsim::probe("seeds_agreed");
    }
    // order: claim, then the other's contribution, and only then the own one
    size_t pos = 0, got = 0;
    for (auto& l : s.log[0]) {
      if (!l.out) {
        got += l.b.size();
        continue;
      }
      pos += l.b.size();
      DSIM_CHECK(pos <= 32 || got >= 16, "revealed-early", "session %zu: party %d sends more than its claim before it has the other's contribution", i, s.first);
    }
    pos = got = 0;
    for (auto& l : s.log[1]) {
      if (l.out) DSIM_CHECK(got >= 32, "revealed-early", "session %zu: party %d sends its contribution before it has the other's claim", i, s.second);
      else got += l.b.size();
    }
    if (s.cheat < 0 && salt.size()) {
      Bytes h(32), h0(32), open = share0;
      open.insert(open.end(), salt.begin(), salt.end());
      SHA256(open.data(), open.size(), h.data());
      SHA256(share0.data(), share0.size(), h0.data());
      DSIM_CHECK(h == claim, "claim-not-bound", "session %zu: the claim is not the digest of contribution and salt", i);
      DSIM_CHECK(std::search(claim.begin(), claim.end(), share0.begin(), share0.end()) == claim.end(), "revealed-early", "session %zu: the claim contains the contribution", i);
      fresh(share0, "first contribution", i);
      fresh(salt, "salt", i);
    }
    if (share1.size()) fresh(share1, "second contribution", i);
    if (s.cheat < 0 && s.done[0] && s.done[1]) {
      honest++;
      const Bytes* p[3] = {&share0, &salt, &share1};
      for (int w = 0; w < 3; w++)
        for (int b = 0; b < 128; b++) ones[w * 128 + b] += (*p[w])[b / 8] >> (b % 8) & 1;
    }
  }
  if (honest) { // balanced in each run as a whole
    for (int w = 0; w < 3; w++) {
      double sum = 0, m = 128.0 * honest;
      for (int b = 0; b < 128; b++) sum += ones[w * 128 + b];
      DSIM_CHECK(std::fabs(sum - m / 2) <= 8 * std::sqrt(m) / 2, "biased", "%s: %.0f of %.0f bits are set", w == 0 ? "first contributions" : w == 1 ? "salts" : "second contributions", sum, m);
    }
  }
}

// the permutation one party draws
DSIM_HARNESS(draworder) {
  dsim::drawSchedPolicy();
  size_t n = dsim::wl("small", 2) ? 13 + dsim::wl("rows", 200) : dsim::wl("rows", 6);
  size_t R = n < 6 ? std::max<size_t>(20 * factorial(n), 60) : 30 + dsim::wl("draws", 40);
  uint64_t buffer = 1 + dsim::wl("buffer", 300);
  __m128i key = _mm_set_epi64x(dsim::dataRand(), dsim::dataRand());
  dsim::note(strf("%zu orders of %zu rows, buffer of %lu", R, n, buffer));
  std::vector<std::vector<uint32_t>> drawn[2];
  addParties(2, [&](int me) {
    fbpcf::engine::util::AesPrg prg(key, me ? 1024 : buffer);
    for (size_t i = 0; i < R; i++) drawn[me].push_back(su::secureRandomPermutation(n, prg));
  });
  mustFinish();
  DSIM_CHECK(drawn[0] == drawn[1], "orders-differ", "the same seed gives the parties different orders of %zu rows", n);
  std::vector<uint64_t> cells(n < 6 ? factorial(n) : 1), fixedAt(n);
  uint64_t fixed = 0, inv = 0;
  for (auto& p : drawn[0]) {
    DSIM_CHECK(p.size() == n, "wrong-count", "%zu positions instead of %zu", p.size(), n);
    std::vector<bool> got(n);
    for (auto x : p) {
      DSIM_CHECK(x < n && !got[x], "no-permutation", "an order of %zu rows has %u twice or outside", n, x);
      got[x] = true;
    }
    if (n < 6) cells[rankOf(p)]++;
    for (size_t i = 0; i < n; i++)
      if (p[i] == i) {
        fixed++;
        fixedAt[i]++;
      }
    for (size_t i = 0; i + 1 < n; i++) inv += p[i] > p[i + 1];
  }
  if (n >= 2 && n < 6) {
    DSIM_CHECK(!skewed(cells, R), "not-uniform", "the %zu orders of %zu rows are not equally frequent in %zu draws", cells.size(), n, R);
    dsim::probe("orders_counted");
  } else if (n >= 6) {
    // one fixed point on average, with variance one; a third of all descents
    DSIM_CHECK(fixed <= R + 9 * std::sqrt(R) + 20 && fixed + 9 * std::sqrt(R) >= R, "not-uniform", "%lu rows keep their place in %zu orders of %zu rows", fixed, R, n);
    double m = R * (n - 1) / 2.0, sd = std::sqrt(R * (n + 1) / 12.0);
    DSIM_CHECK(std::fabs(inv - m) <= 9 * sd, "not-uniform", "%lu descents in %zu orders of %zu rows", inv, R, n);
    for (size_t i = 0; i < n; i++)
      DSIM_CHECK(fixedAt[i] <= double(R) / n + 8 * std::sqrt(double(R) / n) + 12, "not-uniform", "row %zu of %zu keeps its place in %lu of %zu orders", i, n, fixedAt[i], R);
    dsim::probe("large_orders_counted");
  }
}

namespace {
// a party that does not care: always the same bytes
struct StubbornPrg final : fbpcf::engine::util::IPrg {
  uint8_t c;
  explicit StubbornPrg(uint8_t c) : c(c) {}
  std::vector<bool> getRandomBits(uint32_t n) override { return std::vector<bool>(n, c & 1); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { return std::vector<unsigned char>(n, c); }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { return std::vector<uint64_t>(n, c * 0x0101010101010101ull); }
};
} // namespace

// the order of a shuffle
DSIM_HARNESS(shuffled) {
  GameCfg g = drawGame(2);
  g.eng.n = 2;
  Net net = drawNet();
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  uint32_t n = 2 + dsim::wl("rows", 3), R = n == 2 ? 70 : n == 3 ? 110 : 200;
  int stubborn = (int)dsim::wlz("stubborn", 3, 4000) - 1; // a party whose part is not random at all
  uint8_t how = dsim::dataRand();
  bool renew = dsim::wl("new_shuffler", 2);
  std::string what = g.desc();
  dsim::note(what + strf(", %u shuffles of %u rows%s", R, n, stubborn < 0 ? "" : ", one party's part constant"));
  std::vector<uint64_t> cells[2];
  playGame(g, net, [&](int me, IPartyCommunicationAgentFactory&) {
    using T = uint32_t;
    using IO = px::Io<T>;
    using Sec = IO::Sec;
    std::vector<T> rows;
    for (uint32_t i = 0; i < n; i++) rows.push_back(i);
    Sec src = IO::in(rows, 0);
    auto& c = cells[me];
    c.resize(factorial(n));
    auto make = [&]() -> std::unique_ptr<sl::shuffler::IShuffler<Sec>> {
      if (me == stubborn)
        return std::make_unique<sl::shuffler::PermuteBasedShuffler<Sec>>(
            me, 1 - me, sl::permuter::AsWaksmanPermuterFactory<T, 0>(me, 1 - me).create(), std::make_unique<StubbornPrg>(how));
      return sl::shuffler::PermuteBasedShufflerFactory<Sec>(me, 1 - me, std::make_unique<sl::permuter::AsWaksmanPermuterFactory<T, 0>>(me, 1 - me),
                                                            std::make_unique<fbpcf::engine::util::AesPrgFactory>()).create();
    };
    auto s = make();
    for (uint32_t i = 0; i < R; i++) {
      if (renew && i) s = make();
      auto r = s->shuffle(src, n);
      std::vector<T> got;
      for (int p = 0; p < 2; p++) {
        auto o = IO::out(r, p);
        if (p == me) got = o;
      }
      DSIM_CHECK(got.size() == n && std::is_permutation(got.begin(), got.end(), rows.begin()), "wrong-row", "%s: a shuffle of %u rows is no rearrangement", what.c_str(), n);
      c[rankOf(got)]++;
    }
  });
  dsim::RunOptions ro;
  ro.maxSteps = 40'000'000;
  mustFinish(ro);
  DSIM_CHECK(cells[0] == cells[1], "orders-differ", "%s: the parties see different orders", what.c_str());
  std::string z;
  for (auto c : cells[0]) z += strf(" %lu", c);
  DSIM_CHECK(!skewed(cells[0], R), "not-uniform", "%s: %u shuffles of %u rows%s gave the possible orders%s times", what.c_str(), R, n,
             stubborn < 0 ? "" : ", one party's part being constant,", z.c_str());
  dsim::probe(stubborn < 0 ? "shuffles_counted" : "shuffles_against_a_stubborn_party");
}
