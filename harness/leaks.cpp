#include <unordered_map>
// C07 over the components of the standard library: many sessions in one game, in which only the private inputs follow
// coins. No bit a party receives in all sessions, and no two bits of its view together, may follow the coins of others.
#include "game.h"
#include "oram.h"
#include "perm.h"
#include "tap.h"
#include "fbpcf/frontend/Int.h"
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
using namespace hx;
namespace px {
std::vector<std::pair<const char*, PermMaker>>& permTypes() {
  static std::vector<std::pair<const char*, PermMaker>> z;
  return z;
}
} // namespace px
namespace ox {
std::vector<std::pair<const char*, OramMaker>>& oramTypes() {
  static std::vector<std::pair<const char*, OramMaker>> z;
  return z;
}
} // namespace ox
namespace kx {
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
namespace ad = fbpcf::mpc_std_lib::unified_data_process::adapter;
namespace wa = fbpcf::mpc_std_lib::walr;
namespace so = fbpcf::mpc_std_lib::oram;
using SecBit = fr::Bit<true, 0, true>;
using SecInt = fr::Int<true, 8, true, 0, true>;
constexpr int K = 96; // sessions looked at
using Vec = std::pair<uint64_t, uint64_t>; // one bit per session

struct Coins {
  Vec v[3][2]; // of party 0, of party 1, of nobody
  uint64_t fixed = 0;
  static bool at(const Vec& v, int k) { return (k < 64 ? v.first >> k : v.second >> (k - 64)) & 1; }
  // the i-th private bit of somebody in session k
  bool bit(int owner, int k, int i) const { return at(v[owner][i & 1], k) ^ (mix(fixed + owner * 1000 + i) & 1); }
};
enum Kind { kProgram, kPermute, kShuffle, kCompact, kOram, kLinear, kWalr, kEncrypt, kAdapt, kinds };
const char* kindName[] = {"program", "permutation", "shuffle", "compaction", "tree aggregation", "linear aggregation", "gradient", "encryption", "matching"};

class Owned final : public ot::IRandomCorrelatedObliviousTransferFactory {
 public:
  explicit Owned(std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f) : f_(std::move(f)) {}
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i d, std::unique_ptr<IPartyCommunicationAgent> a) override {
    return f_->create(d, std::move(a));
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override { return f_->create(std::move(a)); }

 private:
  std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f_;
};
} // namespace kx
using namespace kx;

DSIM_HARNESS(leaks) {
  GameCfg g = drawGame(2);
  g.eng.n = 2;
  g.eng.rcot = 0;
  if (g.eng.buffer < 64) g.eng.buffer = 64;
  Net net = drawNet();
  int kind = dsim::param("kind", -1);
  if (kind < 0) kind = dsim::wl("kind", kinds);
  int a = dsim::wl("first", 2), b = 1 - a, reader = dsim::wl("reader", 2), flip = dsim::wl("flip", 2);
  auto coins = std::make_shared<Coins>();
  for (auto& o : coins->v)
    for (auto& v : o) v = {dsim::dataRand(), dsim::dataRand() & 0xffffffff};
  coins->fixed = dsim::dataRand();
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  dsim::note(strf("%s, %s transport, %d sessions of %s", g.desc().c_str(), name(net), K, kindName[kind]));
  using Key = std::pair<std::string, int>;
  int triples = dsim::param("triples", 0);
  struct Seen {
    std::shared_ptr<Tap> tap = std::make_shared<Tap>();
    std::vector<std::map<Key, size_t>> sentAt, receivedAt; // messages before each session, and after all
  };
  auto seen = std::make_shared<std::vector<Seen>>(2);
  dsim::partyGlobal(keeperSlot(), sizeof(SchedPtr));
  auto cl = std::make_shared<Cluster>(2, net);
  cl->timeoutSec = 60;
  addParties(2, [=](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
    auto& S = (*seen)[me];
    std::unique_ptr<IPartyCommunicationAgentFactory> af = std::make_unique<TapFactory>(cl->factory(me, mc), S.tap);
    fr::MpcGame<0> game(makeScheduler(g, me, *af, mc));
    auto& c = *coins;
    auto bits = [&](int owner, int k, int from, int n) {
      std::vector<bool> r;
      for (int i = 0; i < n; i++) r.push_back(owner == me && c.bit(owner, k, from + i));
      return r;
    };
    auto order = [&](int owner, int k) { // a permutation of four made of two private bits
      std::vector<uint32_t> o{0, 1, 2, 3};
      if (c.bit(owner, k, 40)) std::swap(o[0], o[1]);
      if (c.bit(owner, k, 41)) std::swap(o[2], o[3]);
      return o;
    };
    std::function<void(int)> session;
    std::unique_ptr<dp::UdpEncryption> enc;
    std::unique_ptr<so::IWriteOnlyOram<uint32_t>> oram;
    std::unique_ptr<wa::IWalrMatrixMultiplication<0>> mm;
    if (kind == kProgram)
      session = [&](int k) {
        SecBit x(bits(a, k, 0, 3), a), y(bits(b, k, 0, 3), b);
        auto z = (x & y) ^ x;
        auto num = [&](int o, int from) {
          std::vector<int64_t> v;
          for (int i = 0; i < 2; i++) {
            int64_t w = 0;
            auto bs = bits(o, k, from + 5 * i, 5);
            for (int j = 0; j < 5; j++) w |= (int64_t)bs[j] << j;
            v.push_back(w);
          }
          return v;
        };
        SecInt p(num(a, 10), a), q(num(b, 10), b);
        auto sum = p + q;
        auto less = p < q;
        sum.mux(less, p).openToParty(reader).getValue();
        (z & x & !y).openToParty(reader).getValue();
      };
    else if (kind == kPermute)
      session = [&](int k) {
        using T = px::Io<bool>;
        auto src = T::in(bits(a, k, 0, 4), a);
        auto p = fbpcf::mpc_std_lib::permuter::AsWaksmanPermuterFactory<bool, 0>(me, 1 - me).create();
        int chooser = flip ? a : b;
        auto r = chooser == me ? p->permute(src, 4, order(chooser, k)) : p->permute(src, 4);
        T::out(r, reader);
      };
    else if (kind == kShuffle)
      session = [&](int k) {
        using T = px::Io<bool>;
        auto src = T::in(bits(a, k, 0, 4), a);
        fbpcf::mpc_std_lib::shuffler::PermuteBasedShufflerFactory<T::Sec> sf(
            me, 1 - me, std::make_unique<fbpcf::mpc_std_lib::permuter::AsWaksmanPermuterFactory<bool, 0>>(me, 1 - me), std::make_unique<fbpcf::engine::util::AesPrgFactory>());
        T::out(sf.create()->shuffle(src, 4), reader);
      };
    else if (kind == kCompact)
      session = [&](int k) {
        auto src = px::Io<bool>::in(bits(a, k, 0, 4), a);
        // two labelled rows of four, the count comes out
        auto l = bits(b, k, 0, 2);
        std::vector<bool> label{l[0], b == me && !l[0], l[1], b == me && !l[1]};
        using P = std::pair<bool, bool>;
        using PS = typename px::su::SecBatchType<P, 0>::type;
        fbpcf::mpc_std_lib::compactor::ShuffleBasedCompactorFactory<bool, bool, 0> cf(
            me, 1 - me,
            std::make_unique<fbpcf::mpc_std_lib::shuffler::PermuteBasedShufflerFactory<PS>>(
                me, 1 - me, std::make_unique<fbpcf::mpc_std_lib::permuter::AsWaksmanPermuterFactory<P, 0>>(me, 1 - me),
                std::make_unique<fbpcf::engine::util::AesPrgFactory>()));
        auto [rows, labels] = cf.create()->compaction(src, px::Io<bool>::in(label, b), 4, true);
        px::Io<bool>::out(rows, reader);
      };
    else if (kind == kOram || kind == kLinear) {
      if (kind == kOram) oram = so::getSecureWriteOnlyOramFactory<uint32_t, 12, 0>(me == a, a, b, *af)->create(4);
      else oram = so::getSecureLinearOramFactory<uint32_t, 0>(me == a, a, b, *af)->create(4);
      session = [&](int k) {
        Prf r{mix(c.fixed) + k};
        std::vector<std::vector<bool>> ix(2, std::vector<bool>(3)), vs(32, std::vector<bool>(3));
        for (int n = 0; n < 3; n++) { // the last one adds the same to the same bucket as the first
          int m = n % 2;
          for (int i = 0; i < 2; i++) ix[i][n] = (r.next() & 1) ^ (me == 0 && c.bit(2, k, 3 * m + i));
          for (int i = 0; i < 32; i++) vs[i][n] = (r.next() & 1) ^ (me == 0 && c.bit(2, k, 50 + 33 * m + i));
        }
        oram->obliviousAddBatch(ix, vs);
        oram->publicRead(k % 4, (reader == a) ? so::IWriteOnlyOram<uint32_t>::Alice : so::IWriteOnlyOram<uint32_t>::Bob);
      };
    } else if (kind == kWalr) {
      uint64_t divisor = 1 << 20;
      mm = wa::OTBasedMatrixMultiplicationFactory<0, uint64_t>(
               me, 1 - me, me == a, divisor, *af, std::make_unique<fbpcf::engine::util::AesPrgFactory>(),
               std::make_unique<wa::util::COTWithRandomMessageFactory>(std::make_unique<Owned>(rcotFactory(g.eng))), mc)
               .create();
      session = [&, divisor](int k) {
        SecBit labels(bits(b, k, 0, 3), b);
        if (me != a) {
          mm->matrixVectorMultiplication(labels, std::vector<double>(2, flip ? c.bit(b, k, 8) / (double)divisor : 0.0));
          return;
        }
        std::vector<std::vector<double>> f;
        for (int n = 0; n < 3; n++) {
          std::vector<double> col;
          for (int j = 0; j < 2; j++) {
            uint64_t x = 0;
            for (int i = 0; i < 30; i++) x |= (uint64_t)c.bit(a, k, 70 * n + 31 * j + i) << i;
            col.push_back(x / (double)divisor);
          }
          f.push_back(col);
        }
        mm->matrixVectorMultiplication(f, labels);
      };
    } else if (kind == kEncrypt) {
      enc = std::make_unique<dp::UdpEncryption>(af->create(1 - me, "udp"));
      if (me == a) enc->prepareToProcessMyData(20);
      else {
        std::vector<uint64_t> picks;
        for (int k = 0; k <= K; k += 3) picks.push_back(2 * k);
        enc->prepareToProcessPeerData(20, picks);
      }
      session = [&](int k) {
        if (me != a) {
          enc->processPeerData(2);
          return enc->processPeerData(2);
        }
        std::vector<std::vector<unsigned char>> rows(2, std::vector<unsigned char>(20));
        for (int n = 0; n < 2; n++)
          for (int i = 0; i < 160; i++) rows[n][i / 8] |= c.bit(a, k, 200 * n + i) << (i % 8);
        // the same rows again are not recognisable either
        for (int again = 0; again < 2; again++) enc->processMyData(rows, {(uint64_t)2 * k, (uint64_t)2 * k + 1});
      };
    } else
      session = [&](int k) {
        auto adapter = ad::getAdapterFactoryWithAsWaksmanBasedShuffler<0>(me == a, me, 1 - me)->create();
        auto o = order(me, k);
        adapter->adapt(std::vector<int32_t>(o.begin(), o.end()));
      };
    auto mark = [&] {
      S.sentAt.emplace_back();
      S.receivedAt.emplace_back();
      for (auto& kv : S.tap->sent) S.sentAt.back()[kv.first] = kv.second.size();
      for (auto& kv : S.tap->received) S.receivedAt.back()[kv.first] = kv.second.size();
    };
    for (int k = 0; k <= K; k++) { // the first one is not looked at
      session(k ? k - 1 : 0);
      mark();
    }
    oram = nullptr;
    mm = nullptr;
    enc = nullptr;
    sch::SchedulerKeeper<0>::deleteEngine();
  });
  dsim::RunOptions ro;
  ro.maxSteps = 50'000'000;
  mustFinish(ro);
  for (int me = 0; me < 2; me++) {
    auto& S = (*seen)[me];
    struct Where {
      std::string channel;
      bool received;
      size_t bit;
    };
    std::map<Vec, Where> view, opened;
    auto Not = [](Vec x) { return Vec{~x.first, ~x.second & 0xffffffff}; };
    auto Xor = [](Vec x, Vec y) { return Vec{x.first ^ y.first, x.second ^ y.second}; };
    std::map<std::string, std::vector<Vec>> seenBits[2]; // sent and received, by channel
    size_t examined = 0;
    for (int dir = 0; dir < 2; dir++)
      for (auto& kv : dir ? S.tap->received : S.tap->sent) {
        auto& at = dir ? S.receivedAt : S.sentAt;
        bool encrypted = kv.first.first.rfind("udp#", 0) == 0;
        auto bytes = [&](int k) {
          std::vector<uint8_t> r;
          for (size_t m = at[k][kv.first]; m < at[k + 1][kv.first]; m++)
            if (!encrypted || kv.second[m].size() != 8) // identifiers are public
              r.insert(r.end(), kv.second[m].begin(), kv.second[m].end());
          return r;
        };
        auto first = bytes(0);
        std::vector<Vec> v(8 * first.size());
        bool aligned = true;
        for (int k = 0; k < K && aligned; k++) {
          auto x = bytes(k);
          aligned = x.size() == first.size();
          if (!aligned) break;
          for (size_t i = 0; i < v.size(); i++)
            if (x[i / 8] >> (i % 8) & 1) (k < 64 ? v[i].first : v[i].second) |= 1ull << (k & 63);
        }
        if (!aligned) { // produced in the background
          dsim::probe("background_channels");
          continue;
        }
        seenBits[dir][kv.first.first] = v;
      }
    // What the shares of the two directions open is masked, too, each value by a
    // mask of its own.
    std::map<Vec, std::vector<Where>> values;
    auto valueAt = [&](const std::string& channel, size_t i) {
      auto s = seenBits[0].find(channel), r = seenBits[1].find(channel);
      if (s == seenBits[0].end() || r == seenBits[1].end() || i >= s->second.size() || i >= r->second.size()) return Vec{0, 0};
      Vec o = Xor(s->second[i], r->second[i]);
      return std::min(o, Not(o));
    };
    for (auto& kv : seenBits[1])
      for (size_t i = 0; i < kv.second.size(); i++) {
        Vec o = valueAt(kv.first, i);
        if (o == Vec{0, 0}) continue;
        values[o].push_back({kv.first, true, i});
        opened.insert({o, {kv.first, true, i}});
        dsim::probe("openings_examined");
      }
    // Each level of a tree opens one bit three times: in the two corrections and in delta.
    auto repeated = [&](Vec o) { return kind == kOram && values[o].size() == 3; };
    for (auto& kv : values)
      if (kv.second.size() > 1 && !repeated(kv.first))
        dsim::fail("opening-reuse", "%s: party %d sees bits %zu of %s and %zu of %s open the same or opposite values in all %d sessions", kindName[kind], me, kv.second[0].bit,
                   kv.second[0].channel.c_str(), kv.second[1].bit, kv.second[1].channel.c_str(), K);
    for (int dir = 0; dir < 2; dir++)
      for (auto& kv : seenBits[dir]) {
        auto& v = kv.second;
        bool encrypted = kv.first.rfind("udp#", 0) == 0, product = kv.first.rfind("walr_matrix_multiplication_traffic", 0) == 0;
        for (size_t i = 0; i < v.size(); i++) {
          int ones = __builtin_popcountll(v[i].first) + __builtin_popcountll(v[i].second);
          bool padding = !ones && !encrypted && !product;
          if (padding) continue;
          DSIM_CHECK(ones >= 10 && ones <= K - 10, "not-masked", "%s: bit %zu of what party %d %s on %s is 1 in %d of %d sessions", kindName[kind], i, me, dir ? "receives" : "sends",
                     kv.first.c_str(), ones, K);
          // The two sides exchange shares of what they open, so a known opened
          // value shows as equal or opposite bits at the same place of the two
          // directions of a channel; anywhere else a mask was used twice.
          Where here{kv.first, (bool)dir, i};
          auto exchanged = [&](const Where& w) { return w.channel == here.channel && w.bit == here.bit && w.received != here.received; };
          auto again = [&](const Where& w) {
            Vec o = valueAt(kv.first, i);
            return w.channel == here.channel && o != Vec{0, 0} && repeated(o) && valueAt(w.channel, w.bit) == o;
          };
          auto it = view.insert({v[i], here}).first;
          bool fresh = it->second.bit == i && it->second.received == (bool)dir && it->second.channel == kv.first;
          if (!fresh && (exchanged(it->second) || again(it->second))) continue;
          auto same = fresh ? view.find({~v[i].first, ~v[i].second & 0xffffffff}) : it;
          if (same != view.end() && (exchanged(same->second) || again(same->second))) continue;
          if (same != view.end())
            dsim::fail("mask-reuse", "%s: in the view of party %d, bits %zu (%s, %s) and %zu (%s, %s) are %s in all %d sessions", kindName[kind], me, i, kv.first.c_str(),
                       dir ? "received" : "sent", same->second.bit, same->second.channel.c_str(), same->second.received ? "received" : "sent",
                       same == it ? "the same" : "opposite", K);
          examined++;
        }
      }
    for (int o = 0; o < 3; o++) {
      if (o == me) continue;
      for (int w = 0; w < 3; w++) {
        Vec t = w < 2 ? coins->v[o][w] : Xor(coins->v[o][0], coins->v[o][1]);
        for (int neg = 0; neg < 2; neg++, t = Not(t)) {
          auto it = view.find(t);
          if (it != view.end())
            dsim::fail("input-visible", "%s: bit %zu of what party %d %s on %s is a private bit of %s in all %d sessions", kindName[kind], it->second.bit, me,
                       it->second.received ? "receives" : "sends", it->second.channel.c_str(), o == 2 ? "the shared input" : "the other party", K);
          auto op = opened.find(std::min(t, Not(t)));
          if (op != opened.end())
            dsim::fail("input-visible", "%s: bit %zu opened on %s is a private bit of %s in all %d sessions", kindName[kind], op->second.bit, op->second.channel.c_str(),
                       o == 2 ? "the shared input" : "the other party", K);
          for (auto& kv : view) {
            auto it = view.find(Xor(kv.first, t));
            if (it != view.end())
              dsim::fail("input-visible", "%s: in the view of party %d, bits %zu (%s, %s) and %zu (%s, %s) give away a private bit of %s in all %d sessions", kindName[kind], me,
                         kv.second.bit, kv.second.channel.c_str(), kv.second.received ? "received" : "sent", it->second.bit, it->second.channel.c_str(),
                         it->second.received ? "received" : "sent", o == 2 ? "the shared input" : "the other party", K);
          }
        }
      }
    }
    if (triples) { // does the one of two differing opened values that a third one equals tell a private bit?
      std::vector<std::pair<Vec, Where>> z(opened.begin(), opened.end());
      std::sort(z.begin(), z.end(), [](auto& x, auto& y) { return std::tie(x.second.channel, x.second.bit) < std::tie(y.second.channel, y.second.bit); });
      std::vector<Vec> targets;
      for (int o = 0; o < 3; o++)
        if (o != me)
          for (auto& t : {coins->v[o][0], coins->v[o][1], Xor(coins->v[o][0], coins->v[o][1])}) targets.push_back(t);
      const size_t near = 40;
      size_t triples = 0;
      for (size_t x = 0; x < z.size(); x++)
        for (size_t y = x < near ? 0 : x - near; y < x; y++) {
          Vec m = Xor(z[x].first, z[y].first);
          if (__builtin_popcountll(m.first) + __builtin_popcountll(m.second) < 30) continue;
          for (size_t w = x < near ? 0 : x - near; w < std::min(z.size(), x + near); w++, triples++)
            if (w != x && w != y) for (size_t t = 0; t < targets.size(); t++) {
              Vec d = Xor(Xor(z[w].first, z[x].first), targets[t]);
              d.first &= m.first;
              d.second &= m.second;
              if ((d.first || d.second) && d != m) continue;
              dsim::fail("input-visible-half", "%s: bits %zu, %zu and %zu opened on %s give away a private bit of %s whenever the first two differ", kindName[kind],
                         z[x].second.bit, z[y].second.bit, z[w].second.bit, z[w].second.channel.c_str(), t / 3 + (t / 3 >= (size_t)me) == 2 ? "the shared input" : "the other party");
            }
        }
      // and no three of them add up to one
      std::unordered_map<uint64_t, std::pair<size_t, size_t>> sums;
      for (size_t w = 0; w < z.size(); w++)
        for (size_t t = 0; t < targets.size(); t++)
          for (Vec s : {Xor(z[w].first, targets[t]), Not(Xor(z[w].first, targets[t]))}) sums[s.first] = {w, t};
      for (size_t x = 0; x < z.size(); x++)
        for (size_t y = 0; y < x; y++) {
          Vec s = Xor(z[x].first, z[y].first);
          auto it = sums.find(s.first);
          if (it == sums.end()) continue;
          auto [w, t] = it->second;
          Vec d = Xor(s, Xor(z[w].first, targets[t]));
          if (d.first != 0 && d != Not({0, 0})) continue;
          if (d.second != (d.first & 0xffffffff)) continue;
          dsim::fail("input-visible", "%s: bits %zu, %zu and %zu opened add up to a private bit of %s in all %d sessions", kindName[kind], z[x].second.bit, z[y].second.bit, z[w].second.bit,
                     t / 3 + (t / 3 >= (size_t)me) == 2 ? "the shared input" : "the other party", K);
        }
      dsim::probe("opened_triples_examined", triples);
    }
    dsim::probe("view_bits_examined", examined);
  }
  dsim::probe(kindName[kind]);
}
