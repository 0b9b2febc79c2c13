// C17: product of one party's features with secret labels.
#include <cmath>
#include <set>
#include "game.h"
#include "tap.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
using namespace hx;
namespace lx {
namespace wa = fbpcf::mpc_std_lib::walr;
using SecBit = fr::Bit<true, 0, true>;
class Owned final : public ot::IRandomCorrelatedObliviousTransferFactory {
 public:
  explicit Owned(std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f) : f_(std::move(f)) {}
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i d, std::unique_ptr<IPartyCommunicationAgent> a) override {
    return f_->create(d, std::move(a));
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<IPartyCommunicationAgent> a) override { return f_->create(std::move(a)); }

 private:
  std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f_;
};

struct Product {
  size_t features = 1;
  std::vector<bool> labels;
  uint64_t data = 0;
  int style = 0; // of the features
  bool noise = false;
  int form = 0; // how the labels come about
  std::vector<std::vector<double>> f; // column per label
  std::vector<double> dp;
};
struct Plan {
  int owner = 0;
  bool narrow = false;
  uint64_t divisor = 1;
  EngCfg rcot;
  std::vector<Product> ps;
};

static double drawFeature(Prf& g, int style, double limit) {
  double u = (double)(g.next() >> 11) / 9007199254740992.0; // [0,1)
  switch (style) {
    case 0: return (2 * u - 1) * std::min(limit, 4.0);
    case 1: return (2 * u - 1) * limit;
    case 2: return 0;
    case 3: return g.below(2) ? limit * u : -limit * u / 1000;
    default: return std::trunc((2 * u - 1) * std::min(limit, 100.0));
  }
}
// a bit vector with the given content, in one of several shapes
static SecBit makeLabels(int me, const Product& p, int owner) {
  size_t n = p.labels.size();
  Prf g{p.data ^ 77};
  auto in = [&](std::vector<bool> v, int party) { return SecBit(v, party); };
  switch (p.form) {
    case 0: return in(p.labels, 1 - owner);
    case 1: { // result of a computation, still pending on the deferring scheduler
      std::vector<bool> a(n), b(n);
      for (size_t k = 0; k < n; k++) a[k] = g.next() & 1, b[k] = a[k] ^ p.labels[k];
      return in(a, owner) ^ in(b, 1 - owner);
    }
    case 2: {
      std::vector<bool> a(n), b(n);
      for (size_t k = 0; k < n; k++) a[k] = p.labels[k] || (g.next() & 1), b[k] = p.labels[k] || !a[k];
      for (size_t k = 0; k < n; k++)
        if (!p.labels[k]) b[k] = a[k] ? false : (g.next() & 1);
      return in(a, owner) & in(b, 1 - owner);
    }
    case 3: { // collected from several batches
      size_t cut = 1 + g.below(n);
      if (cut >= n) return in(p.labels, owner);
      auto a = in({p.labels.begin(), p.labels.begin() + cut}, owner);
      return a.batchingWith({in({p.labels.begin() + cut, p.labels.end()}, 1 - owner)});
    }
    default: { // shares obtained elsewhere
      std::vector<bool> a(n);
      for (size_t k = 0; k < n; k++) a[k] = (g.next() & 1) ^ (me == 0 ? p.labels[k] : false);
      return SecBit(typename SecBit::ExtractedBit(a));
    }
  }
}

template <class FP>
static void play(int me, IPartyCommunicationAgentFactory& af, std::shared_ptr<Tap> tap, MC mc, const Plan& pl, const std::string& what,
                 std::shared_ptr<std::map<std::string, std::pair<uint64_t, uint64_t>>> traffic, bool quiet) {
  bool mine = me == pl.owner;
  auto ledger = std::make_shared<Ledger>();
  LedgerFactory counted(me, std::make_unique<BorrowedFactory>(af), ledger);
  bool stats = dsim::param("stats", 0);
  auto f = std::make_unique<wa::OTBasedMatrixMultiplicationFactory<0, FP>>(
      me, 1 - me, mine, pl.divisor, stats ? (IPartyCommunicationAgentFactory&)counted : af, std::make_unique<fbpcf::engine::util::AesPrgFactory>(),
      std::make_unique<wa::util::COTWithRandomMessageFactory>(std::make_unique<Owned>(rcotFactory(pl.rcot))), mc);
  auto mm = f->create();
  uint64_t cols = 0, words = 0, results = 0;
  std::pair<uint64_t, uint64_t> engine{0, 0};
  std::vector<bool> choices;
  for (size_t i = 0; i < pl.ps.size(); i++) {
    auto& p = pl.ps[i];
    auto labels = makeLabels(me, p, pl.owner);
    auto share = labels.extractBit().getValue();
    choices.insert(choices.end(), share.begin(), share.end());
    auto before = sch::SchedulerKeeper<0>::getTrafficStatistics();
    if (mine) {
      auto got = mm->matrixVectorMultiplication(p.f, labels);
      DSIM_CHECK(got.size() == p.features, "wrong-shape", "%s: %zu products for %zu features", what.c_str(), got.size(), p.features);
      for (size_t j = 0; j < p.features; j++) {
        long double want = p.dp[j], mag = std::fabs(p.dp[j]);
        for (size_t k = 0; k < p.labels.size(); k++)
          if (p.labels[k]) want += p.f[k][j], mag += std::fabs(p.f[k][j]);
        long double tol = (p.labels.size() + 2) / (long double)pl.divisor + mag * 1e-12L;
        DSIM_CHECK(std::fabs((double)(got[j] - want)) <= tol, "wrong-product",
                   "%s: product %zu (%zu labels, %zu features%s): feature %zu is %.12g, expected %.12Lg within %.3Lg", what.c_str(), i, p.labels.size(), p.features,
                   p.noise ? ", with noise" : "", j, got[j], want, tol);
      }
      dsim::probe("products_verified", p.features);
    } else
      mm->matrixVectorMultiplication(labels, p.dp);
    auto after = sch::SchedulerKeeper<0>::getTrafficStatistics();
    engine.first += after.first - before.first;
    engine.second += after.second - before.second;
    cols += p.labels.size();
    words += p.labels.size() * p.features;
    results += p.features;
  }
  // what the channels carried: both ends agree; and no message shows features, labels or the result
  std::string mykey = strf("%d", me), other = strf("%d", 1 - me);
  auto t = mm->getNonEngineTrafficStatistics();
  (*traffic)[mykey] = t;
  if (stats) {
    DSIM_CHECK(t.first == ledger->sent && t.second == ledger->received, "product-traffic",
               "%s: party %d reports %llu/%llu bytes sent/received, %llu/%llu crossed its channels", what.c_str(), me, (unsigned long long)t.first,
               (unsigned long long)t.second, (unsigned long long)ledger->sent, (unsigned long long)ledger->received);
    if (quiet) { // no background producers
      auto total = mm->getTrafficStatistics();
      DSIM_CHECK(total.first == t.first + engine.first && total.second == t.second + engine.second, "product-traffic",
                 "%s: party %d reports %llu/%llu bytes in total, %llu/%llu of its own and %llu/%llu of its engine were counted", what.c_str(), me,
                 (unsigned long long)total.first, (unsigned long long)total.second, (unsigned long long)t.first, (unsigned long long)t.second,
                 (unsigned long long)engine.first, (unsigned long long)engine.second);
    }
    auto m = mc->aggregateMetrics();
    auto is = [&](const char* key, uint64_t want) {
      DSIM_CHECK(m.count(std::string("m.") + key) && (uint64_t)m[std::string("m.") + key].asInt() == want, "product-metrics",
                 "%s: party %d: %s is %lld instead of %llu", what.c_str(), me, key,
                 m.count(std::string("m.") + key) ? (long long)m[std::string("m.") + key].asInt() : -1, (unsigned long long)want);
    };
    is("ot_messages_used", cols);
    is(mine ? "columns_sent" : "columns_received", cols);
    is(mine ? "features_sent" : "features_received", words);
    is(mine ? "columns_received" : "columns_sent", pl.ps.size());
    is(mine ? "features_received" : "features_sent", results);
    dsim::probe("product_traffic_verified");
  }
  if (traffic->count(other)) {
    auto o = (*traffic)[other];
    DSIM_CHECK(o.first == t.second && o.second == t.first, "traffic", "%s: one side sent %llu and received %llu bytes, the other received %llu and sent %llu", what.c_str(),
               (unsigned long long)t.first, (unsigned long long)t.second, (unsigned long long)o.second, (unsigned long long)o.first);
  }
  if (pl.rcot.rcot != kDummyRcot) // the insecure stand-in masks nothing
  for (auto& kv : tap->sent) {
    if (kv.first.first.rfind("walr_matrix_multiplication_traffic", 0) == 0) {
      std::set<FP> seen;
      size_t n = 0, clash = 0, zero = 0;
      for (auto& m : kv.second)
        for (size_t k = 0; k + sizeof(FP) <= m.size(); k += sizeof(FP)) {
          FP x;
          memcpy(&x, &m[k], sizeof(FP));
          n++;
          if (!x) zero++;
          if (!seen.insert(x).second) clash++;
        }
      DSIM_CHECK(n == (mine ? words : results), "traffic", "%s: %zu words sent, expected %llu", what.c_str(), n, (unsigned long long)(mine ? words : results));
      // fresh masks: 64-bit words never recur; 32-bit ones hardly ever
      if (sizeof(FP) == 8 || n < 20000)
        DSIM_CHECK(clash <= (sizeof(FP) == 8 ? 0 : 3) && zero <= (sizeof(FP) == 8 ? 0 : 1), "not-masked", "%s: of %zu words sent to the other party %zu recur and %zu are zero",
                   what.c_str(), n, clash, zero);
      dsim::probe("masked_words", n);
    }
    if (!mine && kv.first.first.rfind("walr_matrix_multiplication_cotWRM", 0) == 0) {
      std::vector<bool> bits;
      size_t at = 0, eq = 0;
      for (auto& m : kv.second) {
        size_t i = &m - &kv.second[0];
        size_t n = i < pl.ps.size() ? pl.ps[i].labels.size() : 0;
        for (size_t k = 0; k < n && k / 8 < m.size(); k++) bits.push_back(m[k / 8] >> (7 - k % 8) & 1);
      }
      DSIM_CHECK(bits.size() == choices.size(), "traffic", "%s: %zu choices announced for %zu labels", what.c_str(), bits.size(), choices.size());
      for (; at < bits.size(); at++) eq += bits[at] == choices[at];
      if (bits.size() >= 64)
        DSIM_CHECK(eq > 0 && eq < bits.size(), "not-masked", "%s: the choices announced to the other party are the %slabel shares", what.c_str(), eq ? "" : "inverted ");
      dsim::probe("masked_choices", bits.size());
    }
  }
}
} // namespace lx
using namespace lx;

DSIM_HARNESS(walr) {
  GameCfg g = drawGame(2);
  g.eng.n = 2;
  Net net = drawNet();
  Plan pl;
  pl.owner = dsim::wl("feature_owner", 2);
  pl.narrow = dsim::wlp("narrow", 3000);
  static const int sh64[] = {30, 20, 10, 1, 40, 45}, sh32[] = {10, 4, 1, 16};
  int sh = pl.narrow ? sh32[dsim::wl("divisor", 4)] : sh64[dsim::wl("divisor", 6)];
  pl.divisor = (1ull << sh) - (dsim::dataRand() % 3 && sh > 1 ? dsim::dataRand() % (1ull << (sh - 1)) : 0);
  pl.rcot.rcot = dsim::wl("walr_rcot", 8) ? dsim::wl("walr_rcot2", 2) : dsim::wlp("np", 400) ? 2 : 4;
  if (pl.rcot.rcot == 1) drawExt(pl.rcot);
  int np = 1 + dsim::wlz("products", 3, 5000);
  std::string list;
  double limit = std::ldexp(1.0, (pl.narrow ? 31 : 63)) / pl.divisor / 2; // of the sum
  for (int i = 0; i < np; i++) {
    Product p;
    static const int fs[] = {1, 2, 3, 8, 17, 64, 100, 150}, ls[] = {1, 2, 3, 8, 9, 40, 70, 130, 200};
    p.features = fs[dsim::wl("features", 8)];
    size_t n = ls[dsim::wl("labels", 9)];
    if (p.features * n > 6000) n = 6000 / p.features;
    if (size_t x = drawLarge(2000, 8192)) {
      if (dsim::wl("large_side", 3)) n = x, p.features = 1 + dsim::dataRand() % std::max<size_t>(1, std::min<size_t>(8, 16000 / n));
      else p.features = x, n = 1 + dsim::dataRand() % std::max<size_t>(1, std::min<size_t>(8, 16000 / x));
    }
    int lk = dsim::wl("label_kind", 4); // mixed, mixed, none, all
    for (size_t k = 0; k < n; k++) p.labels.push_back(lk == 2 ? false : lk == 3 ? true : dsim::dataRand() & 1);
    p.style = dsim::wl("style", 5);
    p.form = dsim::wl("form", 5);
    p.noise = dsim::wlp("noise", 3000);
    p.data = dsim::dataRand();
    Prf r{p.data};
    double per = limit / (n + 1);
    p.f.assign(n, std::vector<double>(p.features));
    for (auto& c : p.f)
      for (auto& x : c) x = drawFeature(r, p.style, per);
    p.dp.assign(p.features, 0.0);
    if (p.noise)
      for (auto& x : p.dp) x = drawFeature(r, dsim::dataRand() % 5, per);
    list += strf(" [%zu labels x %zu features, form %d%s]", n, p.features, p.form, p.noise ? ", noise" : "");
    pl.ps.push_back(p);
  }
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  std::string what = strf("%s, %s-bit fixed point, divisor %llu, %s transfer", g.desc().c_str(), pl.narrow ? "32" : "64", (unsigned long long)pl.divisor, rcotName(pl.rcot.rcot));
  dsim::note(what + ", " + name(net) + " transport," + list);
  auto traffic = std::make_shared<std::map<std::string, std::pair<uint64_t, uint64_t>>>();
  dsim::partyGlobal(keeperSlot(), sizeof(SchedPtr));
  auto cl = std::make_shared<Cluster>(2, net);
  cl->timeoutSec = 60;
  addParties(2, [=](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
    auto tap = std::make_shared<Tap>();
    std::unique_ptr<IPartyCommunicationAgentFactory> af = std::make_unique<TapFactory>(cl->factory(me, mc), tap);
    fr::MpcGame<0> game(makeScheduler(g, me, *af, mc));
    if (pl.narrow) play<uint32_t>(me, *af, tap, mc, pl, what, traffic, !g.eng.tuples);
    else play<uint64_t>(me, *af, tap, mc, pl, what, traffic, !g.eng.tuples);
    sch::SchedulerKeeper<0>::deleteEngine();
  });
  dsim::RunOptions ro;
  ro.maxSteps = 20'000'000;
  mustFinish(ro);
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
}
