// Correlated randomness below the engine: tuples (C05), oblivious transfer (C06), pseudo-random streams (C13).
#include <unordered_set>
#include "engine.h"
#include "tap.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/EmpShRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/DummyProductShareGeneratorFactory.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
using namespace hx;

namespace {
// windows of 128 bits seen so far; a window that recurs means material was handed out twice
struct Windows {
  std::unordered_map<uint64_t, std::pair<uint64_t, size_t>> seen; // hash of 128 bits -> (second hash, position)
  size_t pos = 0;
  // bits of one contiguous stretch
  void add(const std::vector<bool>& b, const char* what, int who, size_t step = 1) {
    if (b.size() < 128) return;
    unsigned __int128 w = 0;
    for (size_t i = 0; i < b.size(); i++) {
      w = (w << 1) | (unsigned)b[i];
      if (i < 127 || (i + 1) % step) continue;
      uint64_t lo = (uint64_t)w, hi = (uint64_t)(w >> 64);
      uint64_t k = mix(lo ^ mix(hi));
      auto r = seen.emplace(k, std::make_pair(mix(hi + 7 * mix(lo)), pos + i));
      if (!r.second && r.first->second.first == mix(hi + 7 * mix(lo)))
        dsim::fail("randomness-reused", "party %d: the 128 bits of %s ending at %zu equal the ones ending at %zu", who, what, pos + i,
                   r.first->second.second);
    }
    pos += b.size();
  }
};
// the same for 16-byte windows of byte strings, faster
struct ByteWindows {
  std::vector<uint8_t> buf;
  std::vector<uint32_t> slot; // end positions, open addressing
  size_t used = 0;
  void put(uint32_t end, uint64_t h) {
    for (size_t i = h & (slot.size() - 1);; i = (i + 1) & (slot.size() - 1))
      if (!slot[i]) {
        slot[i] = end;
        return;
      }
  }
  uint64_t hashAt(uint32_t end) {
    uint64_t a, b;
    memcpy(&a, &buf[end - 16], 8);
    memcpy(&b, &buf[end - 8], 8);
    return mix(a ^ mix(b));
  }
  void add(const std::vector<uint8_t>& m, const std::string& what, int who) {
    size_t base = buf.size();
    buf.insert(buf.end(), m.begin(), m.end());
    for (size_t e = base + 16; e <= buf.size(); e++) {
      if (2 * ++used >= slot.size()) {
        std::vector<uint32_t> old;
        old.swap(slot);
        slot.resize(std::max<size_t>(4096, 4 * used));
        for (auto x : old)
          if (x) put(x, hashAt(x));
      }
      uint64_t h = hashAt(e);
      for (size_t i = h & (slot.size() - 1);; i = (i + 1) & (slot.size() - 1)) {
        if (!slot[i]) {
          slot[i] = e;
          break;
        }
        if (!memcmp(&buf[slot[i] - 16], &buf[e - 16], 16))
          dsim::fail("randomness-reused", "party %d: 16 bytes of %s ending at %zu equal the ones ending at %u", who, what.c_str(), e, slot[i]);
      }
    }
  }
};
void balanced(const std::vector<bool>& b, const char* what, int who) {
  size_t n = b.size(), ones = 0;
  if (n < 256) return;
  for (bool x : b) ones += x;
  double d = (double)ones - n / 2.0;
  // 8 standard deviations
  DSIM_CHECK(d * d <= 64.0 * n / 4, "randomness-biased", "party %d: %zu of %zu bits of %s are set", who, ones, n, what);
}

std::vector<bool> bitsOf(const std::vector<uint8_t>& v) {
  std::vector<bool> b;
  for (auto x : v)
    for (int k = 0; k < 8; k++) b.push_back((x >> k) & 1);
  return b;
}
// neighbouring bits of what is sent are unrelated
void unrelated(const std::vector<bool>& b, const std::string& what, int who) {
  size_t n = b.size(), eq = 0;
  if (n < 256) return;
  for (size_t i = 1; i < n; i++) eq += b[i] == b[i - 1];
  double d = (double)eq - (n - 1) / 2.0;
  DSIM_CHECK(d * d <= 64.0 * n / 4, "randomness-biased", "party %d: %zu of %zu neighbouring bits of %s are equal", who, eq, n, what.c_str());
}

struct Req {
  int kind; // 0 bit, 1 composite, 2 both, 3 integer
  uint32_t n;
  std::map<size_t, uint32_t> comp;
};
struct Got {
  std::vector<bool> a, b, c;                                      // bit tuples
  std::map<size_t, std::vector<std::vector<bool>>> ca;             // composite: per size list of {a, b..., c...}
  std::vector<uint64_t> ia, ib, ic;
};
} // namespace

DSIM_HARNESS(tuples) {
  EngCfg cfg = drawEng(4);
  auto kind = drawNet();
  bool ints = cfg.tuples == 2 ? dsim::wlp("ints", 4000) : dsim::wlp("ints", 800);
  bool fault = dsim::param("fault", 0) && cfg.tuples;
  if (ints && cfg.tuples == 1) cfg.tuples = 2;
  if (ints) cfg.buffer = std::min<size_t>(cfg.buffer, 12);
  if (kind == Net::Socket || kind == Net::Tls) dsim::drawNetConfig();
  dsim::drawSchedPolicy();
  int dummyPsg = cfg.tuples == 2 && dsim::wlp("dummy_psg", 700);
  int nreq = 1 + dsim::wl("requests", 8);
  std::vector<Req> reqs;
  uint32_t left = ints ? 40 : cfg.rcot == 2 ? 300 : 2500;
  bool big = !ints && cfg.rcot < 2 && dsim::wlp("big", 300);
  if (big) {
    static const size_t bb[] = {3000, 5000, 8192, 12000, 2048};
    cfg.buffer = bb[dsim::wl("big_buffer", 5)];
    left = 12000;
    dsim::probe("large_buffers");
  }
  for (int i = 0; i < nreq; i++) {
    Req r;
    r.kind = ints ? 3 : cfg.tuples == 2 ? 0 : dsim::wl("req_kind", 3);
    static const uint32_t sz[] = {0, 1, 3, 17, 64, 65, 200, 700};
    r.n = std::min<uint32_t>(left, dsim::wlp("exact_buffer", big ? 5000 : 1500) ? cfg.buffer : (big ? 6 : 1) * sz[dsim::wl("req_size", ints ? 5 : 8)]);
    if (r.kind != 1) left -= r.n;
    if (r.kind == 1 || r.kind == 2) {
      int m = dsim::wl("comp_kinds", 4);
      for (int k = 0; k < m; k++) {
        static const size_t cs[] = {1, 2, 8, 127, 128, 129, 130, 300};
        uint32_t cnt = std::min<uint32_t>(left, dsim::wl("comp_count", 20));
        size_t size = cs[dsim::wl("comp_size", 8)];
        if (big && size < 128) cnt = std::min<uint32_t>(left, cnt * 100);
        left -= cnt;
        r.comp[size] = cnt;
      }
    }
    reqs.push_back(r);
  }
  std::vector<int> gap;
  for (int i = 0; i < nreq * cfg.n; i++) gap.push_back(dsim::wlp("pause", 2000) ? 1 + dsim::wl("pause_ms", 50) : 0);
  dsim::note(strf("%s%s over %s, %d requests%s", cfg.desc().c_str(), dummyPsg ? " (dummy product shares)" : "", name(kind), nreq,
             ints ? ", integers" : ""));
  if (fault) {
    dsim::setFaultRate("net_link_lost", 1 + dsim::wl("fault_rate", 20));
    dsim::setFaultBudget(1);
  }
  auto cl = std::make_shared<Cluster>(cfg.n, kind);
  auto got = std::make_shared<std::vector<Got>>(cfg.n);
  auto done = std::make_shared<std::vector<int>>(cfg.n, 0);
  auto body = [=](int me) {
    auto f = cl->factory(me);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("t");
    std::unique_ptr<tg::ITupleGenerator> g;
    std::unique_ptr<tg::IArithmeticTupleGenerator> ag;
    auto psg = [&]() -> std::shared_ptr<tg::IProductShareGeneratorFactory> {
      if (dummyPsg) return std::make_shared<tg::insecure::DummyProductShareGeneratorFactory>(*f);
      return productFactory(cfg, me, *f);
    };
    if (ints) {
      if (cfg.tuples == 0)
        ag = tg::insecure::DummyArithmeticTupleGeneratorFactory().create();
      else
        ag = tg::ArithmeticTupleGeneratorFactory(psg(), std::make_unique<fbpcf::engine::util::AesPrgFactory>(), (int)cfg.buffer, me, cfg.n)
                 .create();
    } else if (cfg.tuples == 2 && dummyPsg)
      g = tg::TupleGeneratorFactory(psg(), std::make_unique<fbpcf::engine::util::AesPrgFactory>(), (int)cfg.buffer, me, cfg.n, mc).create();
    else
      g = boolTupleFactory(cfg, me, *f, mc)->create();
    auto& out = (*got)[me];
    auto takeBits = [&](std::vector<tg::ITupleGenerator::BooleanTuple> t, size_t n) {
      DSIM_CHECK(t.size() == n, "wrong-count", "%zu bit tuples asked for, %zu delivered", n, t.size());
      for (auto& x : t) {
        out.a.push_back(x.getA());
        out.b.push_back(x.getB());
        out.c.push_back(x.getC());
      }
    };
    auto takeComp = [&](std::map<size_t, std::vector<tg::ITupleGenerator::CompositeBooleanTuple>> t, const std::map<size_t, uint32_t>& w) {
      for (auto& kv : w) {
        size_t have = t.count(kv.first) ? t[kv.first].size() : 0;
        DSIM_CHECK(have == kv.second, "wrong-count", "%u composite tuples of size %zu asked for, %zu delivered", kv.second, kv.first, have);
        for (auto& x : t[kv.first]) {
          DSIM_CHECK(x.getB().size() == kv.first && x.getC().size() == kv.first, "wrong-size", "composite tuple of size %zu has %zu/%zu bits",
                     kv.first, x.getB().size(), x.getC().size());
          std::vector<bool> v{x.getA()};
          v.insert(v.end(), x.getB().begin(), x.getB().end());
          v.insert(v.end(), x.getC().begin(), x.getC().end());
          out.ca[kv.first].push_back(v);
        }
      }
    };
    for (size_t i = 0; i < reqs.size(); i++) {
      auto& r = reqs[i];
      if (int p = gap[i * cfg.n + me]) dsim::sleepNs(p * 1000000ull);
      switch (r.kind) {
        case 0: takeBits(g->getBooleanTuple(r.n), r.n); break;
        case 1: takeComp(g->getCompositeTuple(r.comp), r.comp); break;
        case 2: {
          auto t = g->getNormalAndCompositeBooleanTuples(r.n, r.comp);
          takeBits(std::move(t.first), r.n);
          takeComp(std::move(t.second), r.comp);
          break;
        }
        default:
          for (auto& x : ag->getIntegerTuple(r.n)) {
            out.ia.push_back(x.getA());
            out.ib.push_back(x.getB());
            out.ic.push_back(x.getC());
          }
      }
    }
    if (g && dsim::param("stats", 0)) {
      g.reset();
      uint64_t bits = 0, cs[2] = {0, 0}, mini[2] = {0, 0};
      for (auto& r : reqs) {
        if (r.kind != 1) bits += r.n;
        if (r.kind)
          for (auto& kv : r.comp) cs[kv.first > 128] += kv.second, mini[kv.first > 128] += kv.second * kv.first;
      }
      auto m = mc->aggregateMetrics();
      auto is = [&](const char* what, uint64_t want) {
        auto key = std::string("t.") + what;
        auto v = m.count(key) ? &m[key] : nullptr;
        DSIM_CHECK(v, "missing-metric", "%s is not reported", what);
        DSIM_CHECK((uint64_t)v->asInt() == want, "tuple-count", "party %d: %s is %lld instead of %llu", me, what, (long long)v->asInt(),
                   (unsigned long long)want);
      };
      is("boolean_tuples_consumed", bits);
      is("composite_tuples_requested", cs[0] + cs[1]);
      is("composite_tuples_without_expansion_requested", cs[0]);
      is("composite_tuples_requiring_expansion_requested", cs[1]);
      is("mini_tuples_without_expansion_requested", mini[0]);
      is("mini_tuples_requiring_expansion_requested", mini[1]);
      uint64_t made = m["t.boolean_tuples_generated"].asInt();
      DSIM_CHECK(made >= bits && m["t.boolean_tuples_unused"].asInt() == (int64_t)(made - bits), "tuple-count",
                 "party %d: %llu bit tuples generated, %llu consumed, %lld unused", me, (unsigned long long)made, (unsigned long long)bits,
                 (long long)m["t.boolean_tuples_unused"].asInt());
      if (cfg.tuples)
        DSIM_CHECK(made <= bits + 2 * cfg.buffer, "tuple-count",
                   "party %d: %llu bit tuples generated in portions of %zu for %llu consumed", me, (unsigned long long)made, cfg.buffer,
                   (unsigned long long)bits);
      dsim::probe("tuple_counts_verified");
    }
    g.reset();
    ag.reset();
    (*done)[me] = 1;
  };
  if (!fault) {
    addParties(cfg.n, body);
  } else {
    for (int i = 0; i < cfg.n; i++)
      dsim::addParty(i, [=] {
        try {
          body(i);
        } catch (const std::exception&) {
          DSIM_CHECK(dsim::faultsInjected() > 0, "unexpected-error", "party %d failed without a fault", i);
          dsim::probe("party_reported_failure");
        }
      });
  }
  mustFinish();
  for (int i = 0; i < cfg.n; i++)
    if (!(*done)[i]) return;
  // the k-th items handed to the parties belong together
  auto& G = *got;
  size_t nb = G[0].a.size();
  for (size_t k = 0; k < nb; k++) {
    bool a = 0, b = 0, c = 0;
    for (auto& x : G) a ^= x.a.at(k), b ^= x.b.at(k), c ^= x.c.at(k);
    DSIM_CHECK((a && b) == c, "bad-tuple", "bit tuple %zu: %d * %d gives %d", k, a, b, c);
  }
  size_t nc = 0;
  for (auto& kv : G[0].ca)
    for (size_t k = 0; k < kv.second.size(); k++, nc++) {
      size_t m = kv.first;
      std::vector<bool> s(2 * m + 1);
      for (auto& x : G)
        for (size_t j = 0; j < s.size(); j++) s[j] = s[j] ^ x.ca.at(m).at(k)[j];
      for (size_t j = 0; j < m; j++)
        DSIM_CHECK((s[0] && s[1 + j]) == s[1 + m + j], "bad-tuple", "composite tuple %zu of size %zu, element %zu: %d * %d gives %d", k, m, j,
                   (int)s[0], (int)s[1 + j], (int)s[1 + m + j]);
    }
  for (size_t k = 0; k < G[0].ia.size(); k++) {
    uint64_t a = 0, b = 0, c = 0;
    for (auto& x : G) a += x.ia.at(k), b += x.ib.at(k), c += x.ic.at(k);
    DSIM_CHECK(a * b == c, "bad-tuple", "integer tuple %zu is no product", k);
  }
  if (nb) dsim::probe("bit_tuples", nb);
  if (nc) dsim::probe("composite_tuples", nc);
  if (G[0].ia.size()) dsim::probe("integer_tuples", G[0].ia.size());
  if (cfg.tuples == 0 || dummyPsg) return;
  // never handed out twice, and random from the point of view of each party
  // (shares of c are related between parties: they add up to the product)
  Windows all;
  for (int i = 0; i < cfg.n; i++) {
    auto& x = G[i];
    all.add(x.a, "a", i);
    all.add(x.b, "b", i);
    Windows own;
    own.add(x.c, "c", i);
    balanced(x.a, "a", i);
    balanced(x.b, "b", i);
    balanced(x.c, "c", i);
    std::vector<bool> ca, cb, cc;
    for (auto& kv : x.ca)
      for (auto& v : kv.second) {
        ca.push_back(v[0]);
        cb.insert(cb.end(), v.begin() + 1, v.begin() + 1 + kv.first);
        cc.insert(cc.end(), v.begin() + 1 + kv.first, v.end());
      }
    all.add(ca, "composite a", i);
    all.add(cb, "composite b", i);
    own.add(cc, "composite c", i);
    balanced(ca, "composite a", i);
    balanced(cb, "composite b", i);
    balanced(cc, "composite c", i);
    std::unordered_set<uint64_t> seen;
    for (auto* v : {&x.ia, &x.ib, &x.ic})
      for (uint64_t w : *v) DSIM_CHECK(seen.insert(w).second, "randomness-reused", "party %d: an integer share occurs twice", i);
  }
}

// shares of products of the two parties' inputs, with inputs chosen here
DSIM_HARNESS(psg) {
  EngCfg cfg = drawEng(2);
  cfg.tuples = 2;
  cfg.n = 2;
  if (!dsim::wlp("keep_rcot", 9000)) cfg.rcot = 2;
  auto kind = drawNet();
  if (kind != Net::InMem) dsim::drawNetConfig();
  dsim::drawSchedPolicy();
  static const size_t bufs[] = {64, 1, 16, 33, 128, 1000, 5};
  cfg.buffer = bufs[dsim::wl("prg_buffer", 7)]; // of the generator's stream
  bool ints = dsim::wlp("ints", 3000);
  int calls = 1 + dsim::wl("calls", 6);
  struct Call { size_t n; int pl[2], pr[2]; uint64_t d; };
  std::vector<Call> plan;
  for (int i = 0; i < calls; i++) {
    static const size_t sz[] = {64, 1, 7, 128, 300, 512, 1000, 0};
    static const size_t isz[] = {1, 2, 3, 5, 8, 12, 1, 0};
    Call c{ints ? isz[dsim::wl("psg_size", 8)] : sz[dsim::wl("psg_size", 8)], {}, {}, dsim::dataRand()};
    if (!ints && cfg.rcot == 0)
      if (size_t x = drawLarge(300, 20000)) c.n = x;
    for (int q = 0; q < 2; q++) c.pl[q] = dsim::wl("left_pattern", 3), c.pr[q] = dsim::wl("right_pattern", 3);
    plan.push_back(c);
  }
  auto in = [=](const Call& c, int me, bool right, size_t k) -> uint64_t {
    int p = right ? c.pr[me] : c.pl[me];
    return p == 1 ? 0 : p == 2 ? ~0ull : mix(c.d + 4 * k + 2 * right + me);
  };
  dsim::note(strf("product shares of %s, %s, stream buffer %zu, %d calls over %s", ints ? "integers" : "bits", rcotName(cfg.rcot), cfg.buffer,
                  calls, name(kind)));
  auto cl = std::make_shared<Cluster>(2, kind);
  auto out = std::make_shared<std::vector<std::vector<std::vector<uint64_t>>>>(2);
  std::vector<std::shared_ptr<Tap>> taps{std::make_shared<Tap>(), std::make_shared<Tap>()};
  addParties(2, [=](int me) {
    auto f = std::make_unique<TapFactory>(cl->factory(me), taps[me]);
    auto g = productFactory(cfg, me, *f)->create(1 - me);
    for (auto& c : plan) {
      std::vector<uint64_t> got;
      if (ints) {
        std::vector<uint64_t> l, r;
        for (size_t k = 0; k < c.n; k++) l.push_back(in(c, me, false, k)), r.push_back(in(c, me, true, k));
        got = g->generateIntegerProductShares(l, r);
      } else {
        std::vector<bool> l, r;
        for (size_t k = 0; k < c.n; k++) l.push_back(in(c, me, false, k) & 1), r.push_back(in(c, me, true, k) & 1);
        for (bool x : g->generateBooleanProductShares(l, r)) got.push_back(x);
      }
      DSIM_CHECK(got.size() == c.n, "wrong-count", "%zu products asked for, %zu delivered", c.n, got.size());
      (*out)[me].push_back(got);
    }
  });
  mustFinish();
  Windows w[2];
  std::unordered_set<uint64_t> seen[2];
  std::vector<bool> all[2];
  for (size_t q = 0; q < plan.size(); q++) {
    auto& c = plan[q];
    for (size_t k = 0; k < c.n; k++) {
      uint64_t s0 = (*out)[0][q][k], s1 = (*out)[1][q][k];
      uint64_t want = in(c, 0, false, k) * in(c, 1, true, k) + in(c, 1, false, k) * in(c, 0, true, k);
      if (ints)
        DSIM_CHECK(s0 + s1 == want, "wrong-product", "call %zu element %zu: the shares add up to %llu instead of %llu", q, k,
                   (unsigned long long)(s0 + s1), (unsigned long long)want);
      else
        DSIM_CHECK(((s0 ^ s1) & 1) == (want & 1), "wrong-product", "call %zu element %zu: the shares combine to %d instead of %d", q, k,
                   (int)((s0 ^ s1) & 1), (int)(want & 1));
    }
    for (int i = 0; i < 2; i++)
      if (ints) {
        for (auto x : (*out)[i][q]) DSIM_CHECK(seen[i].insert(x).second, "randomness-reused", "party %d: an integer share occurs twice", i);
      } else {
        std::vector<bool> b((*out)[i][q].begin(), (*out)[i][q].end());
        w[i].add(b, "the product shares", i);
        all[i].insert(all[i].end(), b.begin(), b.end());
      }
  }
  for (int i = 0; i < 2; i++) {
    balanced(all[i], "the product shares", i);
    // with inputs that are all equal, whatever is sent still looks random
    ByteWindows bytes;
    for (auto& kv : taps[i]->sent) {
      for (auto& m : kv.second) {
        if (m.size() >= 16) bytes.add(m, "the messages on " + kv.first.first, i);
        if (m.size() >= 32) unrelated(bitsOf(m), "a message on " + kv.first.first, i);
      }
    }
  }
  dsim::probe("product_shares_verified");
}

namespace {
__m128i prfBlock(Prf& p) { return _mm_set_epi64x(p.next(), p.next()); }
bool same(__m128i a, __m128i b) { return memcmp(&a, &b, 16) == 0; }
bool lsb(__m128i a) { return _mm_extract_epi64(a, 0) & 1; }
struct Hash128 {
  size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return mix(p.first ^ mix(p.second)); }
};
} // namespace

// random correlated transfers: any sequence of batch sizes
DSIM_HARNESS(rcot) {
  EngCfg cfg;
  cfg.tuples = 1;
  int which = dsim::param("rcot", -1);
  cfg.rcot = which >= 0 ? which : dsim::wlp("rcot_np", 200) ? 2 : dsim::wlp("rcot_dummy", 500) ? 4 : dsim::wl("rcot", 3) ? 1 : 0;
  bool emp = which < 0 && dsim::wlp("rcot_emp", 1200);
  drawExt(cfg);
  auto kind = drawNet();
  if (kind != Net::InMem) dsim::drawNetConfig();
  dsim::drawSchedPolicy();
  int rounds = 1 + dsim::wl("rounds", 8);
  std::vector<int64_t> sizes;
  int64_t total = 0;
  for (int i = 0; i < rounds; i++) {
    static const int64_t sz[] = {1, 2, 7, 64, 127, 128, 129, 255, 300, 511, 700, 1500};
    int64_t n = sz[dsim::wl("rcot_size", 12)];
    if (cfg.rcot == 1 && dsim::wlp("extended_chunk", 2000)) n = cfg.extSize - cfg.baseSize;
    size_t big = cfg.rcot == 2 || cfg.rcot == 3 ? 0 : drawLarge(300, cfg.rcot == 1 ? 5000 : 20000);
    if (big) n = big;
    if (!big && total + n > (cfg.rcot == 2 || cfg.rcot == 3 ? 600 : 4000)) break;
    total += n;
    sizes.push_back(n);
  }
  Prf p{dsim::wl("delta", 1u << 30) + 1ull};
  __m128i delta = prfBlock(p);
  delta = _mm_or_si128(delta, _mm_set_epi64x(0, 1));
  int senderIs = dsim::wl("sender", 2);
  dsim::note(strf("%s rcot, %zu batches, %lld transfers over %s", emp ? "emp" : rcotName(cfg.rcot), sizes.size(), (long long)total, name(kind)));
  auto cl = std::make_shared<Cluster>(2, kind);
  auto out = std::make_shared<std::vector<std::vector<__m128i>>>(2), bases = std::make_shared<std::vector<std::vector<__m128i>>>(2);
  addParties(2, [=](int me) {
    auto f = cl->factory(me);
    std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rf;
    if (emp)
      rf = std::make_shared<ot::EmpShRandomCorrelatedObliviousTransferFactory>(
          std::make_unique<fbpcf::engine::util::AesPrgFactory>(cfg.buffer));
    else
      rf = rcotFactory(cfg, &(*bases)[me]);
    auto a = f->create(1 - me, "rcot");
    auto r = me == senderIs ? rf->create(delta, std::move(a)) : rf->create(std::move(a));
    for (auto n : sizes) {
      auto v = r->rcot(n);
      DSIM_CHECK((int64_t)v.size() == n, "wrong-count", "%lld transfers asked for, %zu delivered", (long long)n, v.size());
      (*out)[me].insert((*out)[me].end(), v.begin(), v.end());
    }
  });
  mustFinish();
  auto &s = (*out)[senderIs], &r = (*out)[1 - senderIs];
  std::vector<bool> choice;
  std::unordered_set<std::pair<uint64_t, uint64_t>, Hash128> seen;
  for (size_t i = 0; i < s.size(); i++) {
    bool c = lsb(r[i]);
    choice.push_back(c);
    __m128i want = c ? _mm_xor_si128(s[i], delta) : s[i];
    DSIM_CHECK(same(want, r[i]), "wrong-transfer", "transfer %zu of %zu: the receiver with choice %d holds another string", i, s.size(), (int)c);
    DSIM_CHECK(!lsb(s[i]), "wrong-transfer", "transfer %zu: choice bit and string of the sender disagree", i);
    if (cfg.rcot != 4 && !emp)
      DSIM_CHECK(seen.emplace(_mm_extract_epi64(s[i], 0), _mm_extract_epi64(s[i], 1)).second, "randomness-reused",
                 "transfer %zu repeats an earlier string", i);
  }
  // what an extension consumed is used up
  if (cfg.rcot == 1 || cfg.rcot == 3)
    for (auto& b : (*bases)[senderIs]) {
      DSIM_CHECK(!seen.count({_mm_extract_epi64(b, 0), _mm_extract_epi64(b, 1)}), "randomness-reused",
                 "a string that an extension consumed as its base is handed out as well");
      dsim::probe("base_strings_examined");
    }
  if (cfg.rcot != 4 && !emp) {
    Windows w;
    w.add(choice, "choice bits", 1 - senderIs);
    balanced(choice, "choice bits", 1 - senderIs);
  }
  dsim::probe("correlated_transfers", s.size());
  if (sizes.size() > 1) dsim::probe("several_batches");
}

// base transfers
DSIM_HARNESS(baseot) {
  bool np = dsim::param("np", -1) >= 0 ? dsim::param("np", 0) : dsim::wlp("np", 1500);
  auto kind = drawNet();
  if (kind != Net::InMem) dsim::drawNetConfig();
  dsim::drawSchedPolicy();
  int rounds = 1 + dsim::wl("rounds", np ? 2 : 4);
  std::vector<std::vector<bool>> ch;
  for (int i = 0; i < rounds; i++) {
    static const int sz[] = {1, 2, 8, 33, 128, 200};
    std::vector<bool> c(sz[dsim::wl("base_size", np ? 4 : 6)]);
    Prf p{dsim::wl("choice_seed", 1u << 30)};
    for (size_t k = 0; k < c.size(); k++) c[k] = p.next() & 1;
    ch.push_back(c);
  }
  int senderIs = dsim::wl("sender", 2);
  dsim::note(strf("%s base transfers, %d batches over %s", np ? "np" : "dummy", rounds, name(kind)));
  auto cl = std::make_shared<Cluster>(2, kind);
  auto m0 = std::make_shared<std::vector<__m128i>>(), m1 = std::make_shared<std::vector<__m128i>>(), mr = std::make_shared<std::vector<__m128i>>();
  addParties(2, [=](int me) {
    auto f = cl->factory(me);
    std::unique_ptr<ot::IBaseObliviousTransferFactory> bf;
    if (np)
      bf = std::make_unique<ot::NpBaseObliviousTransferFactory>();
    else
      bf = std::make_unique<ot::insecure::DummyBaseObliviousTransferFactory>();
    auto b = bf->create(f->create(1 - me, "base"));
    for (auto& c : ch) {
      if (me == senderIs) {
        auto v = b->send(c.size());
        DSIM_CHECK(v.first.size() == c.size() && v.second.size() == c.size(), "wrong-count", "sender strings");
        m0->insert(m0->end(), v.first.begin(), v.first.end());
        m1->insert(m1->end(), v.second.begin(), v.second.end());
      } else {
        auto v = b->receive(c);
        DSIM_CHECK(v.size() == c.size(), "wrong-count", "receiver strings");
        mr->insert(mr->end(), v.begin(), v.end());
      }
    }
  });
  mustFinish();
  size_t k = 0;
  std::unordered_set<std::pair<uint64_t, uint64_t>, Hash128> seen;
  for (auto& c : ch)
    for (size_t i = 0; i < c.size(); i++, k++) {
      DSIM_CHECK(same((*mr)[k], c[i] ? (*m1)[k] : (*m0)[k]), "wrong-transfer", "base transfer %zu: not the chosen message", k);
      DSIM_CHECK(!same((*m0)[k], (*m1)[k]), "wrong-transfer", "base transfer %zu: both messages are equal", k);
      if (np)
        for (auto& m : {(*m0)[k], (*m1)[k]})
          DSIM_CHECK(seen.emplace(_mm_extract_epi64(m, 0), _mm_extract_epi64(m, 1)).second, "randomness-reused", "base transfer %zu repeats a string", k);
    }
  dsim::probe("base_transfers", k);
}

// chosen-message transfers in both directions at once
DSIM_HARNESS(biot) {
  EngCfg cfg;
  int dummy = dsim::wlp("dummy_bi", 1000);
  cfg.rcot = dsim::wlp("rcot_np", 100) ? 2 : dsim::wl("rcot", 2);
  drawExt(cfg);
  cfg.n = 2 + dsim::wlz("parties", 2, 7000);
  auto kind = drawNet();
  if (dummy) kind = Net::InMem; // both sides of this insecure stand-in send first
  if (kind != Net::InMem) dsim::drawNetConfig();
  dsim::drawSchedPolicy();
  struct Round { bool ints; int n; };
  std::vector<Round> rs;
  int rounds = 1 + dsim::wl("rounds", 6);
  for (int i = 0; i < rounds; i++) {
    static const int sz[] = {1, 2, 8, 9, 64, 65, 128, 300, 1000};
    rs.push_back({(bool)dsim::wl("ints", 2), sz[dsim::wl("bi_size", cfg.rcot == 2 ? 6 : 9)]});
    if (cfg.rcot == 0)
      if (size_t x = drawLarge(300, 20000)) rs.back().n = x;
  }
  uint64_t seed = dsim::wl("data_seed", 1u << 30);
  dsim::note(strf("%s two-way transfers, %d parties, %d batches over %s", dummy ? "dummy" : rcotName(cfg.rcot), cfg.n, rounds, name(kind)));
  auto cl = std::make_shared<Cluster>(cfg.n, kind);
  auto in = [=](int who, int peer, int round, int k) { return mix(seed + mix(who * 10 + peer) + mix(round) * 3 + k); };
  addParties(cfg.n, [=](int me) {
    auto f = cl->factory(me);
    std::unique_ptr<ot::IBidirectionObliviousTransferFactory> bf;
    if (dummy)
      bf = std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(*f);
    else
      bf = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *f, rcotFactory(cfg));
    std::map<int, std::unique_ptr<ot::IBidirectionObliviousTransfer>> peers;
    for (int j = 0; j < cfg.n; j++)
      if (j != me) peers[j] = bf->create(j);
    for (size_t r = 0; r < rs.size(); r++)
      for (auto& kv : peers) {
        int n = rs[r].n, j = kv.first;
        std::vector<bool> choice(n), b0(n), b1(n);
        std::vector<uint64_t> i0(n), i1(n);
        for (int k = 0; k < n; k++) {
          choice[k] = in(me, j, r, 3 * k) & 1;
          i0[k] = in(me, j, r, 3 * k + 1);
          i1[k] = in(me, j, r, 3 * k + 2);
          b0[k] = i0[k] & 1;
          b1[k] = i1[k] & 1;
        }
        if (rs[r].ints) {
          auto v = kv.second->biDirectionOT(i0, i1, choice);
          DSIM_CHECK((int)v.size() == n, "wrong-count", "%d transfers, %zu results", n, v.size());
          for (int k = 0; k < n; k++)
            DSIM_CHECK(v[k] == in(j, me, r, 3 * k + 1 + choice[k]), "wrong-transfer", "party %d, batch %zu, transfer %d from %d: not the chosen message",
                       me, r, k, j);
        } else {
          auto v = kv.second->biDirectionOT(b0, b1, choice);
          DSIM_CHECK((int)v.size() == n, "wrong-count", "%d transfers, %zu results", n, v.size());
          for (int k = 0; k < n; k++)
            DSIM_CHECK(v[k] == (bool)(in(j, me, r, 3 * k + 1 + choice[k]) & 1), "wrong-transfer",
                       "party %d, batch %zu, bit transfer %d from %d: not the chosen message", me, r, k, j);
        }
        dsim::probe("chosen_transfers", n);
      }
  });
  mustFinish();
}

// pseudo-random streams
DSIM_HARNESS(prg) {
  dsim::drawSchedPolicy();
  Prf p{dsim::wl("seed", 1u << 30) + 5ull};
  __m128i seed = prfBlock(p);
  if (dsim::wlp("special_seed", 1500)) seed = dsim::wl("zero", 2) ? _mm_setzero_si128() : _mm_set1_epi8(-1);
  int users = 2 + dsim::wl("users", 2);
  struct Rq { int kind; uint32_t n; };
  std::vector<std::vector<Rq>> plan(users);
  std::vector<int> buf(users);
  for (int u = 0; u < users; u++) {
    static const int bs[] = {1, 2, 3, 16, 64, 100, 1024, 5};
    buf[u] = bs[dsim::wl("prg_buffer", 8)];
    int k = 1 + dsim::wl("requests", 12);
    for (int i = 0; i < k; i++) {
      static const uint32_t sz[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 64, 100, 127, 128, 129, 512, 1000};
      uint32_t n = dsim::wlp("whole_buffer", 1500) ? buf[u] * 16 : sz[dsim::wl("prg_size", 16)];
      if (size_t x = drawLarge(200, buf[u] < 16 ? 5000 : 70000)) n = x;
      plan[u].push_back({(int)dsim::wl("prg_kind", 3), n});
    }
  }
  dsim::note(strf("%d users of one seed, buffers %d/%d...", users, buf[0], buf[1]));
  auto streams = std::make_shared<std::vector<std::vector<uint8_t>>>(users);
  // what was seen of a byte: bits beyond a bit request's size are dropped
  auto masks = std::make_shared<std::vector<std::vector<uint8_t>>>(users);
  addParties(users, [=](int me) {
    fbpcf::engine::util::AesPrgFactory fac(buf[me]);
    auto g = fac.create(seed);
    auto &s = (*streams)[me], &m = (*masks)[me];
    for (auto& r : plan[me]) {
      if (r.kind == 0) {
        auto v = g->getRandomBits(r.n);
        DSIM_CHECK(v.size() == r.n, "wrong-count", "%u bits asked for, %zu delivered", r.n, v.size());
        for (uint32_t i = 0; i < r.n; i += 8) {
          uint8_t x = 0, k = 0;
          for (uint32_t j = i; j < std::min(r.n, i + 8); j++) x |= v[j] << (j - i), k |= 1 << (j - i);
          s.push_back(x);
          m.push_back(k);
        }
      } else if (r.kind == 1) {
        auto v = g->getRandomBytes(r.n);
        DSIM_CHECK(v.size() == r.n, "wrong-count", "%u bytes asked for, %zu delivered", r.n, v.size());
        for (auto x : v) s.push_back(x), m.push_back(255);
      } else {
        uint32_t n = r.n / 8;
        auto v = g->getRandomUInt64(n);
        DSIM_CHECK(v.size() == n, "wrong-count", "%u words asked for, %zu delivered", n, v.size());
        for (auto x : v)
          for (int k = 7; k >= 0; k--) s.push_back(x >> (8 * k)), m.push_back(255);
      }
    }
  });
  mustFinish();
  auto& S = *streams;
  auto& M = *masks;
  // the reference: one big request in place (no buffer, no background refill)
  size_t need = 0;
  for (auto& s : S) need = std::max(need, s.size());
  std::vector<bool> ref((need + 16) / 16 * 128);
  fbpcf::engine::util::AesPrg inplace(seed);
  inplace.getRandomBitsInPlace(ref);
  for (int u = 0; u < users; u++)
    for (size_t i = 0; i < S[u].size(); i++) {
      uint8_t x = 0;
      for (int k = 0; k < 8; k++) x |= ref[8 * i + k] << k;
      DSIM_CHECK((x & M[u][i]) == S[u][i], "stream-differs", "user %d (buffer %d blocks): byte %zu of the stream is %02x, expected %02x", u,
                 buf[u], i, S[u][i], x & M[u][i]);
    }
  ref.resize(8 * need);
  Windows w;
  w.add(ref, "the stream", 0, 8);
  balanced(ref, "the stream", 0);
  __m128i other = _mm_xor_si128(seed, _mm_slli_epi64(_mm_set_epi64x(0, 1), dsim::wl("flip", 64)));
  std::vector<bool> ref2(ref.size());
  fbpcf::engine::util::AesPrg(other).getRandomBitsInPlace(ref2);
  w.add(ref2, "the stream of another seed", 0, 8);
  dsim::probe("stream_bytes", need);
}

// ------------------------------------------------------------------------------------------------
// What travels between the parties (C07, and reuse of material below the engine's surface for C05)
namespace {
bool sameBits(const std::vector<uint8_t>& m, const std::vector<bool>& want) {
  auto b = bitsOf(m);
  if (b.size() < want.size()) return false;
  return std::equal(want.begin(), want.end(), b.begin());
}
} // namespace

DSIM_HARNESS(masks) {
  EngCfg cfg = drawEng(4);
  bool ints = cfg.tuples == 2 && dsim::wlp("ints", 4000);
  static const size_t bufs[] = {64, 128, 100, 200, 33, 500};
  if (cfg.tuples) cfg.buffer = bufs[dsim::wl("mask_buffer", 6)];
  if (ints) cfg.buffer = 8 + cfg.buffer % 8;
  auto kind = dsim::wl("net_kind", 3) ? Net::InMem : Net::Socket;
  if (kind != Net::InMem) dsim::drawNetConfig();
  dsim::drawSchedPolicy();
  size_t B = 64 + dsim::wl("batch", 70);
  if (ints) B = 2 + dsim::wl("int_batch", 4);
  int pattern = dsim::wl("pattern", 3); // all 0, all 1, mixed
  struct Op { int kind, comp, width; };
  std::vector<std::vector<Op>> rounds(1 + dsim::wl("rounds", 3));
  for (auto& r : rounds) {
    int k = 1 + dsim::wl("round_ops", 3);
    static const int widths[] = {10, 1, 2, 20, 30, 3, 64, 1};
    for (int i = 0; i < k; i++)
      r.push_back({(int)dsim::wl("op_kind", 4), 1 + (int)dsim::wl("comp_width", 3), widths[dsim::wl("comp_rights", 8)]});
  }
  int owner = dsim::wl("owner", cfg.n), to = dsim::wl("designated", cfg.n);
  int sessions = dsim::wlp("two_sessions", 3000) ? 2 : 1;
  dsim::note(strf("%s over %s, batch %zu, %zu rounds%s, input pattern %d, opened to %d", cfg.desc().c_str(), name(kind), B, rounds.size(),
                  ints ? ", integers" : "", pattern, to));
  auto cl = std::make_shared<Cluster>(cfg.n, kind);
  // [session][party]
  struct Seen {
    std::shared_ptr<Tap> tap = std::make_shared<Tap>();
    std::map<std::pair<std::string, int>, size_t> before, after; // sent messages around the opening
    std::vector<bool> share, opened;
    std::vector<std::vector<bool>> inputShares;
    std::vector<std::vector<uint64_t>> integerShares;
  };
  auto all = std::make_shared<std::vector<std::vector<Seen>>>(sessions, std::vector<Seen>(cfg.n));
  std::vector<std::shared_ptr<Cluster>> cls{cl};
  if (sessions == 2) {
    cls.push_back(std::make_shared<Cluster>(cfg.n, kind));
    cls[1]->portBase += 40;
  }
  addParties(cfg.n, [=](int me) {
    for (int s = 0; s < sessions; s++) {
      auto& S = (*all)[s][me];
      auto f = std::make_unique<TapFactory>(cls[s]->factory(me), S.tap);
      auto e = makeEngine(cfg, me, *f, f->getMetricsCollector(), !ints, ints);
      int pat = s == 0 ? pattern : 2 - pattern;
      auto bit = [&](int k) { return pat == 0 ? false : pat == 1 ? true : (bool)(mix(k) & 1); };
      if (!ints) {
        std::vector<bool> x(B), zero(B);
        for (size_t k = 0; k < B; k++) x[k] = bit(k);
        auto X = e->setBatchInput(owner, me == owner ? x : zero);
        auto Y = e->setBatchInput((owner + 1) % cfg.n, me == (owner + 1) % cfg.n ? x : zero);
        auto Z = e->setBatchInput(owner, me == owner ? x : zero);
        S.inputShares = {X, Y, Z};
        std::vector<bool> result = X;
        for (auto& r : rounds) {
          for (auto& o : r) switch (o.kind) {
              case 0:
                for (size_t k = 0; k < B; k++) e->scheduleAND(X[k], Y[k]);
                break;
              case 1: e->scheduleBatchAND(X, Y); break;
              case 2:
                // the same operands every time, often enough that a repeated mask would show up as a repeated window
                for (int q = 0; q < 300 / (1 + o.width) + 1; q++) {
                  std::vector<bool> rights(Y.begin(), Y.begin() + o.width);
                  e->scheduleCompositeAND(X[0], rights);
                }
                break;
              default: e->scheduleBatchCompositeAND(X, std::vector<std::vector<bool>>(o.comp, Y)); break;
            }
          auto id = e->scheduleBatchAND(X, Z);
          e->executeScheduledOperations();
          result = e->getBatchANDExecutionResult(id);
        }
        for (auto& kv : S.tap->sent) S.before[kv.first] = kv.second.size();
        S.share = result;
        S.opened = e->revealToParty(to, result);
        for (auto& kv : S.tap->sent) S.after[kv.first] = kv.second.size();
      } else {
        std::vector<uint64_t> x(B), zero(B);
        for (size_t k = 0; k < B; k++) x[k] = pat == 0 ? 0 : pat == 1 ? ~0ull : mix(k);
        auto X = e->setBatchIntegerInput(owner, me == owner ? x : zero);
        auto Y = e->setBatchIntegerInput((owner + 1) % cfg.n, me == (owner + 1) % cfg.n ? x : zero);
        std::vector<uint64_t> single;
        for (int k = 0; k < 12; k++) single.push_back(e->setIntegerInput(owner, pat == 0 ? 0 : pat == 1 ? ~0ull : mix(k)));
        S.integerShares = {single, e->setBatchIntegerInput(owner, std::vector<uint64_t>(12, pat == 1 ? ~0ull : 0))};
        for (auto& r : rounds) {
          for (auto& o : r)
            if (o.kind < 2)
              e->scheduleMult(X[0], Y[0]);
            else
              e->scheduleBatchMult(X, Y);
          e->executeScheduledOperations();
        }
      }
    }
  });
  mustFinish();
  bool real = cfg.tuples != 0;
  for (int s = 0; s < sessions; s++)
    for (int i = 0; i < cfg.n; i++) {
      auto& S = (*all)[s][i];
      // every message is masked with fresh material: nothing of 128 bits is ever sent twice to the same peer,
      // although the same operands are multiplied again and again
      if (real) {
        for (int j = 0; j < cfg.n; j++) {
          ByteWindows bytes;
          for (auto& kv : S.tap->sent)
            if (kv.first.second == j)
              for (auto& m : kv.second)
                if (m.size() >= 16) bytes.add(m, "the messages to party " + std::to_string(j) + " on " + kv.first.first, i);
        }
        for (auto& kv : S.tap->sent) {
          if (kv.first.first.find("secret_share_engine") == std::string::npos) continue;
          Windows w;
          std::vector<bool> allBits;
          for (auto& m : kv.second) {
            auto b = bitsOf(m);
            unrelated(b, "the shares opened by the engine", i);
            w.add(b, "the shares opened by the engine", i);
            if (m.size() >= 8) allBits.insert(allBits.end(), b.begin(), b.begin() + b.size() / 64 * 64);
          }
          balanced(allBits, "the shares opened by the engine", i);
        }
      }
      // input shares: fresh for every input
      Windows w;
      int pat = s == 0 ? pattern : 2 - pattern;
      for (size_t k = 0; k < S.inputShares.size(); k++) {
        w.add(S.inputShares[k], "input shares", i);
        size_t eq = 0;
        for (size_t q = 0; q < B; q++) eq += S.inputShares[k][q] == (pat == 0 ? false : pat == 1 ? true : (bool)(mix(q) & 1));
        DSIM_CHECK(eq != B && eq != 0, "input-visible", "party %d holds the value itself (or its complement) as share of input %zu", i, k);
      }
      // the masks of integer inputs cover every byte of the value
      for (auto& v : S.integerShares) {
        for (int byte = 0; byte < 8 && cfg.n > 1; byte++) {
          int same = 0;
          for (auto x : v) same += ((x ^ v[0]) >> (8 * byte) & 255) == 0;
          DSIM_CHECK(same < 10, "input-visible", "party %d: byte %d of its shares of %zu integer inputs (pattern %d) is the same %d times", i,
                     byte, v.size(), pat, same);
        }
        dsim::probe("integer_masks_examined");
      }
      if (S.inputShares.empty()) continue;
      // the value opened to one party cannot be put together by another one
      if (i == to) {
        std::vector<bool> v(B);
        for (int j = 0; j < cfg.n; j++)
          for (size_t q = 0; q < B; q++) v[q] = v[q] ^ (*all)[s][j].share[q];
        DSIM_CHECK(v == S.opened, "wrong-opening", "party %d was shown another value than the one shared", i);
        continue;
      }
      std::vector<std::vector<uint8_t>> got;
      // whatever was sent to it meanwhile, whether it asked for it or not
      for (int j = 0; j < cfg.n; j++) {
        auto& O = (*all)[s][j];
        for (auto& kv : O.tap->sent) {
          if (j == i || kv.first.second != i) continue;
          size_t a = O.before.count(kv.first) ? O.before[kv.first] : 0, b = O.after.count(kv.first) ? O.after[kv.first] : a;
          for (size_t q = a; q < b && q < kv.second.size(); q++)
            if (kv.second[q].size() * 8 >= B) got.push_back(kv.second[q]);
        }
      }
      if (got.size() > 6) got.resize(6);
      std::vector<bool> v(B);
      for (int j = 0; j < cfg.n; j++)
        for (size_t q = 0; q < B; q++) v[q] = v[q] ^ (*all)[s][j].share[q];
      for (unsigned sub = 1; sub < (1u << got.size()); sub++) {
        std::vector<bool> x(B), y = S.share;
        for (size_t m = 0; m < got.size(); m++)
          if (sub >> m & 1) {
            auto b = bitsOf(got[m]);
            for (size_t q = 0; q < B; q++) x[q] = x[q] ^ b[q], y[q] = y[q] ^ b[q];
          }
        DSIM_CHECK(x != v && y != v, "opened-to-others", "party %d can put together the value opened to party %d", i, to);
      }
      dsim::probe("bystander_views_checked");
    }
  // the amount of traffic does not depend on the inputs
  if (sessions == 2)
    for (int i = 0; i < cfg.n; i++) {
      auto &a = (*all)[0][i].tap->sent, &b = (*all)[1][i].tap->sent;
      for (auto& kv : a) {
        size_t x = 0, y = 0;
        for (auto& m : kv.second) x += m.size();
        for (auto& m : b[kv.first]) y += m.size();
        DSIM_CHECK(x == y, "traffic-depends-on-inputs", "party %d sent %zu bytes to %d on %s with one input and %zu with another", i, x,
                   kv.first.second, kv.first.first.c_str(), y);
      }
      dsim::probe("traffic_compared");
    }
  dsim::probe("messages_examined");
}
