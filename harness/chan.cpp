// C08 / C12: byte-exact channels with random scripts; traffic statistics.
#include "common.h"
#include <immintrin.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
using namespace hx;

namespace {
struct Pod {
  uint32_t a;
  uint64_t b;
  bool operator==(const Pod& o) const { return a == o.a && b == o.b; }
};
struct Msg {
  int type;
  size_t n; // elements
};
struct Dir { // one direction of one channel
  std::vector<Msg> msgs;
  uint64_t key;
  uint64_t bytes = 0;
  int rechunk;     // raw runs are received in different pieces
  int resplit = 0; // and sent in different pieces
};
size_t elemBytes(const Msg& m) {
  switch (m.type) {
    case 0: return m.n;
    case 1: return (m.n + 7) / 8;
    case 2: return m.n * 8;
    case 3: return m.n * 16;
    case 4: return m.n * sizeof(Pod);
    case 5: return 4;
    default: return 8;
  }
}
size_t drawSize() {
  switch (dsim::wlz("size_class", 8, 4000)) {
    case 0: return dsim::wl("size", 40);
    case 1: return 0;
    case 2: return 1;
    case 3: return 4090 + dsim::wl("size", 12); // stdio buffer
    case 4: return 16376 + dsim::wl("size", 16); // TLS record
    case 5: return 65530 + dsim::wl("size", 12);
    case 6: return dsim::wl("size", 3000);
    default: return dsim::wl("size", 200000);
  }
}
Dir drawDir(uint64_t key, int maxMsgs) {
  Dir d;
  d.key = key;
  int k = 1 + dsim::wl("msgs", maxMsgs);
  size_t total = 0;
  for (int i = 0; i < k; i++) {
    Msg m;
    m.type = dsim::wlz("type", 7, 4000);
    m.n = m.type >= 5 ? 1 : drawSize();
    if (m.type >= 2 && m.type <= 4) m.n = m.n / 8;
    total += elemBytes(m);
    if (total > 400000) break;
    d.msgs.push_back(m);
    d.bytes += elemBytes(m);
  }
  d.rechunk = dsim::wl("rechunk", 3);
  d.resplit = dsim::wl("resplit", 3);
  return d;
}
// one message in several calls: the receiver may ask for all of it at once
template <class V, class F>
void inPieces(const V& v, int how, uint64_t seed, F f) {
  Prf p{seed};
  size_t at = 0;
  while (how && at < v.size()) {
    size_t left = v.size() - at, k = how == 1 ? 1 + p.below(left) : std::min<size_t>(left, 1 + p.below(3000));
    f(V(v.begin() + at, v.begin() + at + k));
    at += k;
  }
  if (!how) f(v);
}
void sendMsg(IPartyCommunicationAgent& a, const Dir& d, size_t i) {
  Prf p{mix(d.key) + i * 1000003};
  const Msg& m = d.msgs[i];
  switch (m.type) {
    case 0: {
      std::vector<unsigned char> v(m.n);
      for (auto& c : v) c = p.next();
      inPieces(v, d.resplit, d.key + i, [&](const auto& w) { if (i & 1) a.sendT(w); else a.send(w); });
      break;
    }
    case 1: {
      std::vector<bool> v(m.n);
      for (size_t j = 0; j < m.n; j++) v[j] = p.next() & 1;
      if (i & 1) a.sendT(v); else a.sendBool(v);
      break;
    }
    case 2: {
      std::vector<uint64_t> v(m.n);
      for (auto& c : v) c = p.next();
      inPieces(v, d.resplit, d.key + i, [&](const auto& w) { a.sendInt64(w); });
      break;
    }
    case 3: {
      std::vector<__m128i> v(m.n);
      for (auto& c : v) { auto x = p.next(); c = _mm_set_epi64x(p.next(), x); }
      inPieces(v, d.resplit, d.key + i, [&](const auto& w) { a.sendT(w); });
      break;
    }
    case 4: {
      std::vector<Pod> v(m.n);
      for (auto& c : v) { memset((void*)&c, 0, sizeof c); c.a = p.next(); c.b = p.next(); }
      inPieces(v, d.resplit, d.key + i, [&](const auto& w) { a.sendT(w); });
      break;
    }
    case 5: a.sendSingleT<int>((int)p.next()); break;
    default: a.sendSingleT<uint64_t>(p.next());
  }
}
void recvMsg(IPartyCommunicationAgent& a, const Dir& d, size_t i, const char* what, Prf& rp) {
  Prf p{mix(d.key) + i * 1000003};
  const Msg& m = d.msgs[i];
#define BAD(j) dsim::fail("wrong-data", "%s message %zu (type %d, %zu elements): element %zu differs", what, i, m.type, m.n, (size_t)(j))
#define LEN(v) if (v.size() != m.n) dsim::fail("wrong-length", "%s message %zu: %zu elements instead of %zu", what, i, v.size(), m.n)
  switch (m.type) {
    case 0: {
      std::vector<unsigned char> v;
      if (d.rechunk == 0) {
        v = (i & 1) ? a.receiveT<unsigned char>(m.n) : a.receive(m.n);
      } else {
        while (v.size() < m.n) {
          size_t left = m.n - v.size();
          size_t k = d.rechunk == 1 ? 1 + rp.below(left) : std::min<size_t>(left, 1 + rp.below(5000));
          auto w = a.receive(k);
          if (w.size() != k) dsim::fail("wrong-length", "%s message %zu: chunk %zu instead of %zu", what, i, w.size(), k);
          v.insert(v.end(), w.begin(), w.end());
        }
      }
      LEN(v);
      for (size_t j = 0; j < m.n; j++) if (v[j] != (unsigned char)p.next()) BAD(j);
      break;
    }
    case 1: {
      auto v = (i & 1) ? a.receiveT<bool>(m.n) : a.receiveBool(m.n);
      LEN(v);
      for (size_t j = 0; j < m.n; j++) if (v[j] != (bool)(p.next() & 1)) BAD(j);
      break;
    }
    case 2: {
      auto v = a.receiveInt64(m.n);
      LEN(v);
      for (size_t j = 0; j < m.n; j++) if (v[j] != p.next()) BAD(j);
      break;
    }
    case 3: {
      auto v = a.receiveT<__m128i>(m.n);
      LEN(v);
      for (size_t j = 0; j < m.n; j++) {
        auto x = p.next(), y = p.next();
        if ((uint64_t)_mm_cvtsi128_si64(v[j]) != x || (uint64_t)_mm_extract_epi64(v[j], 1) != y) BAD(j);
      }
      break;
    }
    case 4: {
      auto v = a.receiveT<Pod>(m.n);
      LEN(v);
      for (size_t j = 0; j < m.n; j++) { uint32_t x = p.next(); uint64_t y = p.next(); if (v[j].a != x || v[j].b != y) BAD(j); }
      break;
    }
    case 5: if (a.receiveSingleT<int>() != (int)p.next()) BAD(0); break;
    default: if (a.receiveSingleT<uint64_t>() != p.next()) BAD(0);
  }
}
struct Chan {
  int a, b; // a < b
  Dir ab, ba;
  bool duplex; // separate sender and receiver threads at both ends
};
} // namespace

static std::unique_ptr<IPartyCommunicationAgent> directAgent(bool server, const std::string& host, int port, bool tls, const std::string& name,
                                                             fbpcf::util::MetricCollector& mc) {
  auto rec = std::make_shared<fbpcf::engine::communication::PartyCommunicationAgentTrafficRecorder>();
  mc.addNewRecorder(name, rec);
  const char* dir = "/verif/sim/certs";
  dsim::probe("direct_channels");
  if (!server) return std::make_unique<SocketPartyCommunicationAgent>(host, port, tls, dir, rec);
  int s = ::socket(AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = INADDR_ANY;
  a.sin_port = htons(port);
  if (::bind(s, (struct sockaddr*)&a, sizeof a) || ::listen(s, 1)) dsim::fail("harness", "bind");
  return std::make_unique<SocketPartyCommunicationAgent>(s, port, tls, dir, rec);
}

DSIM_HARNESS(chan) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  bool stats = dsim::param("stats", 0);
  Net kind = drawNet();
  int n = 2 + dsim::wlz("parties", 3, 5000);
  Cluster cl(n, kind);
  cl.ctor = dsim::wlz("constructor", 3, 6000);
  // without a factory: each channel over a listening socket of its own
  bool direct = kind != Net::InMem && dsim::wlp("direct", 1500);
  std::vector<Chan> chans;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      int k = 1 + dsim::wl("channels", 3);
      for (int c = 0; c < k; c++) {
        Chan ch;
        ch.a = i, ch.b = j;
        ch.ab = drawDir(dsim::dataRand(), 6);
        ch.ba = drawDir(dsim::dataRand(), 6);
        ch.duplex = kind != Net::Tls && dsim::wl("duplex", 2);
        chans.push_back(ch);
      }
    }
  dsim::setFaultRate("spurious_wakeup", dsim::wl("spurious", 2) ? 300 : 0);
  dsim::note(strf("%d parties over %s, %zu channels", n, name(kind), chans.size()));
  std::map<std::pair<int, size_t>, std::pair<uint64_t, uint64_t>> st;
  std::map<int, std::shared_ptr<fbpcf::util::MetricCollector>> mcs;
  std::map<std::pair<int, int>, uint64_t> wire;
  addParties(n, [&](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("party");
    mcs[me] = mc;
    std::unique_ptr<IPartyCommunicationAgentFactory> f;
    if (!direct) f = cl.factory(me, mc);
    std::vector<std::unique_ptr<IPartyCommunicationAgent>> ag(chans.size());
    // both ends ask for channels of a pair in the same order; pairs in each party's own order
    for (size_t c = 0; c < chans.size(); c++)
      if (direct && (chans[c].a == me || chans[c].b == me))
        ag[c] = directAgent(chans[c].a == me, "party" + std::to_string(chans[c].a), 9000 + (int)c, kind == Net::Tls, "chan" + std::to_string(c), *mc);
      else if (chans[c].a == me || chans[c].b == me)
        ag[c] = f->create(chans[c].a == me ? chans[c].b : chans[c].a, "chan" + std::to_string(c));
    std::vector<std::thread> th;
    for (size_t c = 0; c < chans.size(); c++) {
      if (!ag[c]) continue;
      auto& ch = chans[c];
      bool first = ch.a == me;
      auto* A = ag[c].get();
      auto& out = first ? ch.ab : ch.ba;
      auto& in = first ? ch.ba : ch.ab;
      std::string what = strf("channel %zu of parties %d-%d, received by %d,", c, ch.a, ch.b, me);
      if (ch.duplex) {
        th.emplace_back([A, &out] {
          for (size_t i = 0; i < out.msgs.size(); i++) sendMsg(*A, out, i);
        });
        th.emplace_back([A, &in, what] {
          Prf rp{in.key ^ 0x77};
          for (size_t i = 0; i < in.msgs.size(); i++) recvMsg(*A, in, i, what.c_str(), rp);
        });
      } else {
        th.emplace_back([A, &out, &in, first, what] {
          Prf rp{in.key ^ 0x77};
          size_t k = std::max(out.msgs.size(), in.msgs.size());
          for (size_t i = 0; i < k; i++) {
            if (first && i < out.msgs.size()) sendMsg(*A, out, i);
            if (i < in.msgs.size()) recvMsg(*A, in, i, what.c_str(), rp);
            if (!first && i < out.msgs.size()) sendMsg(*A, out, i);
          }
        });
      }
    }
    for (auto& t : th) t.join();
    for (size_t c = 0; c < chans.size(); c++)
      if (ag[c]) st[{me, c}] = ag[c]->getTrafficStatistics();
  });
  mustFinish();
  if (!stats) {
    uint64_t b = 0;
    for (auto& c : chans) b += c.ab.bytes + c.ba.bytes;
    dsim::probe("payload_bytes_verified", b);
    return;
  }
  for (size_t c = 0; c < chans.size(); c++) {
    auto& ch = chans[c];
    for (int s = 0; s < 2; s++) {
      int me = s ? ch.b : ch.a;
      uint64_t out = s ? ch.ba.bytes : ch.ab.bytes, in = s ? ch.ab.bytes : ch.ba.bytes;
      auto got = st[{me, c}];
      DSIM_CHECK(got.first == out, "sent-count", "channel %zu party %d reports %lu sent, %lu crossed", c, me, got.first, out);
      DSIM_CHECK(got.second == in, "received-count", "channel %zu party %d reports %lu received, %lu crossed", c, me, got.second, in);
      if (kind == Net::InMem) continue;
      auto m = mcs[me]->collectMetrics();
      std::string key = "party.chan" + std::to_string(c);
      if (!m.count(key)) key.clear();
      DSIM_CHECK(!key.empty(), "metric-missing", "no metric for channel %zu of party %d", c, me);
      uint64_t ms = m[key]["sent_data"].asInt(), mr = m[key]["received_data"].asInt();
      DSIM_CHECK(ms == out && mr == in, "metric-count", "metric %s of party %d: %lu/%lu, crossed %lu/%lu", key.c_str(), me, ms, mr, out, in);
    }
  }
  if (kind != Net::InMem)
    for (int me = 0; me < n; me++) {
      int64_t out = 0, in = 0;
      auto each = mcs[me]->collectMetrics();
      for (auto& kv : each.items()) {
        auto& d = kv.second;
        if (d.count("sent_data")) out += d["sent_data"].asInt();
        if (d.count("received_data")) in += d["received_data"].asInt();
      }
      auto m = mcs[me]->aggregateMetrics();
      bool has = m.count("party.sent_data") && m.count("party.received_data");
      DSIM_CHECK(has || each.size() == 0, "metric-missing", "no totals for party %d", me);
      if (!has) continue;
      int64_t ms = m["party.sent_data"].asInt(), mr = m["party.received_data"].asInt();
      DSIM_CHECK(ms == out && mr == in, "metric-total", "totals of party %d: %ld/%ld, its channels' metrics add up to %ld/%ld", me, ms, mr, out, in);
    }
  if (kind == Net::Socket)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        if (i == j) continue;
        uint64_t want = 0;
        for (auto& c : chans) {
          if (c.a == i && c.b == j) want += c.ab.bytes + (direct ? 0 : 4); // + port number of each further channel
          if (c.b == i && c.a == j) want += c.ba.bytes;
        }
        DSIM_CHECK(dsim::netBytes(i, j) == want, "wire-count", "%d->%d: %lu bytes on the wire, %lu payload", i, j, dsim::netBytes(i, j), want);
      }
  dsim::probe("channels_counted", chans.size());
}

// C08 / C12: messages, and totals, beyond what 32 bits can count
DSIM_HARNESS(huge) {
  dsim::drawSchedPolicy();
  dsim::net().maxSegment = 1 << 20;
  dsim::net().sndBuf = 4 << 20;
  Net kind = drawNet();
  Cluster cl(2, kind);
  int type = dsim::wl("type", 4), times = 1 + dsim::wlp("twice", 3000);
  uint64_t over = dsim::wl("over", 100), key = dsim::dataRand();
  size_t elem = type == 0 ? 1 : type == 1 ? 8 : type == 2 ? 16 : sizeof(Pod), n = ((size_t(1) << 31) + over * elem) / elem;
  if (dsim::param("total", 0)) times = 9, n = n / 4 - 10000 * over; // only the total is large
  dsim::note(strf("%d messages of %zu elements of %zu bytes over %s", times, n, elem, name(kind)));
  std::pair<uint64_t, uint64_t> st[2];
  auto fill = [&](auto& v, bool check) {
    using T = std::decay_t<decltype(v[0])>;
    for (size_t j = 0; j < v.size(); j++) {
      uint64_t x = key + j * 0x9e3779b97f4a7c15ull;
      T t;
      memset((void*)&t, 0, sizeof t);
      memcpy((void*)&t, &x, std::min(sizeof x, sizeof t));
      if (!check) v[j] = t;
      else if (memcmp((void*)&v[j], (void*)&t, sizeof t)) dsim::fail("wrong-data", "element %zu of %zu (%zu bytes each) differs over %s", j, v.size(), sizeof t, name(kind));
    }
  };
  auto go = [&](auto zero, bool sender, IPartyCommunicationAgent& a) {
    using T = decltype(zero);
    std::vector<T> v;
    if (sender) {
      v.resize(n);
      fill(v, false);
    }
    for (int i = 0; i < times; i++) {
      if (sender) {
        if constexpr (std::is_same_v<T, uint64_t>) a.sendInt64(v);
        else if constexpr (std::is_same_v<T, unsigned char>) a.send(v);
        else a.sendT(v);
        if (a.receiveSingleT<uint64_t>() != key + i) dsim::fail("wrong-data", "the answer to a message of %zu elements differs", n);
        continue;
      }
      if constexpr (std::is_same_v<T, uint64_t>) v = a.receiveInt64(n);
      else if constexpr (std::is_same_v<T, unsigned char>) v = a.receive(n);
      else v = a.receiveT<T>(n);
      DSIM_CHECK(v.size() == n, "wrong-length", "%zu elements instead of %zu", v.size(), n);
      fill(v, true);
      v = {};
      dsim::probe("huge_messages_verified");
      a.sendSingleT<uint64_t>(key + i);
    }
  };
  addParties(2, [&](int me) {
    auto f = cl.factory(me);
    auto a = f->create(1 - me, "huge");
    if (type == 0) go((unsigned char)0, me == 0, *a);
    else if (type == 1) go(uint64_t(0), me == 0, *a);
    else if (type == 2) go(_mm_setzero_si128(), me == 0, *a);
    else go(Pod{}, me == 0, *a);
    st[me] = a->getTrafficStatistics();
  });
  mustFinish();
  for (int me = 0; me < 2; me++) {
    uint64_t out = me ? 8 * times : n * elem * times, in = me ? n * elem * times : 8 * times;
    DSIM_CHECK(st[me].first == out && st[me].second == in, "huge-count", "party %d reports %lu sent, %lu received; %lu and %lu crossed", me, st[me].first, st[me].second, out, in);
  }
}
