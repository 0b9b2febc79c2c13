#include "front.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"

namespace sch = fbpcf::scheduler;
// address of the private static scheduler the frontend types work on
using SchedPtr = std::unique_ptr<sch::IScheduler>;
SchedPtr* keeperSlot();
template <SchedPtr* P>
struct Rob {
  friend SchedPtr* keeperSlot() { return P; }
};
template struct Rob<&sch::SchedulerKeeper<0>::scheduler_>;

namespace fx {
std::vector<std::pair<const char*, ZooMaker>>& zoos() {
  static std::vector<std::pair<const char*, ZooMaker>> z;
  return z;
}
struct Pools {
  std::vector<BSlot<false, false>> pf;
  std::vector<BSlot<false, true>> pb;
  std::vector<BSlot<true, false>> sf;
  std::vector<BSlot<true, true>> sb;
};
static std::map<World*, Pools>& allPools() {
  static std::map<World*, Pools> m;
  return m;
}
template <>
std::vector<BSlot<false, false>>& bits<false, false>(World& w) { return allPools()[&w].pf; }
template <>
std::vector<BSlot<false, true>>& bits<false, true>(World& w) { return allPools()[&w].pb; }
template <>
std::vector<BSlot<true, false>>& bits<true, false>(World& w) { return allPools()[&w].sf; }
template <>
std::vector<BSlot<true, true>>& bits<true, true>(World& w) { return allPools()[&w].sb; }
void forget(World& w) { allPools().erase(&w); }

static std::vector<bool> drawnBits(uint64_t d, size_t n) {
  Prf g{d};
  std::vector<bool> v(n);
  for (size_t i = 0; i < n; i++) v[i] = g.next() & 1;
  return v;
}
template <class F>
static std::vector<bool> bmap(const std::vector<bool>& a, const std::vector<bool>& b, F f) {
  std::vector<bool> r(a.size());
  for (size_t i = 0; i < r.size(); i++) r[i] = f(a[i], b[i]);
  return r;
}
static std::vector<std::vector<bool>> drawSplit(const std::vector<bool>& v, uint64_t d, std::vector<uint32_t>& sizes) {
  Prf g{d};
  size_t at = 0;
  std::vector<std::vector<bool>> parts;
  while (at < v.size()) {
    size_t k = sizes.size() >= 2 + (d >> 60) ? v.size() - at : 1 + g.below(v.size() - at);
    sizes.push_back(k);
    parts.push_back({v.begin() + at, v.begin() + at + k});
    at += k;
  }
  return parts;
}

template <bool B>
struct BitZoo : IZoo {
  std::vector<std::pair<std::vector<bool>, typename BitT<true, B>::ExtractedBit>> shares;

  void compare(World& w, const BitT<false, B>& h, const std::vector<bool>& v, int openTo, const char* how) {
    auto got = boolVec<B>(h.getValue());
    if (!w.known(openTo)) return;
    DSIM_CHECK(got == v, got.size() == v.size() ? "wrong-bit" : "wrong-length", "%s: party %d: bits %s are %s instead of %s", w.what, w.me,
               how, show(got).c_str(), show(v).c_str());
    dsim::probe("opened_values_verified");
  }
  template <bool S, bool S2>
  void binary(World& w, const FOp& o) {
    auto& p = bits<S, B>(w);
    auto& q = bits<S2, B>(w);
    int i = usable(p, o.a);
    if (i < 0) return;
    auto like = [&](auto& s) { return s.openTo < 0 && s.n == p[i].n; };
    int j = find(q, o.b, like);
    if (j < 0) return;
    constexpr bool R = S || S2;
    const auto& x = p[i].h;
    const auto& y = q[j].h;
    const auto a = p[i].v, b = q[j].v;
    auto And = [](bool s, bool t) { return s && t; };
    w.depth += 2;
    switch (o.c % 5) {
      case 0: putBit<R, B>(w, x & y, bmap(a, b, And), o.data >> 5); break;
      case 1: putBit<R, B>(w, x ^ y, bmap(a, b, [](bool s, bool t) { return s != t; }), o.data >> 5); break;
      case 2: putBit<R, B>(w, x | y, bmap(a, b, [](bool s, bool t) { return s || t; }), o.data >> 5); break;
      case 3: {
        std::array<BitT<S2, B>, 3> ys;
        std::vector<bool> vs[3];
        for (int k = 0; k < 3; k++) {
          int z = find(q, o.b + k, like);
          ys[k] = q[z].h;
          vs[k] = q[z].v;
        }
        auto r = x & ys;
        for (int k = 0; k < 3; k++) putBit<R, B>(w, BitT<R, B>(r[k]), bmap(a, vs[k], And), o.data >> (5 + k));
        break;
      }
      default: {
        std::vector<BitT<S2, B>> ys;
        std::vector<std::vector<bool>> vs;
        int m = (o.data >> 40) % 6;
        for (int k = 0; k < m; k++) {
          int z = find(q, o.b + k, like);
          ys.push_back(q[z].h);
          vs.push_back(q[z].v);
        }
        if (!m) break;
        auto r = x & ys;
        DSIM_CHECK(r.size() == ys.size(), "composite-width", "%s: %zu results for %zu operands", w.what, r.size(), ys.size());
        for (int k = 0; k < m; k++) putBit<R, B>(w, std::move(r[k]), bmap(a, vs[k], And), o.data >> (5 + k));
      }
    }
  }
  template <bool S>
  void unary(World& w, const FOp& o) {
    auto& p = bits<S, B>(w);
    int i = usable(p, o.a);
    if (i < 0) return;
    BitT<S, B> x = p[i].h;
    auto v = p[i].v;
    switch (o.c % 4) {
      case 0:
        v.flip();
        putBit<S, B>(w, !x, v, o.data);
        break;
      case 1:
        if constexpr (B) {
          std::vector<BitT<S, B>> others;
          int m = joinOf(o.b);
          for (int q = 0; q < m; q++) {
            int j = usable(p, o.a + 1 + q);
            if (v.size() + p[j].n > 300) break;
            others.push_back(p[j].h);
            v.insert(v.end(), p[j].v.begin(), p[j].v.end());
          }
          putBit<S, B>(w, x.batchingWith(others), v, o.data);
        }
        break;
      case 2:
        if constexpr (B) {
          auto sizes = std::make_shared<std::vector<uint32_t>>();
          auto parts = drawSplit(v, o.data, *sizes);
          auto r = x.unbatching(sizes);
          DSIM_CHECK(r.size() == parts.size(), "unbatch-width", "%s: %zu parts instead of %zu", w.what, r.size(), parts.size());
          for (size_t k = 0; k < r.size(); k++) putBit<S, B>(w, std::move(r[k]), parts[k], o.data >> (3 + k));
        }
        break;
      default:
        if constexpr (B) {
          size_t n = x.getBatchSize();
          DSIM_CHECK(n == v.size(), "batch-size", "%s: party %d: bits report a batch of %zu elements instead of %zu", w.what, w.me, n, v.size());
        }
    }
  }
  void op(World& w, const FOp& o) override {
    auto& sec = bits<true, B>(w);
    auto& pub = bits<false, B>(w);
    switch (o.kind) {
      case 0:
      case 1: {
        size_t n = B ? batchOf(o.b) : 1;
        for (uint32_t k = 0; k <= o.a % 2; k++) {
          int owner = (o.party + k) % w.n;
          auto v = drawnBits(o.data + k, n);
          auto mine = owner == w.me ? v : drawnBits(mix(o.data + k + 77 + w.me), n);
          if (o.c % 4 == 3 && !sec.empty()) {
            auto& s = sec[o.c / 4 % sec.size()];
            s.h.privateInput(boolArg<B>(mine), owner);
            s.v = v;
            s.n = n;
            s.openTo = -1;
            s.empty = false;
            s.ids = {w.nextId++};
          } else
            putBit<true, B>(w, BitT<true, B>(boolArg<B>(mine), owner), v, o.data >> (20 + k));
        }
        break;
      }
      case 2: {
        size_t n = B ? batchOf(o.b) : 1;
        int j = usable(sec, o.a);
        if (j >= 0) n = sec[j].n;
        auto v = drawnBits(o.data, n);
        if (o.c % 4 == 3 && !pub.empty()) {
          auto& s = pub[o.c / 4 % pub.size()];
          s.h.publicInput(boolArg<B>(v));
          s.v = v;
          s.n = n;
          s.openTo = -1;
          s.empty = false;
          s.ids = {w.nextId++};
        } else
          putBit<false, B>(w, BitT<false, B>(boolArg<B>(v)), v, o.data >> 20);
        break;
      }
      case 3: {
        int i = usable(sec, o.a);
        if (i < 0) return;
        putBit<false, B>(w, sec[i].h.openToParty(o.party), sec[i].v, o.data, o.party);
        break;
      }
      case 4: {
        int i = find(pub, o.a, [](auto&) { return true; });
        if (i < 0) return;
        compare(w, pub[i].h, pub[i].v, pub[i].openTo, "looked at");
        break;
      }
      case 5: {
        if ((o.a & 1) || shares.empty()) {
          int i = usable(sec, o.b);
          if (i < 0) return;
          shares.push_back({sec[i].v, sec[i].h.extractBit()});
        } else {
          auto& s = shares[o.b % shares.size()];
          auto e = s.second;
          putBit<true, B>(w, BitT<true, B>(std::move(e)), s.first, o.data);
        }
        break;
      }
      case 6:
      case 7:
      case 8:
        switch (o.data % 4) {
          case 0: binary<true, true>(w, o); break;
          case 1: binary<true, false>(w, o); break;
          case 2: binary<false, true>(w, o); break;
          default: (o.data & 8) ? binary<true, true>(w, o) : binary<false, false>(w, o);
        }
        break;
      case 9: (o.data % 4) ? unary<true>(w, o) : unary<false>(w, o); break;
      default: (o.data % 4) ? churn(sec, o) : churn(pub, o);
    }
  }
  void verify(World& w) override {
    auto& sec = bits<true, B>(w);
    for (size_t i = 0; i < sec.size(); i++) {
      if (sec[i].empty) continue;
      int to = (int)((i + sec.size()) % w.n);
      auto q = sec[i].h.openToParty(to);
      compare(w, q, sec[i].v, to, "opened at the end");
      dsim::probe("final_values_verified");
    }
    for (auto& s : bits<false, B>(w))
      if (!s.empty) compare(w, s.h, s.v, s.openTo, "at the end");
  }
  void clear() override {
    bits<true, B>(*wp).clear();
    bits<false, B>(*wp).clear();
    shares.clear();
  }
  size_t handles() override { return bits<true, B>(*wp).size() + bits<false, B>(*wp).size(); }
  void ids(std::set<uint64_t>& s) override {
    for (auto& x : bits<true, B>(*wp)) s.insert(x.ids.begin(), x.ids.end());
    for (auto& x : bits<false, B>(*wp)) s.insert(x.ids.begin(), x.ids.end());
  }
};
static ZooReg regBit0("bit,single", []() -> std::unique_ptr<IZoo> { return std::make_unique<BitZoo<false>>(); });
static ZooReg regBit1("bit,batch", []() -> std::unique_ptr<IZoo> { return std::make_unique<BitZoo<true>>(); });

// strings of bits of any length
template <bool B>
struct StrZoo : IZoo {
  using Rows = std::vector<std::vector<bool>>; // [position][batch element]
  template <bool S>
  using T = fr::BitString<S, 0, B>;
  template <bool S>
  using SL = Slot<T<S>, Rows>;
  std::vector<SL<true>> sec;
  std::vector<SL<false>> pub;
  std::vector<std::pair<Rows, typename T<true>::ExtractedString>> shares;
  template <bool S>
  auto& pool() {
    if constexpr (S) return sec;
    else return pub;
  }
  static auto arg(const Rows& r) {
    if constexpr (B) return r;
    else {
      std::vector<bool> v;
      for (auto& x : r) v.push_back(x[0]);
      return v;
    }
  }
  static Rows drawn(uint64_t d, size_t len, size_t n) {
    Rows r(len);
    for (auto& x : r) x = drawnBits(d = mix(d), n);
    return r;
  }
  static size_t lenOf(uint64_t d) {
    static const size_t l[] = {3, 1, 8, 9, 2, 130, 5, 33};
    return l[d % 8];
  }
  template <bool S>
  void add(T<S>&& h, Rows v, size_t n, uint64_t where, int openTo = -1) {
    SL<S> s{std::move(h)};
    s.n = n;
    s.v = std::move(v);
    s.openTo = openTo;
    put(pool<S>(), std::move(s), where);
  }
  void compare(World& w, const T<false>& h, const Rows& v, int openTo, const char* how) {
    auto got = h.getValue();
    if (!w.known(openTo)) return;
    DSIM_CHECK(got.size() == v.size(), "wrong-length", "%s: party %d: string %s has %zu bits instead of %zu", w.what, w.me, how, got.size(), v.size());
    for (size_t i = 0; i < v.size(); i++) {
      std::vector<bool> g;
      if constexpr (B) g = got[i];
      else g = {(bool)got[i]};
      DSIM_CHECK(g == v[i], "wrong-bit", "%s: party %d: position %zu of a string %s holds %s instead of %s", w.what, w.me, i, how,
                 show(g).c_str(), show(v[i]).c_str());
    }
    dsim::probe("opened_values_verified");
  }
  template <bool S>
  void unary(World& w, const FOp& o) {
    auto& p = pool<S>();
    int i = usable(p, o.a);
    if (i < 0) return;
    auto v = p[i].v;
    size_t n = p[i].n;
    switch (o.c % 6) {
      case 0:
        for (auto& x : v) x.flip();
        add<S>(!p[i].h, v, n, o.data);
        break;
      case 1: {
        size_t k = o.b % v.size();
        putBit<S, B>(w, BitT<S, B>(p[i].h[k]), v[k], o.data);
        break;
      }
      case 2: { // replace or append a bit
        auto& bp = bits<S, B>(w);
        int j = find(bp, o.b >> 6, [&](auto& s) { return s.openTo < 0 && s.n == n; });
        if (j < 0) return;
        size_t k = o.b % (v.size() + 1);
        if (k == v.size()) {
          p[i].h.resize(k + 1);
          p[i].v.push_back(bp[j].v);
        } else
          p[i].v[k] = bp[j].v;
        p[i].h[k] = bp[j].h;
        break;
      }
      case 3:
        if (v.size() > 1) {
          p[i].h.resize(v.size() - 1);
          p[i].v.pop_back();
        }
        break;
      case 4:
        if constexpr (S && B) {
          std::vector<T<true>> others;
          int m = joinOf(o.b);
          for (int q = 0; q < m; q++) {
            int j = find(p, o.a + 1 + q, [&](auto& s) { return s.openTo < 0 && s.v.size() == v.size(); });
            if (n + p[j].n > 200) break;
            others.push_back(p[j].h);
            n += p[j].n;
            for (size_t k = 0; k < v.size(); k++) v[k].insert(v[k].end(), p[j].v[k].begin(), p[j].v[k].end());
          }
          dsim::probe("strings_joined");
          add<true>(p[i].h.batchingWith(others), v, n, o.data);
        }
        break;
      default:
        if constexpr (S && B) {
          auto sizes = std::make_shared<std::vector<uint32_t>>();
          drawSplit(v[0], o.data, *sizes);
          auto r = p[i].h.unbatching(sizes);
          DSIM_CHECK(r.size() == sizes->size(), "unbatch-width", "%s: %zu parts instead of %zu", w.what, r.size(), sizes->size());
          size_t at = 0;
          for (size_t k = 0; k < r.size(); k++) {
            Rows part;
            for (auto& x : v) part.push_back({x.begin() + at, x.begin() + at + (*sizes)[k]});
            at += (*sizes)[k];
            add<true>(std::move(r[k]), part, (*sizes)[k], o.data >> (3 + k));
          }
        }
        if constexpr (B) {
          i = usable(p, o.a);
          size_t g = p[i].h.getBatchSize();
          DSIM_CHECK(g == p[i].n, "batch-size", "%s: party %d: string reports a batch of %zu elements instead of %zu", w.what, w.me, g, p[i].n);
        }
    }
  }
  template <bool S, bool S2>
  void binary(World& w, const FOp& o) {
    auto& p = pool<S>();
    auto& q = pool<S2>();
    int i = usable(p, o.a);
    if (i < 0) return;
    int j = find(q, o.b, [&](auto& s) { return s.openTo < 0 && s.n == p[i].n && s.v.size() == p[i].v.size(); });
    int d = find(q, o.b, [&](auto& s) { return s.openTo < 0 && s.n == p[i].n && s.v.size() != p[i].v.size(); });
    if (d >= 0 && (j < 0 || o.data % 16 == 9)) { // strings of different lengths don't go together
      bool refused = false;
      const char* what = "and";
      auto& bp = bits<true, B>(w);
      int k = find(bp, o.data >> 8, [&](auto& s) { return s.openTo < 0 && s.n == p[i].n; });
      try {
        switch (o.c % 4) {
          case 0: p[i].h & q[d].h; break;
          case 1: what = "xor"; p[i].h ^ q[d].h; break;
          case 2:
            if constexpr (S && S2 && B) {
              what = "joined";
              p[i].h.batchingWith({q[d].h});
              break;
            }
          default:
            if (k < 0) return;
            what = "selected";
            p[i].h.mux(bp[k].h, q[d].h);
        }
      } catch (const std::runtime_error&) {
        refused = true;
      }
      DSIM_CHECK(refused, "mismatch-accepted", "%s: party %d: strings of %zu and %zu bits were accepted (%s)", w.what, w.me, p[i].v.size(), q[d].v.size(), what);
      dsim::probe("mismatches_refused");
      return;
    }
    if (j < 0) return;
    constexpr bool R = S || S2;
    const auto& x = p[i].h;
    const auto& y = q[j].h;
    const auto a = p[i].v, b = q[j].v;
    size_t n = p[i].n;
    w.depth += 2;
    auto zip = [&](auto f) {
      Rows r;
      for (size_t k = 0; k < a.size(); k++) r.push_back(bmap(a[k], b[k], f));
      return r;
    };
    switch (o.c % 3) {
      case 0: add<R>(x & y, zip([](bool s, bool t) { return s && t; }), n, o.data); break;
      case 1: add<R>(x ^ y, zip([](bool s, bool t) { return s != t; }), n, o.data); break;
      default: {
        auto val = [&](const std::vector<bool>& c) {
          Rows r = a;
          for (size_t k = 0; k < r.size(); k++)
            for (size_t e = 0; e < c.size(); e++) r[k][e] = c[e] ? b[k][e] : a[k][e];
          return r;
        };
        auto pick = [&](auto& bp) { return find(bp, o.data >> 8, [&](auto& s) { return s.openTo < 0 && s.n == n; }); };
        if (o.data & 4) {
          auto& bp = bits<true, B>(w);
          int k = pick(bp);
          if (k >= 0) add<true>(x.mux(bp[k].h, y), val(bp[k].v), n, o.data);
        } else {
          auto& bp = bits<false, B>(w);
          int k = pick(bp);
          if (k >= 0) add<R>(x.mux(bp[k].h, y), val(bp[k].v), n, o.data);
        }
      }
    }
  }
  void op(World& w, const FOp& o) override {
    switch (o.kind) {
      case 0:
      case 1: {
        size_t n = B ? batchOf(o.b) : 1, len = lenOf(o.b >> 4);
        for (uint32_t k = 0; k <= o.a % 2; k++) {
          int owner = (o.party + k) % w.n;
          auto v = drawn(o.data + k, len, n);
          auto mine = owner == w.me ? v : drawn(mix(o.data + k + 77 + w.me), len, n);
          add<true>(T<true>(arg(mine), owner), v, n, o.data >> (20 + k));
        }
        break;
      }
      case 2: {
        size_t n = B ? batchOf(o.b) : 1, len = lenOf(o.b >> 4);
        int j = usable(sec, o.a);
        if (j >= 0) n = sec[j].n, len = sec[j].v.size();
        auto v = drawn(o.data, len, n);
        add<false>(T<false>(arg(v)), v, n, o.data >> 20);
        break;
      }
      case 3: {
        int i = usable(sec, o.a);
        if (i < 0) return;
        add<false>(sec[i].h.openToParty(o.party), sec[i].v, sec[i].n, o.data, o.party);
        break;
      }
      case 4: {
        int i = find(pub, o.a, [](auto&) { return true; });
        if (i < 0) return;
        compare(w, pub[i].h, pub[i].v, pub[i].openTo, "looked at");
        break;
      }
      case 5: {
        if ((o.a & 1) || shares.empty()) {
          int i = usable(sec, o.b);
          if (i < 0) return;
          shares.push_back({sec[i].v, sec[i].h.extractStringShare()});
        } else {
          auto& s = shares[o.b % shares.size()];
          auto e = s.second;
          add<true>(T<true>(std::move(e)), s.first, s.first[0].size(), o.data);
        }
        break;
      }
      case 6:
      case 7:
      case 8:
        switch (o.data % 4) {
          case 0: binary<true, true>(w, o); break;
          case 1: binary<true, false>(w, o); break;
          case 2: binary<false, true>(w, o); break;
          default: (o.data & 8) ? binary<true, true>(w, o) : binary<false, false>(w, o);
        }
        break;
      case 9: (o.data % 4) ? unary<true>(w, o) : unary<false>(w, o); break;
      default: (o.data % 4) ? churn(sec, o) : churn(pub, o);
    }
  }
  void verify(World& w) override {
    for (size_t i = 0; i < sec.size(); i++) {
      if (sec[i].empty) continue;
      int to = (int)((i + sec.size()) % w.n);
      auto q = sec[i].h.openToParty(to);
      compare(w, q, sec[i].v, to, "opened at the end");
      dsim::probe("final_values_verified");
    }
    for (auto& s : pub)
      if (!s.empty) compare(w, s.h, s.v, s.openTo, "at the end");
  }
  void clear() override {
    sec.clear();
    pub.clear();
    shares.clear();
  }
  size_t handles() override {
    size_t n = 0;
    for (auto& s : sec) n += s.v.size();
    for (auto& s : pub) n += s.v.size();
    return n;
  }
};
static ZooReg regStr0("string,single", []() -> std::unique_ptr<IZoo> { return std::make_unique<StrZoo<false>>(); });
static ZooReg regStr1("string,batch", []() -> std::unique_ptr<IZoo> { return std::make_unique<StrZoo<true>>(); });

enum SKind { kEager, kLazy, kPlain, kNetPlain };
static std::unique_ptr<sch::IWireKeeper> wk(int kind) {
  return kind == 0 ? sch::WireKeeper::createWithVectorArena<false>()
      : kind == 1  ? sch::WireKeeper::createWithVectorArena<true>()
                   : sch::WireKeeper::createWithUnorderedMap();
}
} // namespace fx
using namespace fx;

// hist=1: bits only, mostly handle churn, and the storage in use is compared exactly
DSIM_HARNESS(front) {
  static const char* snames[] = {"immediate", "deferred", "plaintext", "networked plaintext"};
  bool hist = dsim::param("hist", 0);
  int sk = dsim::param("sched", -1);
  if (sk < 0) {
    static const int t[] = {kEager, kLazy, kEager, kLazy, kLazy, kPlain, kNetPlain, kEager};
    sk = t[dsim::wl("scheduler", 8)];
  }
  EngCfg cfg = drawEng(dsim::param("parties", 3));
  if (sk == kPlain) cfg.n = 1;
  if (sk == kNetPlain) cfg.n = 2;
  Net net = drawNet();
  int keeper = dsim::wl("wire_keeper", 3);
  int nops = 3 + dsim::wl("ops", dsim::param("ops", hist ? 60 : 64));
  // two groups of types per run, so that each gets enough operations; bits always take part
  auto& all = zoos();
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return strcmp(a.first, b.first) < 0; });
  std::vector<size_t> use;
  for (size_t i = 0; i < all.size(); i++)
    if (!strncmp(all[i].first, "bit,", 4)) use.push_back(i);
  if (!hist) {
    use.push_back(dsim::wl("types1", all.size()));
    use.push_back(dsim::wl("types2", all.size()));
  }
  static const int kinds[] = {-1, 0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 9, 9, 9, 9, 10, 10};
  static const int histKinds[] = {-1, 0, 2, 3, 4, 5, 6, 9, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 6, 9};
  std::vector<FOp> ops;
  for (int i = 0; i < nops; i++) {
    FOp o;
    int k = (hist ? histKinds : kinds)[dsim::wl("op", 20)];
    if (k < 0) continue;
    o.kind = k;
    // weight the drawn groups
    int t = dsim::wl("type", 10);
    o.type = use[t < 2 && use.size() > 2 ? t : use.size() > 2 ? 2 + t % 2 : t % 2];
    o.a = dsim::wl("a", 256);
    o.b = dsim::wl("b", 256);
    o.c = dsim::wl("c", 240);
    o.party = dsim::wl("party", cfg.n);
    o.data = dsim::dataRand();
    ops.push_back(o);
  }
  bool flush = dsim::wl("flush", 2);
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  std::string what = strf("%s scheduler, storage %d", snames[sk], keeper);
  dsim::note(strf("%s, %s, %s transport, %zu operations on%s%s%s", what.c_str(), cfg.desc().c_str(), name(net), ops.size(),
                  hist ? " bits" : "", hist ? "" : (std::string(" ") + all[use[2]].first).c_str(),
                  hist ? "" : (std::string(" ") + all[use[3]].first).c_str()));
  dsim::partyGlobal(keeperSlot(), sizeof(SchedPtr));
  auto cl = std::make_shared<Cluster>(cfg.n, net);
  cl->timeoutSec = 60;
  addParties(cfg.n, [&, cl](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
    std::unique_ptr<IPartyCommunicationAgentFactory> af = cl->factory(me, mc);
    std::unique_ptr<sch::IScheduler> s;
    if (sk == kPlain)
      s = std::make_unique<sch::PlaintextScheduler>(wk(keeper));
    else if (sk == kNetPlain)
      s = std::make_unique<sch::NetworkPlaintextScheduler>(me, fbpcf::engine::communication::getAgentMap(cfg.n, me, *af), wk(keeper));
    else {
      auto e = makeEngine(cfg, me, *af, mc, true, false);
      if (sk == kEager)
        s = std::make_unique<sch::EagerScheduler>(std::move(e), wk(keeper));
      else {
        std::shared_ptr<sch::IWireKeeper> w = wk(keeper);
        s = std::make_unique<sch::LazyScheduler>(std::move(e), w, std::make_unique<sch::GateKeeper>(w));
      }
    }
    fr::MpcGame<0> game(std::move(s));
    using K = sch::SchedulerKeeper<0>;
    World w;
    w.me = me;
    w.n = cfg.n;
    w.what = what.c_str();
    {
      std::map<size_t, std::unique_ptr<IZoo>> zoo;
      for (size_t t : use)
        if (!zoo.count(t)) (zoo[t] = all[t].second())->wp = &w;
      auto runPending = [&] { // dependent operations, more of them than any pending one depends on
        BitT<true, false> x(true, 0), y(true, 1 % cfg.n);
        for (uint64_t i = 0; i < w.depth; i++) x = x & y;
        auto q = x.openToParty(0);
        bool v = q.getValue();
        if (me == 0) DSIM_CHECK(v, "wrong-bit", "%s: chain of ands", w.what);
        w.depth = 6;
      };
      auto live = [&] {
        auto st = K::getWireStatistics();
        return (long long)(st.first - st.second);
      };
      size_t step = 0;
      for (auto& o : ops) {
        zoo[o.type]->op(w, o);
        if (hist && (sk != kLazy || (flush && step % 16 == 5))) {
          if (sk == kLazy) runPending();
          std::set<uint64_t> ids;
          for (auto& z : zoo) z.second->ids(ids);
          DSIM_CHECK(live() == (long long)ids.size(), "storage-count",
                     "%s: party %d: %lld values are stored, %zu can be referred to (after operation %zu)", w.what, me, live(),
                     ids.size(), step);
          dsim::probe("storage_counts_verified");
        }
        if (!hist && sk != kLazy) {
          size_t h = 0;
          for (auto& z : zoo) h += z.second->handles();
          DSIM_CHECK(live() <= (long long)h, "storage-count", "%s: party %d: %lld values are stored, there are %zu handles (after operation %zu)",
                     w.what, me, live(), h, step);
          dsim::probe("storage_counts_verified");
        }
        step++;
      }
      for (auto& z : zoo) z.second->verify(w);
      for (auto& z : zoo) z.second->clear();
      if (flush || sk != kLazy) {
        runPending();
        DSIM_CHECK(live() == 0, "wire-leak", "%s: party %d: %lld values are still stored, none can be referred to", w.what, me, live());
        dsim::probe("wire_counts_verified");
      }
    }
    forget(w);
    if (sk == kEager || sk == kLazy) K::deleteEngine();
  });
  dsim::RunOptions ro;
  ro.maxSteps = 8'000'000;
  mustFinish(ro);
  dsim::probe(sk == kLazy ? "deferred_runs" : sk == kEager ? "immediate_runs" : "plaintext_runs");
}
