// Integers of one width and signedness, single or batched.
#pragma once
#include "fbpcf/frontend/Int.h"
#include "front.h"

namespace fx {
template <bool Sg, int W, bool B, int N> // N: a narrower width to cast to and back
struct IntZoo : IZoo {
  template <bool S>
  using T = fr::Int<Sg, W, S, 0, B>;
  template <bool S>
  using SL = Slot<T<S>, std::vector<uint64_t>>; // values modulo 2^W
  using U = std::conditional_t<Sg, int64_t, uint64_t>;
  static constexpr uint64_t kMask = W == 64 ? ~0ull : (1ull << W) - 1;
  std::vector<SL<true>> sec;
  std::vector<SL<false>> pub;
  std::vector<std::pair<std::vector<uint64_t>, typename T<true>::ExtractedInt>> shares;
  template <bool S>
  auto& pool() {
    if constexpr (S) return sec;
    else return pub;
  }
  static U sx(uint64_t v) { // the integer these W bits stand for
    v &= kMask;
    if constexpr (Sg)
      if (W < 64 && (v >> (W - 1) & 1)) v |= ~kMask;
    return (U)v;
  }
  static auto arg(const std::vector<uint64_t>& v) {
    if constexpr (B) {
      std::vector<U> r;
      for (auto x : v) r.push_back(sx(x));
      return r;
    } else
      return sx(v[0]);
  }
  static std::vector<uint64_t> drawn(uint64_t d, size_t n) {
    static const uint64_t edge[] = {0, 1, ~0ull, 1ull << (W - 1), (1ull << (W - 1)) - 1, 2, ~1ull, 3};
    Prf g{d};
    std::vector<uint64_t> v(n);
    for (auto& x : v) {
      uint64_t r = g.next();
      x = (r & 1 ? edge[(r >> 1) & 7] : g.next()) & kMask;
    }
    return v;
  }
  template <bool S>
  void add(T<S>&& h, std::vector<uint64_t> v, uint64_t where, int openTo = -1) {
    SL<S> s{std::move(h)};
    s.n = v.size();
    s.v = std::move(v);
    s.openTo = openTo;
    put(pool<S>(), std::move(s), where);
  }
  template <class F>
  static std::vector<uint64_t> map2(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, F f) {
    std::vector<uint64_t> r(a.size());
    for (size_t i = 0; i < r.size(); i++) r[i] = f(a[i], b[i]) & kMask;
    return r;
  }
  template <class F>
  static std::vector<bool> cmp(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b, F f) {
    std::vector<bool> r(a.size());
    for (size_t i = 0; i < r.size(); i++) r[i] = f(sx(a[i]), sx(b[i]));
    return r;
  }
  void compare(World& w, const T<false>& h, const std::vector<uint64_t>& v, int openTo, const char* how) {
    auto got = h.getValue();
    if (!w.known(openTo)) return;
    std::vector<uint64_t> g;
    if constexpr (B) {
      DSIM_CHECK(got.size() == v.size(), "wrong-length", "%s: party %d: %d-bit batch %s has %zu elements instead of %zu", w.what,
                 w.me, W, how, got.size(), v.size());
      for (auto x : got) g.push_back(x);
    } else
      g.push_back(got);
    for (size_t i = 0; i < g.size(); i++)
      DSIM_CHECK(g[i] == (uint64_t)sx(v[i]), "wrong-integer",
                 "%s: party %d: element %zu of %zu of a %d-bit %ssigned integer %s is %lld instead of %lld", w.what, w.me, i,
                 v.size(), W, Sg ? "" : "un", how, (long long)g[i], (long long)sx(v[i]));
    dsim::probe("opened_values_verified");
  }
  template <bool S>
  void unary(World& w, const FOp& o) {
    auto& p = pool<S>();
    int i = usable(p, o.a);
    if (i < 0) return;
    T<S> x = p[i].h;
    auto v = p[i].v;
    switch (o.c % 8) {
      case 0:
        if constexpr (Sg) {
          add<S>(-x, map2(v, v, [](uint64_t a, uint64_t) { return 0 - a; }), o.data);
          w.depth += W;
        }
        break;
      case 1:
        if constexpr (Sg) {
          add<S>(fr::abs(x), map2(v, v, [](uint64_t a, uint64_t) { return a >> (W - 1) & 1 ? 0 - a : a; }), o.data);
          w.depth += W + 1;
        }
        break;
      case 2: { // keep the low bits only
        dsim::probe(Sg ? "signed_casts" : "unsigned_casts");
        auto y = x.template cast<N>().template cast<W>();
        constexpr uint64_t m = N == 64 ? ~0ull : (1ull << N) - 1;
        add<S>(std::move(y), map2(v, v, [&](uint64_t a, uint64_t) { return Sg && (a >> (N - 1) & 1) ? a | ~m : a & m; }), o.data);
        break;
      }
      case 3: // one bit of it
      {
        int b = o.b % W;
        std::vector<bool> r;
        for (auto e : v) r.push_back(e >> b & 1);
        if (o.data & 1) {
          BitT<S, B> h = x[b];
          putBit<S, B>(w, std::move(h), r, o.data >> 3);
        } else {
          const auto& c = x;
          putBit<S, B>(w, BitT<S, B>(c[b]), r, o.data >> 3);
        }
        break;
      }
      case 4: { // replace one bit
        int b = o.b % W;
        auto& bp = bits<S, B>(w);
        int j = find(bp, o.b >> 6, [&](auto& s) { return s.openTo < 0 && s.n == v.size(); });
        if (j < 0) return;
        for (size_t k = 0; k < v.size(); k++) v[k] = (v[k] & ~(1ull << b)) | (uint64_t)bp[j].v[k] << b;
        p[i].h[b] = bp[j].h;
        p[i].v = v;
        break;
      }
      case 5:
        if constexpr (S && B) {
          std::vector<T<true>> others;
          auto all = v;
          int m = joinOf(o.b);
          for (int q = 0; q < m; q++) {
            int j = usable(p, o.a + 1 + q);
            if (all.size() + p[j].n > 200) break;
            others.push_back(p[j].h);
            all.insert(all.end(), p[j].v.begin(), p[j].v.end());
          }
          add<S>(x.batchingWith(others), all, o.data);
        }
        break;
      case 6:
        if constexpr (S && B) {
          auto sizes = std::make_shared<std::vector<uint32_t>>();
          Prf g{o.data};
          size_t at = 0;
          std::vector<std::vector<uint64_t>> parts;
          while (at < v.size()) {
            size_t k = sizes->size() >= 2 + (o.data >> 60) ? v.size() - at : 1 + g.below(v.size() - at);
            sizes->push_back(k);
            parts.push_back({v.begin() + at, v.begin() + at + k});
            at += k;
          }
          auto r = x.unbatching(sizes);
          DSIM_CHECK(r.size() == parts.size(), "unbatch-width", "%s: %zu parts instead of %zu", w.what, r.size(), parts.size());
          for (size_t k = 0; k < r.size(); k++) add<S>(std::move(r[k]), parts[k], o.data >> (3 + k));
        }
        break;
      default:
        if constexpr (B) {
          size_t n = x.getBatchSize();
          DSIM_CHECK(n == v.size(), "batch-size", "%s: party %d: integer reports a batch of %zu elements instead of %zu", w.what,
                     w.me, n, v.size());
        }
    }
  }
  template <bool S, bool S2>
  void binary(World& w, const FOp& o) {
    auto& p = pool<S>();
    auto& q = pool<S2>();
    int i = usable(p, o.a);
    if (i < 0) return;
    int j = find(q, o.b, [&](auto& s) { return s.openTo < 0 && s.n == p[i].n; });
    if (j < 0) return;
    constexpr bool R = S || S2;
    const auto& x = p[i].h;
    const auto& y = q[j].h;
    const auto a = p[i].v, b = q[j].v;
    w.depth += W + 1;
    switch (o.c % 10) {
      case 0: add<R>(x + y, map2(a, b, [](uint64_t s, uint64_t t) { return s + t; }), o.data); break;
      case 1: add<R>(x - y, map2(a, b, [](uint64_t s, uint64_t t) { return s - t; }), o.data); break;
      case 2: putBit<R, B>(w, x < y, cmp(a, b, [](U s, U t) { return s < t; }), o.data); break;
      case 3: putBit<R, B>(w, x <= y, cmp(a, b, [](U s, U t) { return s <= t; }), o.data); break;
      case 4: putBit<R, B>(w, x > y, cmp(a, b, [](U s, U t) { return s > t; }), o.data); break;
      case 5: putBit<R, B>(w, x >= y, cmp(a, b, [](U s, U t) { return s >= t; }), o.data); break;
      case 6: putBit<R, B>(w, x == y, cmp(a, b, [](U s, U t) { return s == t; }), o.data); break;
      case 7: add<R>(fr::max(x, y), map2(a, b, [](uint64_t s, uint64_t t) { return sx(s) < sx(t) ? t : s; }), o.data); w.depth += 1; break;
      case 8: add<R>(fr::min(x, y), map2(a, b, [](uint64_t s, uint64_t t) { return sx(s) < sx(t) ? s : t; }), o.data); w.depth += 1; break;
      default: {
        auto pick = [&](auto& bp) { return find(bp, o.data >> 8, [&](auto& s) { return s.openTo < 0 && s.n == a.size(); }); };
        auto val = [&](const std::vector<bool>& c) {
          std::vector<uint64_t> r(a.size());
          for (size_t k = 0; k < r.size(); k++) r[k] = c[k] ? b[k] : a[k];
          return r;
        };
        if (o.data & 4) {
          auto& bp = bits<true, B>(w);
          int k = pick(bp);
          if (k >= 0) add<true>(x.mux(bp[k].h, y), val(bp[k].v), o.data);
        } else {
          auto& bp = bits<false, B>(w);
          int k = pick(bp);
          if (k >= 0) add<R>(x.mux(bp[k].h, y), val(bp[k].v), o.data);
        }
      }
    }
  }
  // numbers that W bits cannot hold are refused as inputs
  void outOfRange(World& w, const FOp& o) {
    if constexpr (W < 64) {
      size_t n = B ? batchOf(o.b) : 1;
      if (!n) return;
      auto in = arg(drawn(o.data, n));
      U bad;
      if constexpr (Sg) {
        const int64_t half = (int64_t)1 << (W - 1);
        const int64_t t[] = {half, -half - 1, half + (int64_t)(o.data >> 50), -half - 1 - (int64_t)(o.data >> 50), INT64_MAX, INT64_MIN, 2 * half, 2 * half + 1};
        bad = t[o.data >> 3 & 7];
      } else {
        const uint64_t lim = 1ull << W;
        const uint64_t t[] = {lim, lim + (o.data >> 50), ~0ull, lim + 1, 1ull << 63, lim, lim, lim + 1};
        bad = t[o.data >> 3 & 7];
      }
      if constexpr (B) in[(o.data >> 8) % n] = bad;
      else in = bad;
      bool refused = false;
      try {
        if (o.a & 1) T<false> h(in);
        else T<true> h(in, o.party);
      } catch (const std::runtime_error&) {
        refused = true;
      }
      DSIM_CHECK(refused, "out-of-range-accepted", "%s: party %d: a %s integer of %d bits accepted %lld as input", w.what, w.me,
                 Sg ? "signed" : "unsigned", W, (long long)bad);
      dsim::probe("out_of_range_refused");
    }
  }
  void op(World& w, const FOp& o) override {
    static_assert(N <= W);
    if (o.kind <= 2 && o.c % 16 == 5) outOfRange(w, o);
    switch (o.kind) {
      case 0:
      case 1: { // secret input of one party; a second one of the same shape
        size_t n = B ? batchOf(o.b) : 1;
        for (uint32_t k = 0; k <= o.a % 2; k++) {
          int owner = (o.party + k) % w.n;
          auto v = drawn(o.data + k, n);
          auto mine = owner == w.me ? v : drawn(mix(o.data + k + 77 + w.me), n);
          if (o.c % 4 == 3 && !sec.empty()) { // into an existing handle
            auto& s = sec[o.c / 4 % sec.size()];
            s.h.privateInput(arg(mine), owner);
            s.v = v;
            s.n = n;
            s.openTo = -1;
            s.empty = false;
          } else
            add<true>(T<true>(arg(mine), owner), v, o.data >> (20 + k));
        }
        break;
      }
      case 2: {
        size_t n = B ? batchOf(o.b) : 1;
        int j = usable(sec, o.a);
        if (j >= 0) n = sec[j].n;
        auto v = drawn(o.data, n);
        add<false>(T<false>(arg(v)), v, o.data >> 20);
        break;
      }
      case 3: { // open
        int i = usable(sec, o.a);
        if (i < 0) return;
        add<false>(sec[i].h.openToParty(o.party), sec[i].v, o.data, o.party);
        break;
      }
      case 4: { // look
        int i = find(pub, o.a, [](auto&) { return true; });
        if (i < 0) return;
        compare(w, pub[i].h, pub[i].v, pub[i].openTo, "looked at");
        break;
      }
      case 5: { // shares out and in again
        if ((o.a & 1) || shares.empty()) {
          int i = usable(sec, o.b);
          if (i < 0) return;
          shares.push_back({sec[i].v, sec[i].h.extractIntShare()});
        } else {
          auto& s = shares[o.b % shares.size()];
          auto e = s.second;
          add<true>(T<true>(std::move(e)), s.first, o.data);
        }
        break;
      }
      case 6:
      case 7:
      case 8:
        switch (o.data % 4) {
          case 0: binary<true, true>(w, o); break;
          case 1: binary<true, false>(w, o); break;
          case 2: binary<false, true>(w, o); break;
          default: (o.data & 8) ? binary<true, true>(w, o) : binary<false, false>(w, o);
        }
        break;
      case 9: (o.data % 4) ? unary<true>(w, o) : unary<false>(w, o); break;
      default: (o.data % 4) ? churn(sec, o) : churn(pub, o);
    }
  }
  void verify(World& w) override {
    for (size_t i = 0; i < sec.size(); i++) {
      if (sec[i].empty) continue;
      int to = (int)((i + sec.size()) % w.n);
      auto q = sec[i].h.openToParty(to);
      compare(w, q, sec[i].v, to, "opened at the end");
      dsim::probe("final_values_verified");
    }
    for (auto& s : pub)
      if (!s.empty) compare(w, s.h, s.v, s.openTo, "at the end");
  }
  void clear() override {
    sec.clear();
    pub.clear();
    shares.clear();
  }
  size_t handles() override { return (sec.size() + pub.size()) * W; }
};
#define FX_ZOO(SG, W, B, N) \
  static ZooReg reg_##SG##_##W##_##B(#SG "," #W "," #B, []() -> std::unique_ptr<IZoo> { return std::make_unique<IntZoo<SG, W, B, N>>(); });
} // namespace fx
