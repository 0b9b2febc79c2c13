// C14: permuting, shuffling, compacting.
#pragma once
#include "game.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/compactor/DummyCompactorFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"

namespace px {
using namespace hx;
namespace sl = fbpcf::mpc_std_lib;
namespace su = fbpcf::mpc_std_lib::util;

struct POp {
  uint32_t type = 0, kind = 0, impl = 0, size = 1, how = 0, owner = 0, chooser = 0, labels = 0;
  uint64_t data = 0;
};

// plaintext values of a type: one per row
template <class T>
struct Plain {
  using Row = T;
};
template <>
struct Plain<std::vector<bool>> {
  using Row = std::vector<bool>;
};

template <class T>
T drawRow(Prf& g, size_t i, uint64_t shape);
template <>
inline bool drawRow<bool>(Prf& g, size_t, uint64_t) { return g.next() & 1; }
template <>
inline uint32_t drawRow<uint32_t>(Prf& g, size_t i, uint64_t shape) {
  return shape % 4 == 0 ? (uint32_t)g.below(3) : (uint32_t)(g.next() << 10 | (i & 1023));
}
template <class I>
I drawIntp(Prf& g) {
  using N = typename I::NativeType;
  unsigned __int128 span = (unsigned __int128)((__int128)I::kMax - (__int128)I::kMin) + 1;
  return I((N)((__int128)I::kMin + (__int128)(g.next() % span)));
}
template <>
inline su::Intp<true, 9> drawRow<su::Intp<true, 9>>(Prf& g, size_t, uint64_t) { return drawIntp<su::Intp<true, 9>>(g); }
template <>
inline su::Intp<false, 13> drawRow<su::Intp<false, 13>>(Prf& g, size_t, uint64_t) { return drawIntp<su::Intp<false, 13>>(g); }
template <>
inline su::Intp<true, 64> drawRow<su::Intp<true, 64>>(Prf& g, size_t, uint64_t) { return drawIntp<su::Intp<true, 64>>(g); }
template <>
inline std::vector<bool> drawRow<std::vector<bool>>(Prf& g, size_t, uint64_t shape) {
  static const size_t w[] = {8, 1, 17, 64, 130};
  std::vector<bool> r(w[shape % 5]);
  for (size_t i = 0; i < r.size(); i++) r[i] = g.next() & 1;
  return r;
}
template <class T>
struct Draw {
  static T row(Prf& g, size_t i, uint64_t s) { return drawRow<T>(g, i, s); }
};
template <class A, class B>
struct Draw<std::pair<A, B>> {
  static std::pair<A, B> row(Prf& g, size_t i, uint64_t s) {
    A a = Draw<A>::row(g, i, s);
    return {a, Draw<B>::row(g, i, s)};
  }
};

// secret batches of rows: into and out of
template <class T>
struct Io {
  using Sec = typename su::SecBatchType<T, 0>::type;
  static Sec in(const std::vector<T>& rows, int owner) { return su::MpcAdapters<T, 0>::processSecretInputs(rows, owner); }
  static std::vector<T> out(const Sec& s, int party) { return su::MpcAdapters<T, 0>::openToParty(s, party); }
};
template <>
struct Io<std::vector<bool>> {
  using T = std::vector<bool>;
  using Sec = typename su::SecBatchType<T, 0>::type;
  static Sec in(const std::vector<T>& rows, int owner) {
    std::vector<std::vector<bool>> cols(rows.empty() ? 0 : rows[0].size(), std::vector<bool>(rows.size()));
    for (size_t i = 0; i < rows.size(); i++)
      for (size_t j = 0; j < cols.size(); j++) cols[j][i] = rows[i][j];
    return su::MpcAdapters<T, 0>::processSecretInputs(cols, owner);
  }
  static std::vector<T> out(const Sec& s, int party) {
    auto cols = su::MpcAdapters<T, 0>::openToParty(s, party);
    std::vector<T> rows(cols.empty() ? 0 : cols[0].size(), T(cols.size()));
    for (size_t i = 0; i < rows.size(); i++)
      for (size_t j = 0; j < cols.size(); j++) rows[i][j] = cols[j][i];
    return rows;
  }
};
template <class A, class B>
struct Io<std::pair<A, B>> {
  using T = std::pair<A, B>;
  using Sec = typename su::SecBatchType<T, 0>::type;
  static Sec in(const std::vector<T>& rows, int owner) {
    std::vector<A> a;
    std::vector<B> b;
    for (auto& r : rows) {
      a.push_back(r.first);
      b.push_back(r.second);
    }
    return {Io<A>::in(a, owner), Io<B>::in(b, owner)};
  }
  static std::vector<T> out(const Sec& s, int party) {
    auto a = Io<A>::out(s.first, party);
    auto b = Io<B>::out(s.second, party);
    std::vector<T> r;
    for (size_t i = 0; i < a.size() && i < b.size(); i++) r.push_back({a[i], b[i]});
    return r;
  }
};

inline std::vector<uint32_t> drawOrder(size_t n, uint32_t how, Prf& g) {
  std::vector<uint32_t> o(n);
  for (size_t i = 0; i < n; i++) o[i] = i;
  switch (how % 6) {
    case 0: break;
    case 1: std::reverse(o.begin(), o.end()); break;
    case 2: if (n) std::rotate(o.begin(), o.begin() + g.below(n), o.end()); break;
    case 3: if (n > 1) std::swap(o[g.below(n)], o[g.below(n)]); break;
    default:
      for (size_t i = n; i > 1; i--) std::swap(o[i - 1], o[g.below(i)]);
  }
  return o;
}

struct PEnv {
  int me = 0;
  const char* what = "";
  uint64_t depth = 0;
};

struct IPermType {
  virtual ~IPermType() = default;
  virtual void run(PEnv& e, const POp& o) = 0;
};
using PermMaker = std::unique_ptr<IPermType> (*)();
std::vector<std::pair<const char*, PermMaker>>& permTypes();
struct PermReg {
  PermReg(const char* n, PermMaker m) { permTypes().push_back({n, m}); }
};

template <class T>
struct PermType : IPermType {
  const char* name;
  explicit PermType(const char* n) : name(n) {}
  using IO = Io<T>;
  using Sec = typename IO::Sec;

  void compare(PEnv& e, const POp& o, const Sec& s, const std::vector<T>& want, const char* how) {
    for (int p = 0; p < 2; p++) {
      auto got = IO::out(s, p);
      if (p != e.me) continue;
      DSIM_CHECK(got.size() == want.size(), "wrong-count", "%s, %s of %u %s: %zu rows came out, expected %zu", e.what, how, o.size,
                 name, got.size(), want.size());
      for (size_t i = 0; i < want.size(); i++)
        DSIM_CHECK(got[i] == want[i], "wrong-row", "%s, %s of %u %s (order kind %u): party %d sees another row at position %zu", e.what,
                   how, o.size, name, o.how % 6, e.me, i);
    }
  }
  // the outcome as every party sees it
  std::vector<T> opened(PEnv& e, const Sec& s) {
    std::vector<T> r;
    for (int p = 0; p < 2; p++) {
      auto got = IO::out(s, p);
      if (p == e.me) r = got;
    }
    return r;
  }

  void run(PEnv& e, const POp& o) override {
    Prf g{o.data};
    uint64_t shape = g.next();
    std::vector<T> rows;
    for (size_t i = 0; i < o.size; i++) rows.push_back(Draw<T>::row(g, i, shape));
    auto order = drawOrder(o.size, o.how, g);
    int peer = 1 - e.me;
    auto in = [&](const std::vector<T>& r) { return IO::in(o.owner == (uint32_t)e.me ? r : std::vector<T>(r.size(), blank(r)), o.owner); };
    Sec src = o.size ? in(rows) : none(Draw<T>::row(g, 0, shape), o.owner);
    auto permuterFactory = [&]() -> std::unique_ptr<sl::permuter::IPermuterFactory<Sec>> {
      if constexpr (!std::is_same_v<T, std::vector<bool>>)
        if (o.impl % 8 == 7 && o.size) return std::make_unique<sl::permuter::insecure::DummyPermuterFactory<T, 0>>(e.me, peer);
      return std::make_unique<sl::permuter::AsWaksmanPermuterFactory<T, 0>>(e.me, peer);
    };
    if (o.kind == 0) {
      auto p = permuterFactory()->create();
      Sec r = o.chooser == (uint32_t)e.me ? p->permute(src, o.size, order) : p->permute(src, o.size);
      std::vector<T> want;
      for (size_t i = 0; i < o.size; i++) want.push_back(rows[order[i]]);
      compare(e, o, r, want, "permutation");
      if (o.impl & 8) compare(e, o, src, rows, "unchanged source");
      if (o.impl & 16) { // again, by the other party, over the outcome
        Sec r2 = o.chooser != (uint32_t)e.me ? p->permute(r, o.size, order) : p->permute(r, o.size);
        std::vector<T> w2;
        for (size_t i = 0; i < o.size; i++) w2.push_back(want[order[i]]);
        compare(e, o, r2, w2, "second permutation");
      }
      dsim::probe("permutations_verified");
    } else if (o.kind == 1) {
      shuffle(e, o, src, rows, permuterFactory());
    } else {
      compact(e, o, src, rows, g);
    }
  }
  // an empty batch
  static Sec none(const T& row, int owner) {
    return su::MpcAdapters<T, 0>::unbatching(IO::in({row}, owner), std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>({0, 1})))[0];
  }
  static T blank(const std::vector<T>& r) {
    if constexpr (std::is_same_v<T, std::vector<bool>>) return T(r[0].size());
    else return T{};
  }
  void shuffle(PEnv& e, const POp& o, const Sec& src, const std::vector<T>& rows,
               std::unique_ptr<sl::permuter::IPermuterFactory<Sec>> pf) {
    sl::shuffler::PermuteBasedShufflerFactory<Sec> sf(e.me, 1 - e.me, std::move(pf), std::make_unique<fbpcf::engine::util::AesPrgFactory>());
    auto s = sf.create();
    auto r = s->shuffle(src, o.size);
    auto got = opened(e, r);
    DSIM_CHECK(got.size() == rows.size(), "wrong-count", "%s, shuffle of %u %s: %zu rows came out", e.what, o.size, name, got.size());
    DSIM_CHECK(std::is_permutation(got.begin(), got.end(), rows.begin()), "wrong-row", "%s, shuffle of %u %s: not a rearrangement of the input", e.what, o.size, name);
    if (rows.size() >= 24 && std::is_same_v<T, std::pair<su::Intp<true, 64>, uint32_t>>) {
      DSIM_CHECK(got != rows, "not-shuffled", "%s, shuffle of %u %s: nothing moved", e.what, o.size, name);
      dsim::probe("shuffles_moving_rows");
    }
    if (o.impl & 8) compare(e, o, src, rows, "unchanged source");
    dsim::probe("shuffles_verified");
  }
  void compact(PEnv& e, const POp& o, const Sec& src, const std::vector<T>& rows, Prf& g) {
    if constexpr (!std::is_same_v<T, std::vector<bool>>) {
      using P = std::pair<T, bool>;
      std::vector<bool> label(rows.size());
      for (size_t i = 0; i < label.size(); i++)
        label[i] = o.labels == 0 ? g.next() & 1 : o.labels == 1 ? true : o.labels == 2 ? i % 2 == 0 : o.labels == 3 ? g.below(8) == 0 : false;
      std::vector<T> want;
      for (size_t i = 0; i < rows.size(); i++)
        if (label[i]) want.push_back(rows[i]);
      auto secLabel = o.size ? Io<bool>::in(label, 1 - o.owner) : PermType<bool>::none(true, 1 - o.owner);
      std::unique_ptr<sl::compactor::ICompactorFactory<Sec, typename Io<bool>::Sec>> cf;
      bool dummy = o.impl % 8 == 7 && !want.empty();
      if (dummy) {
        cf = std::make_unique<sl::compactor::insecure::DummyCompactorFactory<T, bool, 0>>(e.me, 1 - e.me);
      } else {
        using PS = typename su::SecBatchType<P, 0>::type;
        cf = std::make_unique<sl::compactor::ShuffleBasedCompactorFactory<T, bool, 0>>(
            e.me, 1 - e.me,
            std::make_unique<sl::shuffler::PermuteBasedShufflerFactory<PS>>(
                e.me, 1 - e.me, std::make_unique<sl::permuter::AsWaksmanPermuterFactory<P, 0>>(e.me, 1 - e.me),
                std::make_unique<fbpcf::engine::util::AesPrgFactory>()));
      }
      auto c = cf->create();
      auto [rs, rl] = c->compaction(src, secLabel, o.size, true);
      std::vector<bool> gl;
      for (int p = 0; p < 2; p++) {
        auto x = Io<bool>::out(rl, p);
        if (p == e.me) gl = x;
      }
      auto got = opened(e, rs);
      DSIM_CHECK(got.size() == want.size() && gl.size() == want.size(), "wrong-count",
                 "%s, compaction of %u %s: %zu rows and %zu labels came out, %zu rows are labelled", e.what, o.size, name, got.size(), gl.size(), want.size());
      for (size_t i = 0; i < gl.size(); i++)
        DSIM_CHECK(gl[i], "wrong-row", "%s, compaction of %u %s: an unlabelled row came out", e.what, o.size, name);
      DSIM_CHECK(dummy ? got == want : std::is_permutation(got.begin(), got.end(), want.begin()), "wrong-row",
                 "%s, compaction of %u %s: the rows are not the labelled ones", e.what, o.size, name);
      dsim::probe(want.empty() ? "empty_compactions" : "compactions_verified");
    } else {
      run(e, with(o, 0));
    }
  }
  static POp with(POp o, uint32_t kind) {
    o.kind = kind;
    return o;
  }
};
} // namespace px
#define PX_TYPE(id, label, ...) \
  static px::PermReg px_reg_##id(label, []() -> std::unique_ptr<px::IPermType> { return std::make_unique<px::PermType<__VA_ARGS__>>(label); });
