// C01 C04: the public frontend types (Bit, Int, BitString), driven by a pre-drawn operation list; every handle
// carries the value it has to have.
#pragma once
#include <set>
#include "engine.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/mpcGame.h"

namespace fx {
using namespace hx;
namespace fr = fbpcf::frontend;

struct FOp {
  uint32_t type = 0, kind = 0, a = 0, b = 0, c = 0;
  int party = 0;
  uint64_t data = 0;
};

// One handle and what it has to hold. `id` names the storage (handles of one value share it).
template <class H, class V>
struct Slot {
  H h;
  V v{};
  size_t n = 1; // batch size
  int openTo = -1; // only that party knows the value
  bool empty = true;
  std::set<uint64_t> ids; // storage of a single bit
};

constexpr size_t kPool = 9;

struct World {
  int me = 0, n = 2;
  const char* what = "";
  uint64_t nextId = 1;
  uint64_t depth = 4; // upper bound of the number of dependent rounds asked for
  uint64_t extra = 0;
  bool known(int openTo) const { return openTo < 0 || openTo == me; }
};

inline int joinOf(uint32_t d) { // how many more batches are joined to one
  static const int t[] = {0, 1, 2, 1, 2, 3, 5, 9};
  return t[d % 8];
}
inline size_t batchOf(uint64_t d) {
  static const size_t s[] = {2, 1, 3, 8, 9, 16, 17, 65};
  return s[d % 8];
}

// index of a slot satisfying f, counted backwards from the latest
template <class P, class F>
int find(P& pool, uint32_t start, F f) {
  size_t n = pool.size();
  for (size_t i = 0; i < n; i++) {
    size_t j = n - 1 - (start + i) % n;
    if (!pool[j].empty && f(pool[j])) return (int)j;
  }
  return -1;
}
template <class P>
int usable(P& pool, uint32_t start) {
  return find(pool, start, [](auto& s) { return s.openTo < 0; });
}

template <class S>
void put(std::vector<S>& pool, S&& s, uint64_t where) {
  s.empty = false;
  if (pool.size() < kPool) {
    pool.push_back(std::move(s));
    return;
  }
  S& d = pool[where % pool.size()];
  if (where & 64) { // give the new value to an existing handle by moving or by copying it
    d.h = std::move(s.h);
  } else {
    d.h = s.h;
  }
  d.v = s.v;
  d.n = s.n;
  d.openTo = s.openTo;
  d.empty = false;
  d.ids = s.ids;
}

// histories of handles: copies, moves, assignments (also to itself), exchanges, ends
template <class S>
void churn(std::vector<S>& p, const FOp& o) {
  if (p.empty()) return;
  size_t i = o.a % p.size(), j = o.b % p.size();
  if (p[i].empty) return;
  using H = decltype(p[i].h);
  auto meta = [](S& d, const S& s) {
    d.v = s.v;
    d.n = s.n;
    d.openTo = s.openTo;
    d.empty = s.empty;
    d.ids = s.ids;
  };
  switch (o.c % 10) {
    case 0:
      if (p.size() < kPool) {
        S s{H(p[i].h)};
        meta(s, p[i]);
        p.push_back(std::move(s));
      }
      break;
    case 1: // a new handle takes the value over
      if (p.size() < kPool) {
        S s{H(std::move(p[i].h))};
        meta(s, p[i]);
        p[i].empty = true;
        p[i].ids.clear();
        p.push_back(std::move(s));
      }
      break;
    case 2:
      p[j].h = p[i].h;
      if (i != j) meta(p[j], p[i]);
      else dsim::probe("self_assignments");
      break;
    case 3: { // to itself, through a reference
      H& r = p[i].h;
      p[i].h = r;
      dsim::probe("self_assignments");
      break;
    }
    case 4:
      if (i != j) {
        p[j].h = std::move(p[i].h);
        meta(p[j], p[i]);
        p[i].empty = true;
        p[i].ids.clear();
      }
      break;
    case 5:
      std::swap(p[i].h, p[j].h);
      if (i != j) {
        S t;
        meta(t, p[i]);
        meta(p[i], p[j]);
        meta(p[j], t);
      }
      break;
    case 6:
      p.erase(p.begin() + i); // later ones move up
      break;
    case 7: {
      std::vector<H> v(3, p[i].h); // many copies at once, then gone
      v.push_back(p[j].h);
      v.insert(v.begin(), p[i].h);
      v.erase(v.begin() + 1);
      p[i].h = v[0];
      break;
    }
    case 8: {
      H a = p[i].h, b;
      b = a;
      a = H();
      p[i].h = std::move(b);
      break;
    }
    default:
      p[i].h = H();
      p[i].empty = true;
      p[i].ids.clear();
      break;
  }
  dsim::probe("handle_moves");
}

template <bool S, bool B>
using BitT = fr::Bit<S, 0, B>;
template <bool S, bool B>
using BSlot = Slot<BitT<S, B>, std::vector<bool>>;
template <bool S, bool B>
std::vector<BSlot<S, B>>& bits(World& w);
// parties live in one process: their pools are apart
void forget(World& w);

template <bool B>
auto boolArg(const std::vector<bool>& v) {
  if constexpr (B) return v;
  else return (bool)v[0];
}
template <bool B, class T>
std::vector<bool> boolVec(const T& v) {
  if constexpr (B) return v;
  else return std::vector<bool>{v};
}
inline std::string show(const std::vector<bool>& v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 80; i++) s += v[i] ? '1' : '0';
  return s;
}
template <bool S, bool B>
void putBit(World& w, BitT<S, B>&& h, std::vector<bool> v, uint64_t where, int openTo = -1) {
  BSlot<S, B> s{std::move(h)};
  s.n = v.size();
  s.v = std::move(v);
  s.openTo = openTo;
  s.ids = {w.nextId++};
  put(bits<S, B>(w), std::move(s), where);
}

// one group of types; all of them see the same operation list
struct IZoo {
  virtual ~IZoo() = default;
  World* wp = nullptr;
  virtual void op(World& w, const FOp& o) = 0;
  virtual void verify(World& w) = 0; // opens and compares everything reachable
  virtual void clear() = 0;
  virtual size_t handles() = 0;
  virtual void ids(std::set<uint64_t>&) {}
};
using ZooMaker = std::unique_ptr<IZoo> (*)();
std::vector<std::pair<const char*, ZooMaker>>& zoos();
struct ZooReg {
  ZooReg(const char* n, ZooMaker m) { zoos().push_back({n, m}); }
};
} // namespace fx
