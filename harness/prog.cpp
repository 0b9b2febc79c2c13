// C01 C02 C03 C04 C05 C10 C11 C12: random programs at the scheduler interface, on every
// execution back end, compared with a direct evaluation.
#include "engine.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/EagerSchedulerFactory.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/LazySchedulerFactory.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/SchedulerHelper.h"
using namespace hx;

namespace {
namespace sch = fbpcf::scheduler;
using Sched = sch::IArithmeticScheduler;
using BW = sch::IScheduler::WireId<sch::IScheduler::Boolean>;
using AW = sch::IScheduler::WireId<sch::IScheduler::Arithmetic>;

enum Kind {
  kNop, kPrivIn, kPubIn, kRecover, kReinput, kAnd, kXor, kNot, kComp, kOpen, kGet, kExtract, kBatchUp, kUnbatch,
  kInc, kDec, kQuery, kBurst
};
struct Var {
  bool arith, priv, batch;
  int openTo; // -1: not an opened value
  int refs;
  std::vector<uint64_t> v;
};
struct Op {
  Kind k = kNop;
  std::vector<int> in, out;
  int party = 0;
  bool arith = false, batch = false;
  int slot = -1; // extraction slot
  std::vector<std::vector<uint64_t>> shares; // recover: per party
  std::vector<uint64_t> data;
  uint64_t garbage = 0;
  std::vector<uint32_t> sizes;
};
struct Prog {
  int n = 2;
  std::vector<Var> vars;
  std::vector<Op> ops;
  uint64_t freeGates = 0, nonFreeGates = 0;
  int slots = 0;
  std::vector<std::vector<uint64_t>> slotVal;
  std::vector<int> slotBool;
  bool anyBool = false, anyArith = false;
  size_t visible = SIZE_MAX; // while drawing: operands come from the first so many values
  int shape = -1;            // while drawing: only single values (0), only batches (1)

  int add(bool arith, bool priv, bool batch, std::vector<uint64_t> v, int openTo = -1) {
    (arith ? anyArith : anyBool) = true;
    vars.push_back({arith, priv, batch, openTo, 1, std::move(v)});
    return (int)vars.size() - 1;
  }
};
uint64_t drawValue(bool arith) {
  uint64_t r = dsim::dataRand();
  if (!arith) return r & 1;
  static const uint64_t edge[] = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 0xffffffffull, 2};
  return (r & 3) ? dsim::dataRand() : edge[(r >> 2) & 7];
}
size_t largeBatch = 0; // of this run's programs
size_t drawBatch(bool emptyOk) {
  if (largeBatch && dsim::wl("large_batch", 3) == 2) return largeBatch;
  static const size_t s[] = {2, 1, 3, 7, 8, 9, 15, 16, 17, 33, 64, 65, 100, 128, 130, 31};
  if (emptyOk && dsim::param("empty", 1) && dsim::wlp("empty_batch", 150)) return 0;
  return s[dsim::wl("batch_size", 16)];
}
template <class F>
int pick(const Prog& p, F f) {
  std::vector<int> c;
  for (size_t i = 0; i < p.vars.size() && i < p.visible; i++)
    if (p.vars[i].refs > 0 && f(p.vars[i]) && (p.shape < 0 || p.vars[i].batch == p.shape)) c.push_back(i);
  if (c.empty()) return -1;
  // prefer recent values
  size_t m = c.size();
  size_t k = dsim::wl("pick", m);
  return c[m - 1 - k];
}
// wire gates are counted per element
void cost(Prog& p, bool free, size_t n) { (free ? p.freeGates : p.nonFreeGates) += n; }

Prog drawProg(int n, int boolPct, int arithPct, int maxOps, bool rebatch) {
  Prog p;
  p.n = n;
  static const Kind table[] = {kNop,  kPrivIn, kPrivIn, kPubIn, kRecover, kReinput, kAnd,  kAnd,    kAnd,     kAnd,
                               kXor,  kXor,    kXor,    kNot,   kComp,    kComp,    kOpen, kOpen,   kGet,     kExtract,
                               kInc,  kDec,    kDec,    kQuery, kBatchUp, kUnbatch, kOpen, kAnd,    kPrivIn,  kBurst};
  int nops = 3 + dsim::wl("ops", maxOps);
  // first few inputs so that there is something to work on
  auto privIn = [&](bool arith, bool batch, size_t size) {
    Op o;
    o.k = kPrivIn;
    o.arith = arith;
    o.batch = batch;
    o.party = dsim::wl("owner", n);
    o.garbage = dsim::dataRand();
    for (size_t i = 0; i < size; i++) o.data.push_back(drawValue(arith));
    o.out = {p.add(arith, true, batch, o.data)};
    cost(p, true, size);
    p.ops.push_back(o);
  };
  auto pubIn = [&](bool arith, bool batch, size_t size) {
    Op o;
    o.k = kPubIn;
    o.arith = arith;
    o.batch = batch;
    for (size_t i = 0; i < size; i++) o.data.push_back(drawValue(arith));
    o.out = {p.add(arith, false, batch, o.data)};
    cost(p, true, size);
    p.ops.push_back(o);
  };
  // now and then many operations of one kind on values that are already there, so that they are evaluated together
  int streak = 0, streakArith = -1, streakParty = 0;
  Kind streakKind = kNop;
  auto drawArith = [&] {
    if (streakArith >= 0) return streakArith == 1;
    return (int)dsim::wl("is_arith", 100) < arithPct * 100 / (boolPct + arithPct);
  };
  for (int i = 0; i < nops; i++) {
    if (streak && !--streak) p.visible = SIZE_MAX, p.shape = -1, streakArith = -1;
    if (!streak && dsim::wlp("streak", 250)) {
      static const Kind kinds[] = {kAnd, kComp, kOpen, kXor, kAnd, kComp};
      static const int lens[] = {5, 8, 12, 20, 33, 70};
      streakKind = kinds[dsim::wl("streak_kind", 6)];
      streak = 1 + lens[dsim::wl("streak_len", maxOps > 30 ? 6 : 4)];
      streakArith = drawArith();
      streakParty = dsim::wl("open_to", n);
      p.shape = dsim::wl("streak_batch", 3) == 2;
      size_t size = p.shape ? drawBatch(false) : 1;
      for (int j = dsim::wl("streak_inputs", 5); j > 0; j--) privIn(streakArith == 1 && streakKind != kComp, p.shape, size);
      p.visible = p.vars.size();
      nops += streak - 1;
      dsim::probe("streaks");
    }
    Kind k = streak ? streakKind : table[dsim::wl("op", sizeof table / sizeof *table)];
    Op o;
    o.k = k;
    if (k == kNop) continue;
    switch (k) {
      case kPrivIn: {
        bool a = drawArith(), b = dsim::wl("is_batch", 2);
        privIn(a, b, b ? drawBatch(false) : 1);
        // a second one of the same shape often, so that binary operations have partners
        if (dsim::wl("twin", 3)) privIn(a, b, (size_t)p.vars.back().v.size());
        continue;
      }
      case kPubIn: {
        o.arith = drawArith();
        o.batch = dsim::wl("is_batch", 2);
        size_t size = o.batch ? drawBatch(true) : 1;
        int like = pick(p, [&](const Var& v) { return v.arith == o.arith && v.batch == o.batch; });
        if (like >= 0) size = p.vars[like].v.size();
        for (size_t j = 0; j < size; j++) o.data.push_back(drawValue(o.arith));
        o.out = {p.add(o.arith, false, o.batch, o.data)};
        cost(p, true, size);
        break;
      }
      case kRecover: {
        o.arith = drawArith();
        o.batch = dsim::wl("is_batch", 2);
        size_t size = o.batch ? drawBatch(true) : 1;
        std::vector<uint64_t> v(size, 0);
        for (int q = 0; q < n; q++) {
          o.shares.emplace_back();
          for (size_t j = 0; j < size; j++) {
            auto x = drawValue(o.arith);
            o.shares.back().push_back(x);
            v[j] = o.arith ? v[j] + x : v[j] ^ x;
          }
        }
        o.out = {p.add(o.arith, true, o.batch, v)};
        cost(p, true, size);
        break;
      }
      case kReinput: { // feed shares extracted earlier back in
        if (!p.slots) continue;
        o.slot = dsim::wl("slot", p.slots);
        o.arith = !(p.slotBool[o.slot] & 1);
        o.batch = p.slotBool[o.slot] & 2;
        o.out = {p.add(o.arith, true, o.batch, p.slotVal[o.slot])};
        cost(p, true, p.slotVal[o.slot].size());
        break;
      }
      case kAnd:
      case kXor: { // multiplication / addition for integers
        o.arith = drawArith();
        int a = pick(p, [&](const Var& v) { return v.arith == o.arith && v.openTo < 0; });
        if (a < 0) continue;
        const Var A = p.vars[a];
        if (!streak && dsim::wlp("public_partner", 1500)) pubIn(A.arith, A.batch, A.v.size());
        int b = pick(p, [&](const Var& v) {
          return v.arith == o.arith && v.openTo < 0 && v.batch == A.batch && v.v.size() == A.v.size();
        });
        if (b < 0) continue;
        const Var B = p.vars[b];
        if (!A.priv && B.priv) std::swap(a, b); // the private operand goes left
        o.batch = A.batch;
        o.in = {a, b};
        std::vector<uint64_t> v(A.v.size());
        for (size_t j = 0; j < v.size(); j++)
          v[j] = k == kAnd ? (o.arith ? A.v[j] * B.v[j] : A.v[j] & B.v[j]) : (o.arith ? A.v[j] + B.v[j] : A.v[j] ^ B.v[j]);
        cost(p, !(k == kAnd && A.priv && B.priv), v.size());
        o.out = {p.add(o.arith, A.priv || B.priv, o.batch, v)};
        break;
      }
      case kNot: {
        o.arith = drawArith();
        int a = pick(p, [&](const Var& v) { return v.arith == o.arith && v.openTo < 0; });
        if (a < 0) continue;
        const Var A = p.vars[a];
        o.batch = A.batch;
        o.in = {a};
        std::vector<uint64_t> v;
        for (auto x : A.v) v.push_back(o.arith ? 0 - x : !x);
        cost(p, true, v.size());
        o.out = {p.add(o.arith, A.priv, o.batch, v)};
        break;
      }
      case kComp: {
        if (!boolPct) continue;
        int a = pick(p, [&](const Var& v) { return !v.arith && v.openTo < 0; });
        if (a < 0) continue;
        const Var A = p.vars[a];
        o.batch = A.batch;
        int mode = streak ? 0 : dsim::wl("comp_rights", 3); // all private / all public / as first drawn
        int m = 1 + dsim::wl("comp_width", 4);
        if (dsim::wlp("comp_wide", 500)) m = 9 + dsim::wl("comp_width2", 60);
        if (mode == 1 && dsim::wlp("public_partner", 5000))
          for (int j = std::min(m, 3); j > 0; j--) pubIn(false, A.batch, A.v.size());
        o.in = {a};
        bool priv = false;
        for (int j = 0; j < m; j++) {
          int b = pick(p, [&](const Var& v) {
            return !v.arith && v.openTo < 0 && v.batch == A.batch && v.v.size() == A.v.size() &&
                (j == 0 ? (mode == 2 || v.priv == (mode == 0)) : v.priv == priv);
          });
          if (b < 0) break;
          if (j == 0) priv = p.vars[b].priv;
          o.in.push_back(b);
        }
        if (o.in.size() < 2) continue;
        for (size_t j = 1; j < o.in.size(); j++) {
          std::vector<uint64_t> v(A.v.size());
          for (size_t q = 0; q < v.size(); q++) v[q] = A.v[q] & p.vars[o.in[j]].v[q];
          cost(p, !(A.priv && priv), v.size());
          o.out.push_back(p.add(false, A.priv || priv, o.batch, v));
        }
        break;
      }
      case kOpen: {
        o.arith = drawArith();
        int a = pick(p, [&](const Var& v) { return v.arith == o.arith && v.priv && v.openTo < 0; });
        if (a < 0) continue;
        const Var A = p.vars[a];
        o.batch = A.batch;
        o.in = {a};
        o.party = streak ? streakParty : dsim::wl("open_to", n);
        cost(p, false, A.v.size());
        o.out = {p.add(o.arith, false, o.batch, A.v, o.party)};
        break;
      }
      case kGet: {
        int a = pick(p, [&](const Var& v) { return !v.priv; });
        if (a < 0) continue;
        o.in = {a};
        break;
      }
      case kQuery: {
        int a = pick(p, [&](const Var& v) { return v.batch; });
        if (a < 0) continue;
        o.in = {a};
        break;
      }
      case kExtract: {
        int a = pick(p, [&](const Var& v) { return v.priv && v.openTo < 0; });
        if (a < 0) continue;
        o.in = {a};
        o.slot = p.slots++;
        p.slotVal.push_back(p.vars[a].v);
        p.slotBool.push_back((p.vars[a].arith ? 0 : 1) | (p.vars[a].batch ? 2 : 0));
        break;
      }
      case kBatchUp: {
        if (!rebatch) continue;
        int m = 1 + dsim::wl("bu_width", 4);
        bool priv = dsim::wlz("bu_pub", 2, 8000) == 0;
        std::vector<uint64_t> v;
        for (int j = 0; j < m; j++) {
          int b = pick(p, [&](const Var& x) { return !x.arith && x.batch && x.openTo < 0 && x.priv == priv; });
          if (b < 0) break;
          o.in.push_back(b);
          v.insert(v.end(), p.vars[b].v.begin(), p.vars[b].v.end());
        }
        if (o.in.empty() || v.size() > 12000) continue;
        o.out = {p.add(false, priv, true, v)};
        break;
      }
      case kUnbatch: {
        if (!rebatch) continue;
        int a = pick(p, [&](const Var& x) { return !x.arith && x.batch && x.openTo < 0; });
        if (a < 0) continue;
        const Var A = p.vars[a];
        o.in = {a};
        size_t at = 0;
        while (at < A.v.size() || o.sizes.empty()) {
          size_t k = dsim::wl("ub_size", A.v.size() - at + 1);
          if (o.sizes.size() >= 6) k = A.v.size() - at;
          o.sizes.push_back(k);
          o.out.push_back(p.add(false, A.priv, true, {A.v.begin() + at, A.v.begin() + at + k}));
          at += k;
        }
        break;
      }
      case kInc: {
        int a = pick(p, [&](const Var& v) { return true; });
        if (a < 0) continue;
        o.in = {a};
        p.vars[a].refs++;
        break;
      }
      case kDec: {
        int a = pick(p, [&](const Var& v) { return true; });
        if (a < 0) continue;
        o.in = {a};
        p.vars[a].refs--;
        break;
      }
      case kBurst: { // more pending operations than the deferral limit
        if (!dsim::wlp("burst", dsim::param("burst", 20))) continue;
        o.data.push_back(99000 + dsim::wl("burst_n", 4000));
        cost(p, true, o.data[0] + 1);
        break;
      }
      default: continue;
    }
    p.ops.push_back(o);
  }
  return p;
}

std::vector<bool> toBool(const std::vector<uint64_t>& v) {
  std::vector<bool> r(v.size());
  for (size_t i = 0; i < v.size(); i++) r[i] = v[i];
  return r;
}
std::vector<uint64_t> toU64(const std::vector<bool>& v) { return {v.begin(), v.end()}; }

struct Exec {
  const Prog& p;
  Sched& s;
  int me;
  const char* what;
  bool checkVals; // false: only run
  std::vector<BW> b;
  std::vector<AW> a;
  std::vector<std::vector<uint64_t>> slots;

  Exec(const Prog& p_, Sched& s_, int me_, const char* w)
      : p(p_), s(s_), me(me_), what(w), b(p_.vars.size()), a(p_.vars.size()), slots(p_.slots) {}

  void checkSize(int i, const char* when) {
    const Var& v = p.vars[i];
    if (!v.batch) return;
    size_t got = v.arith ? s.getBatchSize(a[i]) : s.getBatchSize(b[i]);
    DSIM_CHECK(got == v.v.size(), "batch-size", "%s: party %d: value %d reports a batch of %zu elements instead of %zu (%s)",
               what, me, i, got, v.v.size(), when);
    dsim::probe("batch_sizes_verified");
  }
  std::vector<uint64_t> value(int i) {
    const Var& v = p.vars[i];
    if (v.arith) {
      if (v.batch) return s.getIntegerValueBatch(a[i]);
      return {s.getIntegerValue(a[i])};
    }
    if (v.batch) return toU64(s.getBooleanValueBatch(b[i]));
    return {(uint64_t)s.getBooleanValue(b[i])};
  }
  void compare(int i, const char* when) {
    const Var& v = p.vars[i];
    auto got = value(i);
    if (v.openTo >= 0 && v.openTo != me) return;
    DSIM_CHECK(got.size() == v.v.size(), "wrong-length", "%s: party %d: value %d has %zu elements instead of %zu (%s)", what,
               me, i, got.size(), v.v.size(), when);
    for (size_t j = 0; j < got.size(); j++)
      DSIM_CHECK(got[j] == v.v[j], v.arith ? "wrong-integer" : "wrong-bit",
                 "%s: party %d: value %d element %zu of %zu is %llu instead of %llu (%s)", what, me, i, j, got.size(),
                 (unsigned long long)got[j], (unsigned long long)v.v[j], when);
    dsim::probe(v.openTo >= 0 ? "opened_values_verified" : "public_values_verified");
  }
  void dec(int i) {
    const Var& v = p.vars[i];
    if (v.arith) v.batch ? s.decreaseReferenceCountBatch(a[i]) : s.decreaseReferenceCount(a[i]);
    else v.batch ? s.decreaseReferenceCountBatch(b[i]) : s.decreaseReferenceCount(b[i]);
  }
  void run() {
    int at = 0;
    for (auto& o : p.ops) {
      step(o);
      for (int i : o.out) checkSize(i, "just created");
      at++;
    }
  }
  void step(const Op& o) {
    int x = o.out.empty() ? -1 : o.out[0];
    switch (o.k) {
      case kPrivIn: {
        auto d = o.data;
        if (o.party != me) {
          Prf g{o.garbage + me};
          for (auto& y : d) y = o.arith ? g.next() : g.next() & 1;
        }
        if (o.arith) a[x] = o.batch ? s.privateIntegerInputBatch(d, o.party) : s.privateIntegerInput(d[0], o.party);
        else b[x] = o.batch ? s.privateBooleanInputBatch(toBool(d), o.party) : s.privateBooleanInput(d[0], o.party);
        break;
      }
      case kPubIn:
        if (o.arith) a[x] = o.batch ? s.publicIntegerInputBatch(o.data) : s.publicIntegerInput(o.data[0]);
        else b[x] = o.batch ? s.publicBooleanInputBatch(toBool(o.data)) : s.publicBooleanInput(o.data[0]);
        break;
      case kRecover:
      case kReinput: {
        auto& d = o.k == kReinput ? slots[o.slot] : o.shares[me];
        if (o.arith) a[x] = o.batch ? s.recoverIntegerWireBatch(d) : s.recoverIntegerWire(d[0]);
        else b[x] = o.batch ? s.recoverBooleanWireBatch(toBool(d)) : s.recoverBooleanWire(d[0]);
        break;
      }
      case kAnd: {
        int l = o.in[0], r = o.in[1];
        int pr = p.vars[l].priv + p.vars[r].priv;
        if (o.arith) {
          if (o.batch) a[x] = pr == 2 ? s.privateMultPrivateBatch(a[l], a[r]) : pr ? s.privateMultPublicBatch(a[l], a[r]) : s.publicMultPublicBatch(a[l], a[r]);
          else a[x] = pr == 2 ? s.privateMultPrivate(a[l], a[r]) : pr ? s.privateMultPublic(a[l], a[r]) : s.publicMultPublic(a[l], a[r]);
        } else {
          if (o.batch) b[x] = pr == 2 ? s.privateAndPrivateBatch(b[l], b[r]) : pr ? s.privateAndPublicBatch(b[l], b[r]) : s.publicAndPublicBatch(b[l], b[r]);
          else b[x] = pr == 2 ? s.privateAndPrivate(b[l], b[r]) : pr ? s.privateAndPublic(b[l], b[r]) : s.publicAndPublic(b[l], b[r]);
        }
        break;
      }
      case kXor: {
        int l = o.in[0], r = o.in[1];
        int pr = p.vars[l].priv + p.vars[r].priv;
        if (o.arith) {
          if (o.batch) a[x] = pr == 2 ? s.privatePlusPrivateBatch(a[l], a[r]) : pr ? s.privatePlusPublicBatch(a[l], a[r]) : s.publicPlusPublicBatch(a[l], a[r]);
          else a[x] = pr == 2 ? s.privatePlusPrivate(a[l], a[r]) : pr ? s.privatePlusPublic(a[l], a[r]) : s.publicPlusPublic(a[l], a[r]);
        } else {
          if (o.batch) b[x] = pr == 2 ? s.privateXorPrivateBatch(b[l], b[r]) : pr ? s.privateXorPublicBatch(b[l], b[r]) : s.publicXorPublicBatch(b[l], b[r]);
          else b[x] = pr == 2 ? s.privateXorPrivate(b[l], b[r]) : pr ? s.privateXorPublic(b[l], b[r]) : s.publicXorPublic(b[l], b[r]);
        }
        break;
      }
      case kNot: {
        int l = o.in[0];
        bool pr = p.vars[l].priv;
        if (o.arith) a[x] = o.batch ? (pr ? s.negPrivateBatch(a[l]) : s.negPublicBatch(a[l])) : (pr ? s.negPrivate(a[l]) : s.negPublic(a[l]));
        else b[x] = o.batch ? (pr ? s.notPrivateBatch(b[l]) : s.notPublicBatch(b[l])) : (pr ? s.notPrivate(b[l]) : s.notPublic(b[l]));
        break;
      }
      case kComp: {
        std::vector<BW> r;
        for (size_t j = 1; j < o.in.size(); j++) r.push_back(b[o.in[j]]);
        BW l = b[o.in[0]];
        int pr = p.vars[o.in[0]].priv + p.vars[o.in[1]].priv;
        std::vector<BW> res;
        if (o.batch) res = pr == 2 ? s.privateAndPrivateCompositeBatch(l, r) : pr ? s.privateAndPublicCompositeBatch(l, r) : s.publicAndPublicCompositeBatch(l, r);
        else res = pr == 2 ? s.privateAndPrivateComposite(l, r) : pr ? s.privateAndPublicComposite(l, r) : s.publicAndPublicComposite(l, r);
        DSIM_CHECK(res.size() == r.size(), "composite-width", "%s: %zu results for %zu operands", what, res.size(), r.size());
        for (size_t j = 0; j < res.size(); j++) b[o.out[j]] = res[j];
        break;
      }
      case kOpen: {
        int l = o.in[0];
        if (o.arith) a[x] = o.batch ? s.openIntegerValueToPartyBatch(a[l], o.party) : s.openIntegerValueToParty(a[l], o.party);
        else b[x] = o.batch ? s.openBooleanValueToPartyBatch(b[l], o.party) : s.openBooleanValueToParty(b[l], o.party);
        break;
      }
      case kGet: compare(o.in[0], "early"); break;
      case kQuery: checkSize(o.in[0], "queried"); break;
      case kExtract: {
        int l = o.in[0];
        const Var& v = p.vars[l];
        auto& t = slots[o.slot];
        if (v.arith) {
          if (v.batch) t = s.extractIntegerSecretShareBatch(a[l]);
          else t = {s.extractIntegerSecretShare(a[l])};
        } else {
          if (v.batch) t = toU64(s.extractBooleanSecretShareBatch(b[l]));
          else t = {(uint64_t)s.extractBooleanSecretShare(b[l])};
        }
        DSIM_CHECK(t.size() == v.v.size(), "wrong-length", "%s: party %d: share of value %d has %zu elements instead of %zu", what, me, l, t.size(), v.v.size());
        break;
      }
      case kBatchUp: {
        std::vector<BW> r;
        for (int i : o.in) r.push_back(b[i]);
        b[x] = s.batchingUp(r);
        break;
      }
      case kUnbatch: {
        auto res = s.unbatching(b[o.in[0]], std::make_shared<std::vector<uint32_t>>(o.sizes));
        DSIM_CHECK(res.size() == o.out.size(), "unbatch-width", "%s: %zu parts instead of %zu", what, res.size(), o.out.size());
        for (size_t j = 0; j < res.size(); j++) b[o.out[j]] = res[j];
        break;
      }
      case kInc: {
        int i = o.in[0];
        const Var& v = p.vars[i];
        if (v.arith) v.batch ? s.increaseReferenceCountBatch(a[i]) : s.increaseReferenceCount(a[i]);
        else v.batch ? s.increaseReferenceCountBatch(b[i]) : s.increaseReferenceCount(b[i]);
        break;
      }
      case kDec: dec(o.in[0]); break;
      case kBurst: {
        auto w = s.publicBooleanInput(true);
        for (uint64_t i = 0; i < o.data[0]; i++) {
          auto w2 = s.notPublic(w);
          s.decreaseReferenceCount(w);
          w = w2;
        }
        s.decreaseReferenceCount(w);
        dsim::probe("bursts_beyond_deferral_limit");
        break;
      }
      default: break;
    }
  }
  // opens everything still alive to everybody in turn and compares, then releases it
  void finish(uint64_t& extraNonFree) {
    for (size_t i = 0; i < p.vars.size(); i++) {
      const Var& v = p.vars[i];
      if (v.refs <= 0) continue;
      checkSize(i, "at the end");
      if (!v.priv) {
        compare(i, "at the end");
      } else {
        int to = mix(i * 77 + p.ops.size()) % p.n;
        extraNonFree += v.v.size();
        std::vector<uint64_t> got;
        if (v.arith) {
          if (v.batch) { auto w = s.openIntegerValueToPartyBatch(a[i], to); got = s.getIntegerValueBatch(w); s.decreaseReferenceCountBatch(w); }
          else { auto w = s.openIntegerValueToParty(a[i], to); got = {s.getIntegerValue(w)}; s.decreaseReferenceCount(w); }
        } else {
          if (v.batch) { auto w = s.openBooleanValueToPartyBatch(b[i], to); got = toU64(s.getBooleanValueBatch(w)); s.decreaseReferenceCountBatch(w); }
          else { auto w = s.openBooleanValueToParty(b[i], to); got = {(uint64_t)s.getBooleanValue(w)}; s.decreaseReferenceCount(w); }
        }
        if (to == me || p.n == 1) {
          DSIM_CHECK(got.size() == v.v.size(), "wrong-length", "%s: party %d: value %zu opened with %zu elements instead of %zu", what, me, i, got.size(), v.v.size());
          for (size_t j = 0; j < got.size(); j++)
            DSIM_CHECK(got[j] == v.v[j], v.arith ? "wrong-integer" : "wrong-bit",
                       "%s: party %d: value %zu element %zu of %zu opened at the end is %llu instead of %llu", what, me, i, j,
                       got.size(), (unsigned long long)got[j], (unsigned long long)v.v[j]);
          dsim::probe("final_values_verified");
        }
      }
    }
    for (size_t i = 0; i < p.vars.size(); i++)
      for (int r = 0; r < p.vars[i].refs; r++) dec(i);
  }
  // makes a deferring scheduler execute everything pending; returns the gates it added
  void flush(uint64_t& freeG, uint64_t& nonFree) {
    if (p.anyBool || !p.anyArith) {
      auto w = s.privateBooleanInput(true, 0);
      auto o = s.privateBooleanInput(true, 1 % p.n);
      freeG += 2;
      for (size_t i = 0; i < p.ops.size() + 3; i++) {
        auto w2 = s.privateAndPrivate(w, o);
        s.decreaseReferenceCount(w);
        w = w2;
        nonFree++;
      }
      auto q = s.openBooleanValueToParty(w, 0);
      nonFree++;
      bool r = s.getBooleanValue(q);
      if (me == 0) DSIM_CHECK(r, "wrong-bit", "%s: chain of ands", what);
      s.decreaseReferenceCount(q);
      s.decreaseReferenceCount(w);
      s.decreaseReferenceCount(o);
    } else {
      auto w = s.privateIntegerInput(1, 0);
      auto o = s.privateIntegerInput(1, 1 % p.n);
      freeG += 2;
      for (size_t i = 0; i < p.ops.size() + 3; i++) {
        auto w2 = s.privateMultPrivate(w, o);
        s.decreaseReferenceCount(w);
        w = w2;
        nonFree++;
      }
      auto q = s.openIntegerValueToParty(w, 0);
      nonFree++;
      auto r = s.getIntegerValue(q);
      if (me == 0) DSIM_CHECK(r == 1, "wrong-integer", "%s: chain of products", what);
      s.decreaseReferenceCount(q);
      s.decreaseReferenceCount(w);
      s.decreaseReferenceCount(o);
    }
  }
};

enum SKind { kEager, kLazy, kPlain, kNetPlain };
const char* sname(int k) {
  static const char* n[] = {"immediate", "deferred", "plaintext", "networked plaintext"};
  return n[k];
}
std::unique_ptr<sch::IWireKeeper> wk(int kind) {
  return kind == 0 ? sch::WireKeeper::createWithVectorArena<false>()
      : kind == 1  ? sch::WireKeeper::createWithVectorArena<true>()
                   : sch::WireKeeper::createWithUnorderedMap();
}
} // namespace

// the ways the library offers to get a scheduler
namespace {
struct MadeEngineFactory final : fbpcf::engine::ISecretShareEngineFactory {
  std::function<std::unique_ptr<fbpcf::engine::ISecretShareEngine>()> f;
  explicit MadeEngineFactory(decltype(f) f) : f(std::move(f)) {}
  std::unique_ptr<fbpcf::engine::ISecretShareEngine> create() override { return f(); }
};
std::unique_ptr<Sched> arithmetic(std::unique_ptr<sch::IScheduler> s) {
  auto* p = dynamic_cast<Sched*>(s.release());
  DSIM_CHECK(p, "no-scheduler", "the scheduler created does not compute with integers");
  return std::unique_ptr<Sched>(p);
}
template <bool unsafe>
std::unique_ptr<Sched> byFactory(int sk, const EngCfg& c, int me, IPartyCommunicationAgentFactory& af, MC mc, bool boolean, bool arith, bool metered) {
  std::unique_ptr<sch::ISchedulerFactory<unsafe>> f;
  auto e = [&] { return std::make_unique<MadeEngineFactory>([=, &af] { return makeEngine(c, me, af, mc, boolean, arith); }); };
  if (sk == kPlain) f = std::make_unique<sch::PlaintextSchedulerFactory<unsafe>>();
  else if (sk == kNetPlain && metered) f = std::make_unique<sch::NetworkPlaintextSchedulerFactory<unsafe>>(me, af, mc);
  else if (sk == kNetPlain) f = std::make_unique<sch::NetworkPlaintextSchedulerFactory<unsafe>>(me, af);
  else if (sk == kEager && metered) f = std::make_unique<sch::EagerSchedulerFactory<unsafe>>(e(), mc);
  else if (sk == kEager) f = std::make_unique<sch::EagerSchedulerFactory<unsafe>>(e());
  else if (metered) f = std::make_unique<sch::LazySchedulerFactory<unsafe>>(e(), mc);
  else f = std::make_unique<sch::LazySchedulerFactory<unsafe>>(e());
  return arithmetic(f->create());
}
template <bool unsafe>
std::unique_ptr<Sched> byHelper(int sk, int me, IPartyCommunicationAgentFactory& af, MC mc, int how) {
  switch (sk) {
    case kPlain: return sch::createArithmeticPlaintextScheduler<unsafe>(me, af);
    case kNetPlain: return how ? arithmetic(sch::createNetworkPlaintextScheduler<unsafe>(me, af)) : sch::createArithmeticNetworkPlaintextScheduler<unsafe>(me, af);
    case kEager:
      return how == 0 ? arithmetic(sch::createEagerSchedulerWithInsecureEngine<unsafe>(me, af))
          : how == 1  ? sch::createArithmeticEagerSchedulerWithInsecureEngine<unsafe>(me, af)
                      : arithmetic(sch::getEagerSchedulerFactoryWithInsecureEngine<unsafe>(me, af, mc)->create());
    default:
      return how == 0 ? arithmetic(sch::createLazySchedulerWithInsecureEngine<unsafe>(me, af))
          : how == 1  ? sch::createArithmeticLazySchedulerWithInsecureEngine<unsafe>(me, af)
                      : arithmetic(sch::getLazySchedulerFactoryWithInsecureEngine<unsafe>(me, af, mc)->create());
  }
}
// the engines as the library sets them up for production: full-size buffers
std::unique_ptr<fbpcf::engine::ISecretShareEngine> fullEngine(int kind, int n, int me, IPartyCommunicationAgentFactory& af, MC mc) {
  namespace en = fbpcf::engine;
  switch (kind) {
    case 0: return en::getSecureEngineFactoryWithClassicOt(me, n, af, mc)->create();
    case 1: return en::getSecureEngineFactoryWithFERRET(me, n, af, mc)->create();
    case 2: return en::getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator(me, n, af, mc)->create();
    case 3: return en::getSecureEngineFactoryWithIntegerOnlyTupleGenerator(me, n, af, mc)->create();
    default:
      return en::getSecureEngineFactoryWithIntegerTupleGenerator(me, n, af, ot::createClassicRcotFactory(), kind == 4, mc)->create();
  }
}
} // namespace

// fault=0: none; fault=1: crashes, resets and failing calls (a party may report an error)
DSIM_HARNESS(prog) {
  int boolPct = dsim::param("bool", 100), arithPct = dsim::param("arith", 0);
  int faults = dsim::param("fault", 0);
  int sk = dsim::param("sched", -1);
  if (sk < 0) {
    static const int t[] = {kEager, kLazy, kEager, kLazy, kLazy, kPlain, kNetPlain, kEager};
    sk = t[dsim::wl("scheduler", 8)];
  }
  EngCfg cfg = drawEng(dsim::param("parties", 4));
  if (dsim::param("losses", 0)) cfg.n = 4;
  if (cfg.tuples == 2) cfg.buffer = std::min<size_t>(cfg.buffer, arithPct ? 48 : 200); // 64 transfers per product
  if (sk == kPlain) cfg.n = 1;
  if (sk == kNetPlain) cfg.n = 2;
  int full = dsim::param("full", -1);
  if (full == 9) {
    full = dsim::wl("full", 2);
    full = !arithPct ? full : arithPct >= 100 ? 3 + 2 * full : 2 + 2 * full;
    cfg.n = 2 + dsim::wlz("full_parties", 2, 7500);
    cfg.tuples = cfg.n == 2 ? 1 : 2;
    sk = sk == kPlain ? kEager : sk == kNetPlain ? kLazy : sk;
  }
  Net net = drawNet();
  if (faults && net == Net::InMem) net = Net::Socket;
  int keeper = dsim::wl("wire_keeper", 3);
  // 0 put together here, 1 by a scheduler factory, 2 by the library's helper functions
  int creation = dsim::wlz("creation", 3, 8000), how = dsim::wl("creation_kind", 3);
  if (creation && keeper == 2) creation = 0;
  if (creation == 2 && (cfg.n > 2 || cfg.tuples) && sk != kPlain) creation = 1;
  int maxOps = dsim::param("ops", 40);
  if (cfg.tuples) maxOps = std::min<int>(maxOps, 30);
  bool doFlush = dsim::wl("flush", 2);
  bool quiesce = dsim::param("stats", 0) && dsim::wl("quiesce", 2);
  largeBatch = drawLarge(600, sk == kPlain || sk == kNetPlain || !cfg.tuples ? 5000 : arithPct ? 0 : cfg.rcot < 2 ? 600 : 200);
  if (largeBatch && cfg.tuples) cfg.buffer = std::max<size_t>(cfg.buffer, cfg.tuples == 1 ? 500 : 100);
  Prog p = drawProg(cfg.n, boolPct, arithPct, maxOps, dsim::param("rebatch", 1));
  if ((full == 3 || full == 5) && (p.anyBool || !p.anyArith)) full--;
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  if (dsim::param("smallbuf", 0)) {
    static const uint64_t bufs[] = {65536, 4096, 1024, 16384, 200, 64};
    dsim::net().sndBuf = bufs[dsim::wl("net_buf", 6)];
  }
  dsim::note(strf("%s scheduler, %s, %s transport, %zu operations, keeper %d, creation %d", sname(sk), cfg.desc().c_str(), name(net), p.ops.size(), keeper, creation));
  auto cl = std::make_shared<Cluster>(cfg.n, net);
  cl->timeoutSec = 60;
  std::vector<std::vector<std::vector<uint64_t>>> slots(cfg.n);
  std::vector<int> finished(cfg.n, 0), errored(cfg.n, 0);
  std::vector<std::pair<uint64_t, uint64_t>> traffic(cfg.n), metered(cfg.n), idle(cfg.n);
  std::vector<std::shared_ptr<Ledger>> ledger;
  for (int i = 0; i < cfg.n; i++) ledger.push_back(std::make_shared<Ledger>());
  bool crashes = false, lossesOnly = false;
  if (faults) {
    int what = dsim::param("losses", 0) ? 0 : dsim::wl("fault_plan", 5);
    auto when = (uint64_t)1000 * (1 + dsim::wl("fault_at_us", dsim::wl("fault_scale", 3) ? 8000 : 60000));
    int who = dsim::wl("fault_party", cfg.n);
    crashes = what == 1 || what == 2;
    if (what == 0) {
      static const char* kinds[] = {"net_link_lost", "net_link_lost"};
      dsim::setFaultRate(kinds[dsim::wl("fault_kind", 2)], 1 + dsim::wl("fault_rate", 200));
      dsim::setFaultBudget(dsim::param("losses", 0) ? dsim::param("losses", 0) : 1 + dsim::wl("fault_budget", 2));
      lossesOnly = true;
    } else if (what == 1 || what == 2) {
      dsim::at(when, [=] { dsim::probe("crashes"); dsim::crashParty(who, what == 2); });
    } else if (cfg.n > 1) {
      int other = (who + 1 + dsim::wl("fault_peer", cfg.n - 1)) % cfg.n;
      dsim::at(when, [=] { dsim::probe("resets"); dsim::resetConnection(who, other, what == 3); });
    }
  } else {
    if (dsim::wlp("stall", 1500)) {
      int who = dsim::wl("stall_party", cfg.n);
      uint64_t at = 1000 * (1 + dsim::wl("stall_at_us", 20000)), d = 1'000'000ull * (1 + dsim::wl("stall_ms", 5000));
      dsim::at(at, [=] { dsim::probe("stalls"); dsim::stallParty(who, d); });
    }
    if (net != Net::InMem && dsim::param("smallbuf", 0) == 0 && dsim::wlp("slow_net", 1000)) dsim::setFaultRate("net_slow_segment", 100);
  }
  auto body = [&, cl](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m" + std::to_string(me));
    std::unique_ptr<IPartyCommunicationAgentFactory> af = cl->factory(me, mc);
    if (dsim::param("stats", 0)) af = std::make_unique<LedgerFactory>(me, std::move(af), ledger[me]);
    std::unique_ptr<Sched> s;
    bool boolean = p.anyBool || !p.anyArith;
    if (full < 0 && creation == 1)
      s = keeper ? byFactory<true>(sk, cfg, me, *af, mc, boolean, p.anyArith, how) : byFactory<false>(sk, cfg, me, *af, mc, boolean, p.anyArith, how);
    else if (full < 0 && creation == 2)
      s = keeper ? byHelper<true>(sk, me, *af, mc, how) : byHelper<false>(sk, me, *af, mc, how);
    else if (sk == kPlain)
      s = std::make_unique<sch::PlaintextScheduler>(wk(keeper));
    else if (sk == kNetPlain)
      s = std::make_unique<sch::NetworkPlaintextScheduler>(
          me, fbpcf::engine::communication::getAgentMap(cfg.n, me, *af), wk(keeper));
    else {
      auto e = full >= 0 ? fullEngine(full, cfg.n, me, *af, mc) : makeEngine(cfg, me, *af, mc, boolean, p.anyArith);
      if (sk == kEager)
        s = std::make_unique<sch::EagerScheduler>(std::move(e), wk(keeper));
      else {
        std::shared_ptr<sch::IWireKeeper> w = wk(keeper);
        s = std::make_unique<sch::LazyScheduler>(std::move(e), w, std::make_unique<sch::GateKeeper>(w));
      }
    }
    Exec x(p, *s, me, sname(sk));
    x.run();
    uint64_t nf = p.nonFreeGates, fr = p.freeGates;
    x.finish(nf);
    if (doFlush) {
      x.flush(fr, nf);
      auto w = s->getWireStatistics();
      DSIM_CHECK(w.first == w.second, "wire-leak", "%s: party %d: %llu wires allocated, %llu released, none is referred to", sname(sk), me,
                 (unsigned long long)w.first, (unsigned long long)w.second);
      auto g = s->getGateStatistics();
      if (dsim::param("stats", 0)) {
        DSIM_CHECK(g.first == nf && g.second == fr, "gate-count",
                   "%s: party %d reports %llu non-free and %llu free gates, the program has %llu and %llu", sname(sk), me,
                   (unsigned long long)g.first, (unsigned long long)g.second, (unsigned long long)nf, (unsigned long long)fr);
        dsim::probe("gate_counts_verified");
      }
      dsim::probe("wire_counts_verified");
    }
    slots[me] = std::move(x.slots);
    if (sk == kEager || sk == kLazy) {
      if (quiesce) dsim::sleepNs(60'000'000'000ull);
      traffic[me] = s->getTrafficStatistics();
      idle[me] = {ledger[me]->sent, ledger[me]->received};
      s->deleteEngine();
      auto after = s->getTrafficStatistics();
      // what a party sends while its background producers wind down may or may not be in the report
      if (dsim::param("stats", 0))
        DSIM_CHECK(after.first >= traffic[me].first && after.second >= traffic[me].second && after.first <= ledger[me]->sent &&
                     after.second <= ledger[me]->received,
                 "engine-traffic", "party %d reports %llu/%llu bytes after its engine is gone, %llu/%llu before; %llu/%llu crossed its channels", me,
                 (unsigned long long)after.first, (unsigned long long)after.second, (unsigned long long)traffic[me].first,
                 (unsigned long long)traffic[me].second, (unsigned long long)ledger[me]->sent, (unsigned long long)ledger[me]->received);
    }
    if ((sk == kPlain || sk == kNetPlain) && dsim::param("stats", 0)) {
      auto t = s->getTrafficStatistics();
      DSIM_CHECK(t.first == ledger[me]->sent && t.second == ledger[me]->received, "plaintext-traffic",
                 "party %d reports %llu/%llu bytes sent/received, %llu/%llu crossed its channels", me, (unsigned long long)t.first,
                 (unsigned long long)t.second, (unsigned long long)ledger[me]->sent, (unsigned long long)ledger[me]->received);
      dsim::probe("plaintext_traffic_verified");
    }
    s.reset();
    finished[me] = 1;
    if (sk != kPlain && dsim::param("stats", 0)) {
      auto m = mc->collectMetrics();
      for (auto& kv : m.items()) {
        auto& d = kv.second;
        if (d.count("sent_data")) metered[me].first += d["sent_data"].asInt();
        if (d.count("received_data")) metered[me].second += d["received_data"].asInt();
      }
    }
  };
  for (int i = 0; i < cfg.n; i++)
    dsim::addParty(i, [&, i] {
      try {
        body(i);
      } catch (const std::exception& e) {
        errored[i] = 1;
        if (!faults) dsim::fail("unexpected-error", "party %d: %s", i, e.what());
        dsim::probe("parties_reporting_error");
      }
    });
  dsim::RunOptions ro;
  ro.maxSteps = 6'000'000;
  auto end = dsim::runAll(ro);
  // two unrelated losses among three or more parties: see known_findings.txt
  if (end == dsim::End::Deadlock && lossesOnly && dsim::faultsInjected() > 1 && cfg.n > 2 && dsim::blockedReport().find("pthread_join") != std::string::npos)
    dsim::fail("hang-after-two-losses", "%s", dsim::blockedReport().substr(0, 900).c_str());
  judgeEnd(end);
  if (full >= 0) dsim::probe("production_size_runs");
  dsim::probe(faults ? (dsim::faultsInjected() ? "runs_with_faults" : "runs_without_faults") : sk == kLazy ? "deferred_runs" : sk == kEager ? "immediate_runs" : "plaintext_runs");
  bool all = true;
  for (int i = 0; i < cfg.n; i++) all = all && finished[i];
  if (!all) return;
  for (int k = 0; k < p.slots; k++) {
    for (size_t j = 0; j < p.slotVal[k].size(); j++) {
      uint64_t v = 0;
      for (int i = 0; i < cfg.n; i++) v = (p.slotBool[k] & 1) ? v ^ slots[i][k][j] : v + slots[i][k][j];
      DSIM_CHECK(v == p.slotVal[k][j], "wrong-share", "%s: extracted shares of slot %d element %zu combine to %llu instead of %llu",
                 sname(sk), k, j, (unsigned long long)v, (unsigned long long)p.slotVal[k][j]);
    }
    dsim::probe("extracted_shares_verified");
  }
  if (dsim::param("stats", 0) && cfg.n > 1) {
    uint64_t sent = 0, recv = 0, ms = 0, mr = 0;
    for (int i = 0; i < cfg.n; i++) {
      sent += traffic[i].first;
      recv += traffic[i].second;
      ms += metered[i].first;
      mr += metered[i].second;
    }
    if (cfg.tuples == 0 && sk != kNetPlain && sk != kPlain) {
      DSIM_CHECK(sent == recv, "traffic-mismatch", "engines report %llu bytes sent and %llu received in total", (unsigned long long)sent, (unsigned long long)recv);
      dsim::probe("engine_traffic_verified");
    }
    if (quiesce && (sk == kEager || sk == kLazy)) {
      for (int i = 0; i < cfg.n; i++)
        DSIM_CHECK(traffic[i] == idle[i], "engine-traffic",
                   "party %d's idle engine reports %llu/%llu bytes sent/received, %llu/%llu crossed its channels", i,
                   (unsigned long long)traffic[i].first, (unsigned long long)traffic[i].second,
                   (unsigned long long)idle[i].first, (unsigned long long)idle[i].second);
      dsim::probe("idle_engine_traffic_verified");
    }
    // the socket factory agrees on each further channel's port over a channel of its own
    if (net != Net::InMem)
      for (int i = 0; i < cfg.n; i++)
        DSIM_CHECK(metered[i].first == ledger[i]->sent + 4 * ledger[i]->toHigher &&
                       metered[i].second == ledger[i]->received + 4 * ledger[i]->toLower,
                   "metric-traffic", "party %d's metrics report %llu/%llu bytes sent/received, %llu/%llu crossed its channels", i,
                   (unsigned long long)metered[i].first, (unsigned long long)metered[i].second,
                   (unsigned long long)(ledger[i]->sent + 4 * ledger[i]->toHigher),
                   (unsigned long long)(ledger[i]->received + 4 * ledger[i]->toLower));
    DSIM_CHECK(ms == mr, "traffic-mismatch", "metrics report %llu bytes sent and %llu received in total", (unsigned long long)ms, (unsigned long long)mr);
    dsim::probe("metric_traffic_verified");
  }
}
