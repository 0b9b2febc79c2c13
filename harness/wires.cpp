// C04: the storage behind all handles, over its three allocators: histories of taking, copying, reading, writing and
// dropping references against a plain model
#include <map>
#include "common.h"
#include "fbpcf/scheduler/WireKeeper.h"
using namespace hx;
using namespace fbpcf::scheduler;

namespace {
using B = IScheduler::WireId<IScheduler::Boolean>;
using A = IScheduler::WireId<IScheduler::Arithmetic>;
struct Wire {
  std::vector<uint64_t> v; // one element unless a batch
  uint32_t level = 0, refs = 1;
  size_t expected = 0;
};
std::vector<bool> bits(const std::vector<uint64_t>& v) { return std::vector<bool>(v.begin(), v.end()); }
} // namespace

DSIM_HARNESS(wires) {
  int storage = dsim::wl("storage", 3);
  static const char* names[] = {"checked arena", "unchecked arena", "map"};
  static const int upTo[] = {20, 200, 1500, 6000};
  int ops = 1 + dsim::wl("ops", upTo[dsim::wl("scale", 4)]);
  int drop = 10 + dsim::wl("drop_weight", 60); // of 100: how often references are dropped rather than taken
  static const int burstSizes[] = {0, 300, 1500, 5000, 70000}; // beyond one chunk of storage, and beyond 8 and 16 bits
  int burst = burstSizes[dsim::wl("burst", 5)];
  uint64_t key = dsim::dataRand();
  dsim::note(strf("%d operations, %s", ops, names[storage]));
  dsim::addParty(0, [&] {
    auto k = storage == 0 ? WireKeeper::createWithVectorArena<false>()
        : storage == 1    ? WireKeeper::createWithVectorArena<true>()
                          : WireKeeper::createWithUnorderedMap();
    bool checked = storage != 1;
    Prf r{key};
    std::map<uint64_t, Wire> live[4]; // bits, integers, batches of bits, batches of integers
    std::vector<uint64_t> dead[4];
    uint64_t taken = 0, dropped = 0;
    auto value = [&](int kind) {
      std::vector<uint64_t> v(kind < 2 ? 1 : 1 + r.below(r.below(8) ? 4 : 70));
      for (auto& x : v) x = kind % 2 ? r.next() : r.below(2);
      return v;
    };
    auto check = [&](int kind, uint64_t id, const Wire& w, const char* when) {
      std::vector<uint64_t> got;
      uint32_t level;
      size_t size = w.expected;
      if (kind == 0) {
        got = {k->getBooleanValue(B(id))};
        level = k->getFirstAvailableLevel(B(id));
      } else if (kind == 1) {
        got = {k->getIntegerValue(A(id))};
        level = k->getFirstAvailableLevel(A(id));
      } else if (kind == 2) {
        auto& v = k->getBatchBooleanValue(B(id));
        got.assign(v.begin(), v.end());
        level = k->getBatchFirstAvailableLevel(B(id));
        size = k->getBatchSize(B(id));
      } else {
        got = k->getBatchIntegerValue(A(id));
        level = k->getBatchFirstAvailableLevel(A(id));
        size = k->getBatchSize(A(id));
      }
      DSIM_CHECK(got == w.v, "stored-value", "kind %d, value %lu: %s it is not what was stored (%s)", kind, id, when, names[storage]);
      DSIM_CHECK(level == w.level, "stored-level", "kind %d, value %lu: %s its level is %u instead of %u (%s)", kind, id, when, level, w.level, names[storage]);
      DSIM_CHECK(size == w.expected, "stored-size", "kind %d, value %lu: %s its size is %zu instead of %zu", kind, id, when, size, w.expected);
    };
    // any use of a value that is gone
    auto refused = [&](int kind, uint64_t id) {
      int use = r.below(6);
      bool threw = false;
      try {
        switch (use) {
          case 0:
            if (kind == 0) k->getBooleanValue(B(id));
            else if (kind == 1) k->getIntegerValue(A(id));
            else if (kind == 2) k->getBatchBooleanValue(B(id));
            else k->getBatchIntegerValue(A(id));
            break;
          case 1:
            if (kind == 0) k->setBooleanValue(B(id), true);
            else if (kind == 1) k->setIntegerValue(A(id), 1);
            else if (kind == 2) k->setBatchBooleanValue(B(id), {true});
            else k->setBatchIntegerValue(A(id), {1});
            break;
          case 2:
            if (kind == 0) k->increaseReferenceCount(B(id));
            else if (kind == 1) k->increaseReferenceCount(A(id));
            else if (kind == 2) k->increaseBatchReferenceCount(B(id));
            else k->increaseBatchReferenceCount(A(id));
            break;
          case 3:
            if (kind == 0) k->decreaseReferenceCount(B(id));
            else if (kind == 1) k->decreaseReferenceCount(A(id));
            else if (kind == 2) k->decreaseBatchReferenceCount(B(id));
            else k->decreaseBatchReferenceCount(A(id));
            break;
          case 4:
            if (kind == 0) k->getFirstAvailableLevel(B(id));
            else if (kind == 1) k->getFirstAvailableLevel(A(id));
            else if (kind == 2) k->getBatchSize(B(id));
            else k->getBatchSize(A(id));
            break;
          default:
            if (kind == 0) k->setFirstAvailableLevel(B(id), 1);
            else if (kind == 1) k->setFirstAvailableLevel(A(id), 1);
            else if (kind == 2) k->getWritableBatchBooleanValue(B(id));
            else k->getWritableBatchIntegerValue(A(id));
        }
      } catch (const std::runtime_error&) {
        threw = true;
      }
      DSIM_CHECK(threw, "used-after-free", "kind %d: use %d of the freed value %lu goes unnoticed (%s)", kind, use, id, names[storage]);
      dsim::probe("freed_values_refused");
    };
    auto takeOne = [&](int kind, bool big) {
      auto& l = live[kind];
      Wire w;
      w.v = value(kind);
      if (big) w.v.resize(1);
      w.level = r.below(8) ? r.below(5) : r.next();
      w.expected = kind < 2 ? 0 : w.v.size();
      if (kind >= 2 && !r.below(4)) w.v.clear(); // to be set later
      uint64_t id = kind == 0 ? k->allocateBooleanValue(w.v[0], w.level).getId()
          : kind == 1         ? k->allocateIntegerValue(w.v[0], w.level).getId()
          : kind == 2         ? k->allocateBatchBooleanValue(bits(w.v), w.expected, w.level).getId()
                              : k->allocateBatchIntegerValue(w.v, w.expected, w.level).getId();
      DSIM_CHECK(!l.count(id), "stored-value", "kind %d: a new value gets the place of a live one, %lu (%s)", kind, id, names[storage]);
      l[id] = w;
      taken++;
      if (big) return;
      for (auto d = dead[kind].begin(); d != dead[kind].end(); d++)
        if (*d == id) {
          dead[kind].erase(d);
          dsim::probe("places_reused");
          break;
        }
    };
    auto refer = [&](int kind, uint64_t id, bool more) {
      if (kind == 0) more ? k->increaseReferenceCount(B(id)) : k->decreaseReferenceCount(B(id));
      else if (kind == 1) more ? k->increaseReferenceCount(A(id)) : k->decreaseReferenceCount(A(id));
      else if (kind == 2) more ? k->increaseBatchReferenceCount(B(id)) : k->decreaseBatchReferenceCount(B(id));
      else more ? k->increaseBatchReferenceCount(A(id)) : k->decreaseBatchReferenceCount(A(id));
    };
    int burstAt = burst ? r.below(ops) : -1;
    for (int i = 0; i < ops; i++) {
      int kind = r.below(4);
      auto& l = live[kind];
      if (i == burstAt) { // very many values at once, and very many references to one of them
        for (int j = 0; j < burst; j++) takeOne(kind, true);
        for (auto& d : dead) d.clear();
        auto& [id, w] = *l.lower_bound(r.below(l.rbegin()->first + 1));
        for (int j = 0; j < burst; j++) refer(kind, id, true);
        w.refs += burst;
        for (auto& [id, w] : l) check(kind, id, w, "after many others were taken");
        if (r.below(2)) // drop most of the references again
          for (int j = r.below(burst); j > 0; j--) refer(kind, id, false), w.refs--;
        check(kind, id, w, "with many references");
        if (r.below(2)) { // and most of the values, in an order of its own
          std::vector<uint64_t> ids;
          for (auto& [other, x] : l)
            if (x.refs == 1 && r.below(8)) ids.push_back(other);
          for (size_t j = ids.size(); j > 1; j--) std::swap(ids[j - 1], ids[r.below(j)]);
          for (auto other : ids) refer(kind, other, false), l.erase(other), dropped++;
          for (auto& [id, w] : l) check(kind, id, w, "after many others were freed");
        }
        dsim::probe("bursts_of_values");
        continue;
      }
      int what = l.empty() ? 0 : r.below(100);
      bool take = l.empty() || (what < 40 && (int)r.below(100) >= drop);
      if (take) {
        takeOne(kind, false);
        continue;
      }
      auto it = l.lower_bound(r.below(l.rbegin()->first + 1));
      uint64_t id = it->first;
      auto& w = it->second;
      if (what < 60) { // drop
        refer(kind, id, false);
        if (!--w.refs) {
          l.erase(it);
          dropped++;
          if (checked) dead[kind].push_back(id);
        }
      } else if (what < 70) {
        refer(kind, id, true);
        w.refs++;
      } else if (what < 80) {
        auto v = value(kind);
        if (kind >= 2) v.resize(w.expected);
        w.v = v;
        if (kind == 0) k->setBooleanValue(B(id), v[0]);
        else if (kind == 1) k->setIntegerValue(A(id), v[0]);
        else if (kind == 2 && r.below(2)) k->setBatchBooleanValue(B(id), bits(v));
        else if (kind == 2) k->getWritableBatchBooleanValue(B(id)) = bits(v);
        else if (r.below(2)) k->setBatchIntegerValue(A(id), v);
        else k->getWritableBatchIntegerValue(A(id)) = v;
      } else if (what < 85) {
        w.level = r.below(8) ? r.below(9) : r.next();
        if (kind == 0) k->setFirstAvailableLevel(B(id), w.level);
        else if (kind == 1) k->setFirstAvailableLevel(A(id), w.level);
        else if (kind == 2) k->setBatchFirstAvailableLevel(B(id), w.level);
        else k->setBatchFirstAvailableLevel(A(id), w.level);
      } else if (what < 95 || dead[kind].empty()) {
        check(kind, id, w, "later");
      } else {
        refused(kind, dead[kind][r.below(dead[kind].size())]);
      }
      auto s = k->getWireStatistics();
      DSIM_CHECK(s.first == taken && s.second == dropped, "wire-statistics", "%lu/%lu values taken/freed, reported %lu/%lu", taken, dropped, s.first, s.second);
    }
    for (int kind = 0; kind < 4; kind++)
      for (auto& [id, w] : live[kind]) {
        check(kind, id, w, "at the end");
        dsim::probe("stored_values_verified");
      }
  });
  mustFinish();
}
