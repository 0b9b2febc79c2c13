// A game of the frontend over every back end: draw, build, end. Used by the harnesses of the standard library.
#pragma once
#include <algorithm>
#include "engine.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/mpcGame.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"

namespace hx {
namespace sch = fbpcf::scheduler;
namespace fr = fbpcf::frontend;
using SchedPtr = std::unique_ptr<sch::IScheduler>;
// address of the private static scheduler the frontend types with scheduler id 0 work on (game.cpp)
SchedPtr* keeperSlot();

struct GameCfg {
  EngCfg eng;
  bool lazy = false;
  int keeper = 0;
  bool arith = false;
  std::string desc() const {
    return strf("%s scheduler, storage %d, %s", lazy ? "deferred" : "immediate", keeper, eng.desc().c_str());
  }
};
inline GameCfg drawGame(int maxParties) {
  GameCfg g;
  int sk = dsim::param("sched", -1);
  g.lazy = sk < 0 ? dsim::wl("scheduler", 2) : sk == 1;
  g.eng = drawEng(maxParties);
  g.keeper = dsim::wl("wire_keeper", 3);
  return g;
}
inline std::unique_ptr<sch::IWireKeeper> wireKeeper(int kind) {
  return kind == 0 ? sch::WireKeeper::createWithVectorArena<false>()
      : kind == 1  ? sch::WireKeeper::createWithVectorArena<true>()
                   : sch::WireKeeper::createWithUnorderedMap();
}
inline SchedPtr makeScheduler(const GameCfg& g, int me, IPartyCommunicationAgentFactory& af, MC mc) {
  auto e = makeEngine(g.eng, me, af, mc, true, g.arith);
  if (!g.lazy) return std::make_unique<sch::EagerScheduler>(std::move(e), wireKeeper(g.keeper));
  std::shared_ptr<sch::IWireKeeper> w = wireKeeper(g.keeper);
  return std::make_unique<sch::LazyScheduler>(std::move(e), w, std::make_unique<sch::GateKeeper>(w));
}
// one game per party; f runs between creating and dropping it
inline void playGame(const GameCfg& g, Net net, std::function<void(int, IPartyCommunicationAgentFactory&)> f) {
  dsim::partyGlobal(keeperSlot(), sizeof(SchedPtr));
  auto cl = std::make_shared<Cluster>(g.eng.n, net);
  cl->timeoutSec = 60;
  crypt().keepsState = true;
  addParties(g.eng.n, [g, f, cl](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
    std::unique_ptr<IPartyCommunicationAgentFactory> af = cl->factory(me, mc);
    {
      fr::MpcGame<0> game(makeScheduler(g, me, *af, mc));
      f(me, *af);
      sch::SchedulerKeeper<0>::deleteEngine();
    }
  });
}
// facts the parties learn during one run, joined afterwards or checked as they come in
template <class V>
struct Agreed {
  std::map<uint64_t, V> m;
  // the first caller decides, later callers have to agree
  bool same(uint64_t key, const V& v) {
    auto it = m.emplace(key, v);
    return it.second || it.first->second == v;
  }
};
} // namespace hx
