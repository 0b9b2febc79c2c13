#include "perm.h"
namespace px {
std::vector<std::pair<const char*, PermMaker>>& permTypes() {
  static std::vector<std::pair<const char*, PermMaker>> z;
  return z;
}
} // namespace px
using namespace px;
PX_TYPE(b, "bits", bool)
PX_TYPE(u, "32-bit integers", uint32_t)
PX_TYPE(pub, "pairs of integer and bit", std::pair<uint32_t, bool>)

DSIM_HARNESS(perm) {
  GameCfg g = drawGame(2);
  g.eng.n = 2;
  Net net = drawNet();
  auto& all = permTypes();
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return strcmp(a.first, b.first) < 0; });
  int nops = 1 + dsim::wl("ops", dsim::param("ops", 4));
  std::vector<POp> ops;
  std::string list;
  for (int i = 0; i < nops; i++) {
    POp o;
    int k = dsim::wl("op", 8);
    static const int kinds[] = {-1, 0, 0, 0, 1, 1, 2, 2};
    if (kinds[k] < 0) continue;
    o.kind = kinds[k];
    o.type = dsim::wl("type", all.size());
    static const int sizes[] = {2, 3, 4, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0, 15, 16, 17, 24, 19, 31, 32, 33, 64, 65};
    o.size = sizes[dsim::wl("size", dsim::param("bigsizes", 0) ? 23 : 18)];
    if (dsim::param("bigsizes", 0))
      if (size_t x = drawLarge(700, 1024)) o.size = x;
    o.how = dsim::wl("order", 8);
    o.impl = dsim::wl("impl", 32);
    o.owner = dsim::wl("owner", 2);
    o.chooser = dsim::wl("chooser", 2);
    o.labels = dsim::wl("labels", 5);
    o.data = dsim::dataRand();
    list += strf(" %s(%u %s)", o.kind == 0 ? "permute" : o.kind == 1 ? "shuffle" : "compact", o.size, all[o.type].first);
    ops.push_back(o);
  }
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  std::string what = g.desc();
  dsim::note(what + ", " + name(net) + " transport," + list);
  playGame(g, net, [&](int me, IPartyCommunicationAgentFactory&) {
    PEnv e;
    e.me = me;
    e.what = what.c_str();
    for (auto& o : ops) all[o.type].second()->run(e, o);
    auto st = sch::SchedulerKeeper<0>::getWireStatistics();
    if (!g.lazy)
      DSIM_CHECK(st.first == st.second, "wire-leak", "%s: party %d: %lld values are still stored", e.what, me, (long long)(st.first - st.second));
  });
  dsim::RunOptions ro;
  ro.maxSteps = 20'000'000;
  mustFinish(ro);
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
}
