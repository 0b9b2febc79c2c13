#include "dsim.h"
#include <thread>
#include <future>
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
using namespace fbpcf::engine::communication;
DSIM_HARNESS(smoke) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  bool tls = dsim::param("tls", 0);
  for (int me = 0; me < 2; me++) {
    dsim::hostName(me, me ? "party1" : "party0");
    dsim::addParty(me, [me, tls] {
      std::map<int, SocketPartyCommunicationAgentFactory::PartyInfo> infos;
      infos[1 - me] = {"party" + std::to_string(1 - me), 5000};
      SocketPartyCommunicationAgent::TlsInfo ti;
      ti.useTls = tls;
      if (tls) {
        std::string d = "/verif/sim/certs/";
        ti.certPath = d + "cert.pem"; ti.keyPath = d + "key.pem";
        ti.passphrasePath = d + "passphrase.pem"; ti.rootCaCertPath = d + "ca.pem";
      }
      auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
      SocketPartyCommunicationAgentFactory f(me, infos, ti, mc, 30);
      auto a = f.create(1 - me, "a");
      auto b = f.create(1 - me, "b");
      std::vector<unsigned char> v(1000, me), w(5000, me + 10);
      auto fut = std::async([&] { b->send(w); return b->receive(5000); });
      a->send(v);
      auto r = a->receive(1000);
      DSIM_CHECK(r == std::vector<unsigned char>(1000, 1 - me), "bad-data", "a");
      auto r2 = fut.get();
      DSIM_CHECK(r2 == std::vector<unsigned char>(5000, 1 - me + 10), "bad-data", "b");
    });
  }
  auto e = dsim::runAll();
  DSIM_CHECK(e == dsim::End::Done, "no-progress", "%s", dsim::blockedReport().c_str());
}
