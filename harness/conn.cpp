// C09: establishing channels. C10 (channel part): crash and broken links below scripted channels.
#include "common.h"
using namespace hx;

namespace {
std::vector<unsigned char> token(int from, int to, int chan, uint64_t key) {
  std::vector<unsigned char> v(24);
  Prf p{key + from * 1000 + to * 100 + chan};
  for (auto& c : v) c = p.next();
  return v;
}
} // namespace

// mode 0: everybody appears in time and only transient trouble: all channels must be obtained
// mode 1: somebody never appears, or appears too late, or a configured port is taken, or accept/handshake/name
//         resolution fails: whoever cannot get its channels must report an error in bounded time, and
//         channels that were obtained must join the intended parties
DSIM_HARNESS(conn) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  int mode = dsim::param("mode", 0);
  Net kind = drawNet();
  int n = 2 + dsim::wlz("parties", 3, 4000);
  Cluster cl(n, kind);
  int T = cl.timeoutSec = 3 + dsim::wl("timeout", 58);
  cl.portBase = 5000;
  int gap = 0;
  if (dsim::wl("tight_ports", 2)) gap = 1 + dsim::wl("gap", 3);
  // channels per pair
  std::map<std::pair<int, int>, int> k;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) k[{i, j}] = dsim::wl("channels", 5);
  std::vector<uint64_t> start(n, 0);
  int absent = -1;
  uint64_t window = (uint64_t)(T - 1) * 900'000'000ull;
  for (int i = 0; i < n; i++)
    if (dsim::wl("late", 2)) start[i] = window / 1000 * dsim::wl("start", 1000);
  std::string trouble;
  int portTaken = 0;
  if (dsim::wl("ports_taken", 2)) {
    // other programs hold ports next to the configured ones
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        for (int c = 1; c <= 4; c++)
          if (dsim::wl("taken", 2)) {
            int p = (gap ? 5000 + gap * (i * 8 + j) : cl.port(i, j)) + c;
            // the configured (rendezvous) ports themselves are free
            bool conf = false;
            for (int x = i + 1; x < n; x++) conf |= p == (gap ? 5000 + gap * (i * 8 + x) : cl.port(i, x));
            if (conf) continue;
            dsim::occupyPort(i, p);
            portTaken++;
          }
  }
  if (mode == 0) {
    if (dsim::wl("refusals", 2)) {
      dsim::setFaultRate("connect_refused", 2000);
      dsim::setFaultRate("bind_in_use", 0);
      dsim::setFaultBudget(T / 2 < 12 ? T / 2 : 12);
    }
    if (dsim::wl("dns", 4) == 3) {
      dsim::setFaultRate("dns_fail", 3000);
      dsim::setFaultBudget(T / 2 < 5 ? T / 2 : 5);
    }
  } else {
    switch (dsim::wl("trouble", 5)) {
      case 0:
        absent = dsim::wl("absent", n);
        trouble = strf("party %d never starts", absent);
        break;
      case 1: {
        int l = dsim::wl("absent", n);
        start[l] = (uint64_t)(T * (1 + dsim::wl("very_late", 6))) * 1'000'000'000ull;
        trouble = strf("party %d starts after %lu s", l, start[l] / 1000000000);
        break;
      }
      case 2: {
        int i = dsim::wl("port_of", n - 1), j = i + 1 + dsim::wl("port_for", n - i - 1);
        dsim::occupyPort(i, gap ? 5000 + gap * (i * 8 + j) : cl.port(i, j));
        trouble = strf("configured port of %d for %d is taken", i, j);
        break;
      }
      case 3:
        dsim::setFaultRate("accept_fail", 1000);
        dsim::setFaultRate("dup_fail", 500);
        dsim::setFaultRate("fdopen_fail", 500);
        dsim::setFaultRate("socket_fail", 500);
        dsim::setFaultRate("conn_reset_early", 1000);
        dsim::setFaultBudget(1 + dsim::wl("budget", 3));
        trouble = "failing socket calls";
        break;
      case 4:
        dsim::setFaultRate("dns_fail", 9000);
        dsim::setFaultRate("connect_timeout", 1000);
        dsim::setFaultBudget(1 + dsim::wl("budget", 30));
        trouble = "name resolution fails, connects time out";
        break;
    }
  }
  dsim::note(strf("%d parties over %s, waiting time %d s, port gap %d, %s", n, name(kind), T, gap, trouble.c_str()));
  bool strangers = dsim::wlp("strangers", 3000);
  uint64_t key = dsim::dataRand();
  std::vector<int> ok(n, 0);
  std::vector<std::string> err(n);
  for (int me = 0; me < n; me++) {
    if (me == absent) continue;
    dsim::addParty(me, [&, me] {
      if (start[me]) dsim::sleepNs(start[me]);
      uint64_t t0 = dsim::nowNs();
      try {
        auto mc = std::make_shared<fbpcf::util::MetricCollector>("party");
        auto infos = cl.infos(me);
        if (gap)
          for (auto& [j, in] : infos) in.portNo = 5000 + gap * (std::min(me, j) * 8 + std::max(me, j));
        std::unique_ptr<IPartyCommunicationAgentFactory> f;
        if (kind == Net::InMem) f = cl.factory(me, mc);
        else f = std::make_unique<SocketPartyCommunicationAgentFactory>(me, infos, Cluster::tlsInfo(kind == Net::Tls), mc, T);
        struct A { int peer, c; std::unique_ptr<IPartyCommunicationAgent> a; };
        std::vector<A> as;
        for (auto& [pr, cnt] : k)
          if (pr.first == me || pr.second == me)
            for (int c = 0; c < cnt; c++) {
              int peer = pr.first == me ? pr.second : pr.first;
              as.push_back({peer, c, f->create(peer, "c" + std::to_string(peer) + "_" + std::to_string(c))});
            }
        // there is no channel to oneself or to a party nobody configured
        if (strangers)
          for (int id : {me, n + 3, -1}) {
            bool refused = false;
            try {
              f->create(id, "stranger");
            } catch (const std::exception&) {
              refused = true;
            }
            DSIM_CHECK(refused, "wrong-partner", "party %d obtained a channel to party %d of %d", me, id, n);
            dsim::probe("strangers_refused");
          }
        // all channels exist at once; use them in another order
        std::reverse(as.begin(), as.end());
        for (auto& a : as) a.a->send(token(me, a.peer, a.c, key));
        for (auto& a : as) {
          auto r = a.a->receive(24);
          DSIM_CHECK(r == token(a.peer, me, a.c, key), "wrong-partner",
                     "party %d, channel %d to %d: token of somebody else (or none)", me, a.c, a.peer);
        }
        ok[me] = 1;
        dsim::probe("channels_verified", as.size());
      } catch (const std::exception& e) {
        err[me] = e.what();
        dsim::probe("parties_reporting_error");
        if (mode == 0) dsim::fail("connect-failed", "party %d: %s", me, e.what());
      }
      uint64_t took = dsim::nowNs() - t0;
      uint64_t bound = (uint64_t)(n + 1) * (6ull * T + 140) * 1'000'000'000ull + 30ull * 21'000'000'000ull;
      DSIM_CHECK(took < bound, "waited-too-long", "party %d needed %lu s with waiting time %d s", me, took / 1000000000, T);
      if (!ok[me]) dsim::crashParty(me, false); // the process gives up and exits
    });
  }
  dsim::RunOptions o;
  o.maxSimNs = (uint64_t)(T * 8 + 60) * 1'000'000'000ull * (n + 2) * 2;
  mustFinish(o);
  if (mode == 1 && absent >= 0)
    for (int i = 0; i < n; i++)
      if (i != absent) DSIM_CHECK(!ok[i], "connected-to-nobody", "party %d reports success although party %d never started", i, absent);
  if (portTaken) dsim::probe("runs_with_taken_ports");
  if (mode == 1 && dsim::faultsInjected() == 0 && absent < 0)
    for (int i = 0; i < n; i++) if (ok[i]) dsim::probe("ok_despite_trouble");
}

// C10: scripted channels with crashes, broken links and failing socket calls
DSIM_HARNESS(chancrash) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  Net kind = drawNet();
  int n = 2 + dsim::wlz("parties", 2, 5000);
  Cluster cl(n, kind);
  cl.timeoutSec = 20;
  int rounds = 1 + dsim::wl("rounds", 12);
  std::vector<size_t> sz(rounds);
  for (auto& s : sz) s = dsim::wlz("big", 3, 6000) ? dsim::wl("size", 60000) : 1 + dsim::wl("size", 200);
  int how = dsim::wl("trouble", 5);
  int victim = dsim::wl("victim", n), other = (victim + 1 + dsim::wl("other", n - 1)) % n;
  uint64_t when = dsim::wl("at_phase", 4) == 0 ? dsim::wl("at", 400) * 10'000ull : dsim::wl("at", 4000) * (dsim::net().maxDelayNs / 100 + 1);
  (void)0;
  const char* hows[] = {"process crash", "machine crash", "connection reset", "connection lost silently", "failing socket calls"};
  dsim::note(strf("%d parties over %s, %d rounds, %s of %d at %lu us", n, name(kind), rounds, hows[how], victim, when / 1000));
  if (how < 4)
    dsim::at(when, [=] {
      if (how == 0) dsim::crashParty(victim, false);
      else if (how == 1) dsim::crashParty(victim, true);
      else dsim::resetConnection(victim, other, how == 2);
      dsim::probe(hows[how]);
    });
  else {
    dsim::setFaultRate("net_read_error", dsim::wl("rd", 2) ? 300 : 0);
    dsim::setFaultRate("net_write_error", dsim::wl("wr", 2) ? 300 : 0);
    dsim::setFaultBudget(1 + dsim::wl("budget", 2));
  }
  uint64_t key = dsim::dataRand();
  std::vector<int> done(n, 0);
  for (int me = 0; me < n; me++)
    dsim::addParty(me, [&, me] {
      try {
        auto f = cl.factory(me);
        std::vector<std::unique_ptr<IPartyCommunicationAgent>> ag(n);
        for (int i = 0; i < n; i++)
          for (int j = i + 1; j < n; j++)
            if (i == me || j == me) ag[i + j - me] = f->create(i + j - me, "x" + std::to_string(i + j - me));
        auto pat = [&](int a, int b, int r) {
          std::vector<unsigned char> v(sz[r]);
          Prf p{key ^ (uint64_t)(a * 64 + b * 8 + 1) * 1000 ^ (uint64_t)r << 40};
          for (auto& c : v) c = p.next();
          return v;
        };
        for (int r = 0; r < rounds; r++)
          for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++) {
              if (i != me && j != me) continue;
              int peer = i + j - me;
              auto rx = [&] {
                std::vector<unsigned char> v;
                if (r % 3 == 1) {
                  auto b = ag[peer]->receiveT<unsigned char>(sz[r]);
                  v = b;
                } else v = ag[peer]->receive(sz[r]);
                if (v != pat(peer, me, r))
                  dsim::fail("made-up-data", "party %d, round %d: the %zu bytes returned as received from %d are not what it sent (%s)", me, r, sz[r], peer, hows[how]);
                dsim::probe("messages_verified");
              };
              if (me < peer) { ag[peer]->send(pat(me, peer, r)); rx(); }
              else { rx(); ag[peer]->send(pat(me, peer, r)); }
            }
        done[me] = 1;
      } catch (const std::exception& e) {
        dsim::event("party_error", me);
        dsim::probe("parties_reporting_error");
        dsim::crashParty(me, false); // exits
      }
    });
  dsim::RunOptions o;
  o.maxSimNs = 2000ull * 1'000'000'000ull;
  auto e = dsim::runAll(o);
  if (e != dsim::End::Done)
    dsim::fail("survivor-hangs", "%s after %s of %d: %s", e == dsim::End::Deadlock ? "blocked for ever" : "no progress", hows[how], victim, dsim::blockedReport().substr(0, 700).c_str());
  int fin = 0;
  for (int i = 0; i < n; i++) fin += done[i];
  if (fin == n) dsim::probe("trouble_had_no_effect");
}

// C28: what a channel or factory holds is given back when it is destroyed or cannot be set up, and a peer that waits on
// it learns of it although the process lives on
DSIM_HARNESS(release) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  Net kind = drawNet();
  int n = 2 + dsim::wlz("parties", 2, 6000);
  Cluster cl(n, kind);
  int T = cl.timeoutSec = 3 + dsim::wl("timeout", 30);
  std::string trouble = "no trouble";
  int absent = -1;
  std::vector<uint64_t> start(n, 0);
  for (int i = 0; i < n; i++)
    if (dsim::wl("late", 2)) start[i] = (uint64_t)(T - 1) * 900'000ull * dsim::wl("start", 1000);
  switch (dsim::wl("trouble", 5)) {
    case 0: break;
    case 1:
      absent = dsim::wl("absent", n);
      trouble = strf("party %d never starts", absent);
      break;
    case 2:
      for (auto k : {"accept_fail", "dup_fail", "fdopen_fail", "socket_fail", "conn_reset_early", "bind_in_use"})
        if (dsim::wl("kind", 2)) dsim::setFaultRate(k, 1000);
      dsim::setFaultBudget(1 + dsim::wl("budget", 3));
      trouble = "failing set-up calls";
      break;
    case 3:
      for (auto k : {"net_read_error", "net_write_error"})
        if (dsim::wl("kind", 2)) dsim::setFaultRate(k, 300);
      dsim::setFaultBudget(1 + dsim::wl("budget", 2));
      trouble = "failing transfers";
      break;
    default: {
      int l = dsim::wl("absent", n);
      start[l] = (uint64_t)(T * (1 + dsim::wl("very_late", 4))) * 1'000'000'000ull;
      trouble = strf("party %d starts after %lu s", l, start[l] / 1000000000);
    }
  }
  // the same script for every pair: open a channel, use it, drop one
  struct Step { int op; int a; int size; };
  std::vector<std::vector<std::vector<Step>>> script(n, std::vector<std::vector<Step>>(n));
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      int open = 0;
      for (int s = 1 + dsim::wl("steps", 8); s > 0; s--) {
        int op = open ? dsim::wl("op", 3) : 0;
        if (op == 0 && open >= 4) op = 1;
        script[i][j].push_back({op, open ? (int)dsim::wl("which", open) : 0, 1 + (int)dsim::wl("size", 3000)});
        open += op == 0 ? 1 : op == 2 ? -1 : 0;
      }
    }
  bool factoryFirst = dsim::wl("factory_first", 2);
  uint64_t key = dsim::dataRand();
  dsim::note(strf("%d parties over %s, waiting time %d s, %s", n, name(kind), T, trouble.c_str()));
  std::vector<int> ok(n, 0);
  for (int me = 0; me < n; me++) {
    if (me == absent) continue;
    dsim::addParty(me, [&, me] {
      if (start[me]) dsim::sleepNs(start[me]);
      uint64_t t0 = dsim::nowNs();
      try {
        std::unique_ptr<IPartyCommunicationAgentFactory> f = cl.factory(me);
        int base = dsim::openSockets(me);
        std::map<int, std::vector<std::unique_ptr<IPartyCommunicationAgent>>> ag;
        int made = 0, perChannel = kind == Net::Tls ? 1 : 2;
        for (int i = 0; i < n; i++)
          for (int j = i + 1; j < n; j++) {
            if (i != me && j != me) continue;
            int peer = i + j - me;
            auto& a = ag[peer];
            for (auto& s : script[i][j]) {
              if (s.op == 0) {
                a.push_back(f->create(peer, "c" + std::to_string(made++)));
              } else if (s.op == 1) {
                std::vector<unsigned char> v(s.size), w(s.size);
                Prf p{key + me * 8 + peer}, q{key + peer * 8 + me};
                for (auto& c : v) c = p.next();
                for (auto& c : w) c = q.next();
                if (me < peer) a[s.a]->send(v);
                auto got = a[s.a]->receive(s.size);
                if (me > peer) a[s.a]->send(v);
                DSIM_CHECK(got == w, "wrong-data", "party %d received something else than %d sent", me, peer);
                dsim::probe("messages_verified");
              } else {
                a.erase(a.begin() + s.a);
              }
              int held = 0;
              for (auto& [x, y] : ag) held += y.size();
              DSIM_CHECK(dsim::openSockets(me) <= base + perChannel * held, "channel-leak",
                         "party %d holds %d sockets for %d channels besides the %d of its factory (%s)", me,
                         dsim::openSockets(me) - base, held, base, trouble.c_str());
            }
          }
        if (factoryFirst) f.reset();
        ok[me] = 1;
      } catch (const std::exception& e) {
        dsim::event("party_error", me);
        dsim::probe("parties_reporting_error");
        if (trouble == "no trouble") dsim::fail("unexpected-error", "party %d: %s", me, e.what());
      }
      DSIM_CHECK(dsim::openSockets(me) == 0, "sockets-left", "party %d has destroyed everything and still holds %d sockets (%s, %s)", me,
                 dsim::openSockets(me), ok[me] ? "after success" : "after an error", trouble.c_str());
      dsim::probe(ok[me] ? "released_after_use" : "released_after_error");
      uint64_t took = dsim::nowNs() - t0;
      uint64_t bound = (uint64_t)(n + 1) * (6ull * T + 140) * 1'000'000'000ull + 30ull * 21'000'000'000ull;
      DSIM_CHECK(took < bound, "waited-too-long", "party %d needed %lu s with waiting time %d s", me, took / 1000000000, T);
    });
  }
  dsim::RunOptions o;
  o.maxSimNs = (uint64_t)(T * 8 + 60) * 1'000'000'000ull * (n + 2) * 2;
  auto e = dsim::runAll(o);
  if (e != dsim::End::Done)
    dsim::fail("peer-hangs", "%s (%s): %s", e == dsim::End::Deadlock ? "blocked for ever" : "no progress", trouble.c_str(), dsim::blockedReport().substr(0, 700).c_str());
  DSIM_CHECK(dsim::openAddressLists() == 0, "address-lists-left", "%d results of name resolution never freed (%s)", dsim::openAddressLists(), trouble.c_str());
}

// C09: an encrypted channel is only established with a server that proves to be the configured one
DSIM_HARNESS(impostor) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  int n = 2 + dsim::wlz("parties", 2, 6000);
  Cluster cl(n, Net::Tls);
  int T = cl.timeoutSec = 3 + dsim::wl("timeout", 20);
  int bad = dsim::wl("impostor", n - 1); // the highest party serves nobody
  int how = dsim::wl("how", 5);
  static const char* hows[] = {"a certificate of an unknown authority", "a certificate for another host", "no usable key", "a key it cannot decrypt",
                               "no certificate file"};
  dsim::note(strf("%d parties, party %d shows %s", n, bad, hows[how]));
  for (int me = 0; me < n; me++)
    dsim::addParty(me, [&, me] {
      try {
        auto ti = Cluster::tlsInfo(true);
        if (me == bad) {
          if (how < 2) ti.certPath = std::string("/verif/sim/certs/") + (how ? "elsewhere.pem" : "foreign.pem");
          else if (how == 2) ti.keyPath = "/verif/sim/certs/ca.key"; // does not belong to the certificate
          else if (how == 3) ti.passphrasePath = dsim::wl("no_passphrase", 2) ? "/verif/sim/certs/none" : "/verif/sim/certs/ca.pem"; // not the key's
          else ti.certPath += ".missing";
        }
        auto mc = std::make_shared<fbpcf::util::MetricCollector>("party");
        auto f = std::make_unique<SocketPartyCommunicationAgentFactory>(me, cl.infos(me), ti, mc, T);
        // every party above the impostor is its client, and the impostor waits for each of them
        if (me >= bad) {
          auto a = f->create(me == bad ? bad + 1 : bad, "x");
          dsim::fail("impostor-accepted", "party %d has a channel %s party %d, which shows %s", me, me == bad ? "as" : "to", bad, hows[how]);
        }
      } catch (const std::exception&) {
        dsim::probe("impostors_refused");
      }
      dsim::crashParty(me, false);
    });
  dsim::RunOptions o;
  o.maxSimNs = (uint64_t)(T * 8 + 60) * 1'000'000'000ull * (n + 2) * 2;
  mustFinish(o);
}

// C30: a failing call while encrypted channels are set up or used ends in an error, and leaves nothing behind
DSIM_HARNESS(tlscall) {
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  int n = 2 + dsim::wlz("parties", 3, 6000);
  Cluster cl(n, Net::Tls);
  cl.timeoutSec = 3 + dsim::wl("timeout", 20);
  std::map<std::pair<int, int>, int> k;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) k[{i, j}] = dsim::wl("channels", 4);
  int rounds = 1 + dsim::wl("rounds", 3);
  uint64_t key = dsim::dataRand();
  drawCrypt();
  for (int me = 0; me < n; me++)
    dsim::addParty(me, [&, me] {
      try {
        auto f = cl.factory(me);
        struct A { int peer, c; std::unique_ptr<IPartyCommunicationAgent> a; };
        std::vector<A> as;
        for (auto& [pr, cnt] : k)
          if (pr.first == me || pr.second == me)
            for (int c = 0; c < cnt; c++) {
              int peer = pr.first == me ? pr.second : pr.first;
              as.push_back({peer, c, f->create(peer, "c" + std::to_string(peer) + "_" + std::to_string(c))});
            }
        for (int r = 0; r < rounds; r++) {
          for (auto& a : as) a.a->send(token(me, a.peer, a.c, key + r));
          for (auto& a : as) {
            auto v = a.a->receive(24);
            DSIM_CHECK(v == token(a.peer, me, a.c, key + r), "wrong-data", "party %d, channel %d to %d: not what was sent", me, a.c, a.peer);
            dsim::probe("tls_messages_verified");
          }
        }
      } catch (const std::exception& e) {
        if (!dsim::faultsInjected()) dsim::fail("unexpected-error", "party %d: %s", me, e.what());
        crypt().error[me] = e.what();
      }
      // everything it made is gone although the process lives on
      DSIM_CHECK(dsim::openSockets(me) == 0, "sockets-left", "party %d has destroyed everything and still holds %d sockets", me, dsim::openSockets(me));
    });
  mustFinish();
  DSIM_CHECK(dsim::liveCryptoObjects().empty(), "left-behind", "what %s made is never freed", dsim::liveCryptoObjects().c_str());
}
