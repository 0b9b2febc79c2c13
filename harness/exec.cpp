// C22: concurrent execution of applications; C23: channel over in-process queues; C24: clients shared between threads.
#include <future>
#include <set>
#include "game.h"
#include "cloudsim.h"
#include "fbpcf/aws/AwsSdk.h"
#include "fbpcf/io/cloud_util/CloudFileUtil.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "fbpcf/mpc/EmpApp.h"
#include "fbpcf/mpc/EmpTestUtil.h"
#include "fbpcf/mpc/MpcAppExecutor.h"
#include "fbpcf/mpc/QueueIO.h"
#include "example/billionaire_problem/BillionaireProblemGame.h"
using namespace hx;

namespace xx {
constexpr int kIds = 4;
// ---- plain applications
struct Log {
  int running = 0, most = 0, finished = 0;
  std::vector<int> starts;
  std::vector<std::string> outputs;
};
struct App {
  virtual ~App() = default;
  virtual void run() = 0;
};
struct Work : App {
  Log* log;
  int no;
  uint64_t ns;
  int yields, ending;
  void run() override {
    log->starts[no]++;
    log->most = std::max(log->most, ++log->running);
    for (int i = 0; i < yields; i++) dsim::yieldPoint("work");
    if (ns) dsim::sleepNs(ns);
    log->running--;
    log->finished++;
    if (ending == 1) throw std::runtime_error("the shard fails");
    if (ending == 2) throw 7;
  }
};
// ---- applications of the emp kind
struct Io {
  std::string address;
  int port;
};
struct Game : fbpcf::IMpcGame<int, std::string> {
  Game(std::unique_ptr<emp::NetIO> io, fbpcf::Party p) : io_(std::move(io)), p_(p) {}
  std::string play(const int& x) override {
    if (x < 0) throw std::runtime_error("the game fails");
    dsim::yieldPoint("play");
    return strf("%d %s:%d %d", x, io_->address_.c_str(), io_->port_, (int)p_);
  }
  std::unique_ptr<emp::NetIO> io_;
  fbpcf::Party p_;
};
struct EApp : fbpcf::EmpApp<Game, int, std::string>, App {
  EApp(Log* l, int no, int in, fbpcf::Party p, const std::string& ip, uint16_t port) : EmpApp(p, ip, port), log(l), no(no), in(in) {}
  Log* log;
  int no, in, asked = 0;
  void run() override {
    log->starts[no]++;
    log->most = std::max(log->most, ++log->running);
    struct End {
      Log* l;
      ~End() { l->running--, l->finished++; }
    } e{log};
    EmpApp::run();
  }
  int getInputData() override {
    asked++;
    return in;
  }
  void putOutputData(const std::string& o) override { log->outputs[no] += o; }
};

// ---- applications that are one side of a computation each
struct Shard {
  std::vector<uint32_t> a, b;
};
template <int id>
struct Side : App {
  int me;
  GameCfg cfg;
  Net net;
  std::shared_ptr<Cluster> cl;
  const Shard* sh;
  Log* log;
  void run() override {
    log->starts[id]++;
    log->most = std::max(log->most, ++log->running);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>(strf("shard_%d", id));
    auto af = cl->factory(me, mc);
    {
      using G = fbpcf::billionaire_problem::BillionaireProblemGame<id, true>;
      G g(makeScheduler(cfg, me, *af, mc));
      std::vector<uint32_t> z(sh->a.size());
      typename G::AssetsLists a{me ? z : sh->a, z, z}, b{me ? sh->b : z, z, z};
      auto r = g.billionaireProblem(a, b);
      if (me == 0)
        for (size_t i = 0; i < r.size(); i++) {
          DSIM_CHECK(r[i] == (sh->a[i] < sh->b[i]), "wrong-answer", "shard %d: wrong comparison at row %zu", id, i);
          dsim::probe("shard_results_verified");
        }
    }
    log->running--;
    log->finished++;
  }
};
template <int id>
std::unique_ptr<App> side(int me, GameCfg c, Net n, std::shared_ptr<Cluster> cl, const Shard* s, Log* l) {
  auto r = std::make_unique<Side<id>>();
  r->me = me, r->cfg = c, r->net = n, r->cl = cl, r->sh = s, r->log = l;
  return r;
}
} // namespace xx
namespace {
template <int id>
struct Tag {
  friend SchedPtr* robbed(Tag<id>);
};
template <class T, SchedPtr* P>
struct Rob {
  friend SchedPtr* robbed(T) { return P; }
};
} // namespace
template struct Rob<Tag<0>, &sch::SchedulerKeeper<0>::scheduler_>;
template struct Rob<Tag<1>, &sch::SchedulerKeeper<1>::scheduler_>;
template struct Rob<Tag<2>, &sch::SchedulerKeeper<2>::scheduler_>;
template struct Rob<Tag<3>, &sch::SchedulerKeeper<3>::scheduler_>;
using namespace xx;

static void checkLog(const Log& l, size_t n, int limit) {
  DSIM_CHECK(l.running == 0 && l.finished == (int)n, "returned-early", "%d of %zu shards have ended when the call returns, %d are running", l.finished, n, l.running);
  for (size_t i = 0; i < n; i++) DSIM_CHECK(l.starts[i] == 1, "not-once", "shard %zu of %zu was run %d times", i, n, l.starts[i]);
  DSIM_CHECK(l.most <= limit, "over-limit", "%d shards at a time, the limit is %d", l.most, limit);
  dsim::probe("shards_run", n);
  if (l.most > 1) dsim::probe("concurrent_runs");
  if (l.most == limit && (int)n > limit) dsim::probe("limit_reached");
}

DSIM_HARNESS(exec) {
  dsim::drawSchedPolicy();
  int limit = 1 + dsim::wl("limit", 5);
  size_t n = dsim::wl("shards", 13);
  bool emp = dsim::wl("emp", 2), wait = dsim::wl("wait_after", 2), keep = dsim::wl("destroy", 2);
  dsim::note(strf("%zu %s shards, at most %d at a time", n, emp ? "emp" : "plain", limit));
  auto log = std::make_shared<Log>();
  log->starts.resize(n);
  log->outputs.resize(n);
  auto apps = std::make_shared<std::vector<std::unique_ptr<App>>>();
  auto want = std::make_shared<std::vector<std::string>>(n);
  for (size_t i = 0; i < n; i++) {
    if (emp) {
      int in = (int)dsim::wl("input", 1000) - (dsim::wlp("failing", 1500) ? 5000 : 0);
      auto p = dsim::wl("role", 2) ? fbpcf::Party::Bob : fbpcf::Party::Alice;
      int port = 1000 + dsim::wl("port", 60000);
      std::string ip = strf("10.0.0.%zu", i);
      if (in >= 0) (*want)[i] = strf("%d %s:%d %d", in, p == fbpcf::Party::Alice ? "" : ip.c_str(), port, (int)p);
      apps->push_back(std::make_unique<EApp>(log.get(), i, in, p, ip, port));
    } else {
      auto w = std::make_unique<Work>();
      w->log = log.get();
      w->no = i;
      static const uint64_t d[] = {0, 1000, 1'000'000, 5'000'000, 1'000'000'000};
      w->ns = d[dsim::wl("duration", 5)];
      w->yields = dsim::wl("yields", 4);
      w->ending = dsim::wlz("ending", 3, 8000);
      apps->push_back(std::move(w));
    }
  }
  addParties(1, [=](int) {
    fbpcf::MpcAppExecutor<App> x(limit);
    if (wait) dsim::sleepNs(1000000);
    x.execute(*apps);
    checkLog(*log, n, limit);
    for (size_t i = 0; i < n; i++) {
      DSIM_CHECK(log->outputs[i] == (*want)[i], "wrong-output", "shard %zu put '%s', expected '%s'", i, log->outputs[i].c_str(), (*want)[i].c_str());
      if (emp && (*want)[i].size()) dsim::probe("outputs_verified");
    }
    if (keep) apps->clear();
  });
  mustFinish({2000000, 0});
}

DSIM_HARNESS(shards) {
  auto g = drawGame(2);
  g.eng.n = 2;
  auto net = drawNet();
  dsim::drawSchedPolicy();
  size_t n = 1 + dsim::wl("shards", kIds);
  int limit[2] = {1 + (int)dsim::wl("limit", 4), 1 + (int)dsim::wl("limit", 4)};
  dsim::note(strf("%zu shards, at most %d / %d at a time, %s, %s", n, limit[0], limit[1], g.desc().c_str(), name(net)));
  dsim::partyGlobal(robbed(Tag<0>{}), sizeof(SchedPtr));
  dsim::partyGlobal(robbed(Tag<1>{}), sizeof(SchedPtr));
  dsim::partyGlobal(robbed(Tag<2>{}), sizeof(SchedPtr));
  dsim::partyGlobal(robbed(Tag<3>{}), sizeof(SchedPtr));
  auto sh = std::make_shared<std::vector<Shard>>(n);
  auto cls = std::make_shared<std::vector<std::shared_ptr<Cluster>>>();
  Prf p{dsim::dataRand()};
  for (auto& s : *sh) {
    size_t rows = 1 + dsim::wl("rows", 5);
    for (size_t i = 0; i < rows; i++) {
      s.a.push_back((uint32_t)p.next());
      s.b.push_back(p.below(3) ? (uint32_t)p.next() : s.a.back() + (uint32_t)p.below(3) - 1);
    }
    cls->push_back(std::make_shared<Cluster>(2, net));
    cls->back()->timeoutSec = 120;
    cls->back()->portBase = 5000 + 5000 * cls->size();
  }
  addParties(2, [=](int me) {
    std::vector<std::unique_ptr<App>> apps;
    auto log = std::make_shared<Log>();
    log->starts.resize(n);
    for (size_t i = 0; i < n; i++) {
      auto& c = (*cls)[i];
      auto s = &(*sh)[i];
      switch (i) {
        case 0: apps.push_back(side<0>(me, g, net, c, s, log.get())); break;
        case 1: apps.push_back(side<1>(me, g, net, c, s, log.get())); break;
        case 2: apps.push_back(side<2>(me, g, net, c, s, log.get())); break;
        default: apps.push_back(side<3>(me, g, net, c, s, log.get())); break;
      }
    }
    fbpcf::MpcAppExecutor<App> x(limit[me]);
    x.execute(apps);
    checkLog(*log, n, limit[me]);
  });
  mustFinish({60000000, 0});
}

// ---- C23
namespace xx {
using Q = folly::Synchronized<std::queue<char>>;
struct Ev {
  int kind; // 0 A sends, 1 B sends, 2 A receives, 3 B receives
  size_t n;
};
static uint8_t byteAt(uint64_t seed, int dir, size_t i) { return mix(seed ^ (i / 8 * 2 + dir)) >> (8 * (i % 8)); }
struct PairGame : fbpcf::IMpcGame<std::string, std::string> {
  PairGame(std::unique_ptr<fbpcf::QueueIO> io, fbpcf::Party p) : io_(std::move(io)), p_(p) {}
  std::string play(const std::string& s) override {
    uint32_t n = s.size(), m = 0;
    io_->send_data(&n, 4);
    if (n) io_->send_data(s.data(), n);
    io_->recv_data(&m, 4);
    std::string o(m, 0);
    if (m) io_->recv_data(&o[0], m);
    return o;
  }
  std::unique_ptr<fbpcf::QueueIO> io_;
  fbpcf::Party p_;
};
} // namespace xx
DSIM_HARNESS(queueio) {
  dsim::drawSchedPolicy();
  int mode = dsim::wl("mode", 3); // 0 one thread per side, 1 a thread per side and direction, 2 two games
  auto seed = dsim::dataRand();
  Prf p{seed};
  dsim::note(mode == 0 ? "two threads" : mode == 1 ? "four threads" : "two games");
  if (mode == 2) {
    std::string a(dsim::wl("len_a", 40), 0), b(dsim::wl("len_b", 40), 0);
    for (auto& c : a) c = p.next();
    for (auto& c : b) c = p.next();
    addParties(1, [=](int) {
      auto r = fbpcf::mpc::test<PairGame, std::string, std::string>(a, b);
      DSIM_CHECK(r.first == b && r.second == a, "wrong-bytes", "two games exchanging %zu and %zu bytes get something else", a.size(), b.size());
      dsim::probe("bytes_verified", a.size() + b.size());
      dsim::probe("games_verified");
    });
    mustFinish({3000000, 0});
    return;
  }
  auto evs = std::make_shared<std::vector<Ev>>();
  size_t out[2] = {0, 0};
  size_t k = 1 + dsim::wl("events", 30);
  auto len = [&] {
    int s = dsim::wl("size", 6);
    return s == 0 ? p.below(3) : s == 5 ? p.below(120) : p.below(20);
  };
  for (size_t i = 0; i < k; i++) {
    int kind = dsim::wl("kind", 4);
    size_t n = len();
    if (kind < 2)
      out[kind] += n;
    else {
      size_t& o = out[3 - kind]; // A receives what B sent
      n = std::min(n, o);
      o -= n;
    }
    evs->push_back({kind, n});
  }
  for (int d = 0; d < 2; d++)
    if (out[d]) evs->push_back({3 - d, out[d]});
  auto qa = std::make_shared<Q>(), qb = std::make_shared<Q>();
  addParties(1, [=](int) {
    fbpcf::QueueIO ioA(qa, qb), ioB(qb, qa);
    // runs the events of one or more kinds in order
    auto act = [&](std::set<int> kinds) {
      size_t pos[4] = {0, 0, 0, 0};
      for (auto& e : *evs) {
        if (!kinds.count(e.kind)) continue;
        auto& io = e.kind == 0 || e.kind == 2 ? ioA : ioB;
        std::vector<uint8_t> b(e.n + 2, 0xAA);
        int dir = e.kind < 2 ? e.kind : 3 - e.kind;
        size_t& at = pos[e.kind];
        if (e.kind < 2) {
          for (size_t i = 0; i < e.n; i++) b[1 + i] = byteAt(seed, dir, at + i);
          io.send_data(b.data() + 1, e.n);
        } else {
          io.recv_data(b.data() + 1, e.n);
          for (size_t i = 0; i < e.n; i++)
            DSIM_CHECK(b[1 + i] == byteAt(seed, dir, at + i), "wrong-bytes", "byte %zu of stream %d differs from what was sent", at + i, dir);
          DSIM_CHECK(b[0] == 0xAA && b[e.n + 1] == 0xAA, "overrun", "a receive of %zu bytes writes outside its buffer", e.n);
          dsim::probe("bytes_verified", e.n);
        }
        at += e.n;
      }
    };
    std::vector<std::thread> ts;
    if (mode == 0) {
      ts.emplace_back(act, std::set<int>{0, 2});
      ts.emplace_back(act, std::set<int>{1, 3});
    } else
      for (int i = 0; i < 4; i++) ts.emplace_back(act, std::set<int>{i});
    for (auto& t : ts) t.join();
    DSIM_CHECK(qa->rlock()->empty() && qb->rlock()->empty(), "left-over", "bytes are left in the queues");
  });
  mustFinish({3000000, 0});
}

// ---- C24
namespace xx {
namespace ci = fbpcf::cloudio;
struct Made {
  std::map<std::string, int> begun, made;
  int failures = 0;
};
struct Factory : ci::S3ClientFactory {
  std::shared_ptr<Made> m;
  unsigned failRate;
  std::shared_ptr<Aws::S3::S3Client> createS3Client(const fbpcf::aws::S3ClientOption& o) override {
    std::string r = o.region.value_or("");
    m->begun[r]++;
    dsim::yieldPoint("create");
    if (dsim::fault("client_create")) {
      m->failures++;
      throw std::runtime_error("no client");
    }
    auto c = S3ClientFactory::createS3Client(o);
    m->made[r]++;
    return c;
  }
};
struct Call {
  int what; // 0 getInstance, 1 sdk, 2 read an object by path
  int region;
  uint64_t ns;
};
static const char* regions[] = {"us-west-2", "us-east-1", "eu-central-1", "ap-south-1", ""};
} // namespace xx
DSIM_HARNESS(clients) {
  dsim::drawSchedPolicy();
  int nt = 1 + dsim::wl("threads", 5);
  std::vector<std::vector<Call>> plan(nt);
  static const uint64_t ds[] = {0, 0, 1000, 300000, 2000000};
  int nr = 1 + dsim::wl("regions", 5);
  for (auto& t : plan)
    for (size_t i = 0, n = 1 + dsim::wl("calls", 5); i < n; i++) t.push_back({(int)dsim::wlz("what", 3, 5000), (int)dsim::wl("region", nr), ds[dsim::wl("delay", 5)]});
  bool byCfg = dsim::wl("options", 2);
  auto made = std::make_shared<Made>();
  auto f = std::make_shared<Factory>();
  f->m = made;
  if (dsim::param("fault", 1) && dsim::wl("failing", 3) == 2) dsim::setFaultRate("client_create", 2500);
  dsim::setFaultBudget(3);
  // configuration: options win over the environment, which wins over the defaults
  Prf p{dsim::dataRand()};
  fbpcf::aws::S3ClientOption opt;
  cloudsim::Store::ClientRec want{};
  want.scheme = "HTTP";
  auto str = [&](const char* env, std::optional<std::string>& o, std::string& w, std::vector<std::string> pool) {
    int k = byCfg ? p.below(4) : 0; // bit 0: environment, bit 1: option
    unsetenv(env);
    if (k & 1) {
      w = pool[p.below(pool.size())];
      setenv(env, w.c_str(), 1);
    }
    if (k & 2) {
      w = pool[p.below(pool.size())];
      o = w;
    }
  };
  std::optional<std::string> port;
  std::string portS;
  str("AWS_PROXY_HOST", opt.proxyHost, want.proxyHost, {"proxy", "127.0.0.1", "gateway.example"});
  str("AWS_PROXY_PORT", port, portS, {"1", "8080", "65535"});
  str("AWS_PROXY_SCHEME", opt.proxyScheme, want.scheme, {"HTTPS", "HTTP"});
  str("AWS_PROXY_CERT_PATH", opt.proxySSLCertPath, want.cert, {"/etc/cert", "c.pem"});
  if (port) opt.proxyPort = std::stoi(*port);
  want.proxyPort = portS.empty() ? 0 : std::stoi(portS);
  std::string envRegion;
  std::optional<std::string> none;
  str("AWS_DEFAULT_REGION", none, envRegion, {"sa-east-1"});
  if (none && !getenv("AWS_DEFAULT_REGION")) envRegion = "";
  if (!getenv("AWS_DEFAULT_REGION")) envRegion = "";
  if (byCfg && p.below(2)) {
    opt.accessKeyId = want.keyId = "key";
    if (p.below(3)) opt.secretKey = want.secret = "secret";
    if (!opt.secretKey) want.keyId = "";
  }
  cloudsim::reset();
  for (int r = 0; r < 4; r++) cloudsim::store().objects[strf("bucket%d/obj", r)] = strf("content %d", r);
  auto seen = std::make_shared<std::map<std::string, ci::S3Client*>>();
  auto sdk = std::make_shared<std::set<void*>>();
  dsim::note(strf("%d threads, %d regions, options %d", nt, nr, byCfg));
  addParties(1, [=](int) {
    ci::S3Client::setS3ClientFactory(f);
    auto first = [&](const std::string& r, ci::S3Client* c) {
      auto e = seen->emplace(r, c);
      DSIM_CHECK(e.first->second == c, "two-clients", "two clients for the region '%s'", r.c_str());
      for (auto& o : *seen) DSIM_CHECK(o.first == r || o.second != c, "shared-client", "one client for the regions '%s' and '%s'", r.c_str(), o.first.c_str());
      DSIM_CHECK(made->made[r] == 1, "made-again", "%d clients were made for the region '%s'", made->made[r], r.c_str());
      auto a = c->getS3Client();
      DSIM_CHECK(!!a, "no-client", "no client for the region '%s'", r.c_str());
      auto& cfg = a->dsimConfig();
      std::string wr = r.empty() ? envRegion : r;
      DSIM_CHECK(cfg.region == wr, "wrong-region", "the client for the region '%s' is set up for '%s'", wr.c_str(), cfg.region.c_str());
      dsim::probe("clients_verified");
      return a;
    };
    std::vector<std::thread> ts;
    for (auto& calls : plan)
      ts.emplace_back([&] {
        std::shared_ptr<fbpcf::AwsSdk> hold;
        for (auto& c : calls) {
          if (c.ns) dsim::sleepNs(c.ns);
          std::string r = regions[c.region];
          try {
            if (c.what == 1) {
              hold = fbpcf::AwsSdk::aquire();
              sdk->insert(hold.get());
              DSIM_CHECK(hold && cloudsim::store().initApi == 1 && cloudsim::store().initCalls == 1 && sdk->size() == 1, "sdk",
                         "after acquiring the library: set up %d times, begun %d times", cloudsim::store().initApi, cloudsim::store().initCalls);
              dsim::probe("library_acquired");
            } else if (c.what == 0 || r.empty()) {
              auto o = opt;
              if (!r.empty()) o.region = r;
              first(r, ci::S3Client::getInstance(o).get());
            } else {
              std::string path = strf("https://bucket%d.s3.%s.amazonaws.com/obj", c.region, r.c_str());
              auto rd = ci::getCloudFileReader(path);
              auto s = rd->readBytes(path, 0, 9);
              DSIM_CHECK(s == strf("content %d", c.region), "wrong-object", "reading %s gives '%s'", path.c_str(), s.c_str());
              first(r, ci::S3Client::getInstance(fbpcf::aws::S3ClientOption{.region = r}).get());
              dsim::probe("objects_read");
            }
          } catch (const std::runtime_error& e) {
            // a failed creation is reported to the one who asked; later calls try again
            DSIM_CHECK(made->failures > 0 && c.what != 1, "unexpected-error", "%s", e.what());
            dsim::probe("failures_reported");
          }
        }
      });
    for (auto& t : ts) t.join();
    // options and environment, as seen by the service library
    size_t n = cloudsim::store().clients.size();
    for (int full = 0; full < 2; full++) {
      auto o = opt;
      if (full) o.region = "me-south-1";
      auto c = fbpcf::aws::createS3Client(o);
      auto& k = cloudsim::store().clients.back();
      DSIM_CHECK(cloudsim::store().clients.size() == n + 1 + full, "client-count", "one call made %zu clients", cloudsim::store().clients.size() - n);
      DSIM_CHECK(k.region == (full ? "me-south-1" : envRegion) && k.proxyHost == want.proxyHost && k.proxyPort == want.proxyPort && k.scheme == want.scheme &&
                     k.cert == want.cert && k.keyId == want.keyId && k.secret == want.secret,
                 "wrong-configuration", "client set up with region '%s' proxy %s://%s:%u cert '%s' key '%s/%s', expected proxy %s://%s:%u cert '%s' key '%s/%s'",
                 k.region.c_str(), k.scheme.c_str(), k.proxyHost.c_str(), k.proxyPort, k.cert.c_str(), k.keyId.c_str(), k.secret.c_str(), want.scheme.c_str(),
                 want.proxyHost.c_str(), want.proxyPort, want.cert.c_str(), want.keyId.c_str(), want.secret.c_str());
      dsim::probe("configurations_verified");
    }
  });
  mustFinish({3000000, 0});
}
