// C25: the example applications compute what they state: billionaires, strings of characters, edit distance.
#include "game.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "example/billionaire_problem/BillionaireProblemGame.h"
#include "example/edit_distance/EditDistanceApp.h"
#include "example/edit_distance/EditDistanceResults.h"
#include "example/edit_distance/Validator.h"
using namespace hx;
namespace ed = fbpcf::edit_distance;
namespace bp = fbpcf::billionaire_problem;
using FW = fbpcf::io::FileIOWrappers;

namespace ex {
// like playGame, but the game object is the application's
template <class G>
void playApp(const GameCfg& g, Net net, std::function<void(int, std::unique_ptr<sch::IScheduler>)> f) {
  dsim::partyGlobal(keeperSlot(), sizeof(SchedPtr));
  auto cl = std::make_shared<Cluster>(g.eng.n, net);
  cl->timeoutSec = 60;
  addParties(g.eng.n, [g, f, cl](int me) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
    std::unique_ptr<IPartyCommunicationAgentFactory> af = cl->factory(me, mc);
    f(me, makeScheduler(g, me, *af, mc));
  });
}

static uint32_t asset(Prf& g, int style) {
  switch (style) {
    case 0: return g.below(4);
    case 1: return (uint32_t)g.next();
    case 2: return g.below(2) ? 0 : 0x7fffffff + (uint32_t)g.below(3);
    case 3: return 0xffffffffu - (uint32_t)g.below(3);
    default: return (uint32_t)g.below(1000000000);
  }
}
template <bool batch>
void billionaires(const GameCfg& g, Net net) {
  using Game = bp::BillionaireProblemGame<0, batch>;
  size_t rounds = 1 + dsim::wl("rounds", 3);
  struct Round {
    size_t n;
    int style;
    bool close;
    uint64_t data;
  };
  auto rs = std::make_shared<std::vector<Round>>();
  for (size_t i = 0; i < rounds; i++)
    rs->push_back({batch ? std::max(drawLarge(g.eng.tuples ? 0 : 300, 2048), 1 + (size_t)dsim::wl("rows", 12)) : 1, (int)dsim::wl("style", 5), (bool)dsim::wl("close", 2), dsim::dataRand()});
  playApp<Game>(g, net, [rs](int me, std::unique_ptr<sch::IScheduler> s) {
    Game game(std::move(s));
    for (auto& r : *rs) {
      Prf p{r.data}, junk{r.data + me + 1};
      std::vector<uint32_t> v[2][3];
      std::vector<bool> want(r.n);
      for (size_t i = 0; i < r.n; i++) {
        uint32_t x[2][3];
        for (auto& y : x)
          for (auto& z : y) z = asset(p, r.style);
        if (r.close) x[1][2] = x[0][0] + x[0][1] + x[0][2] - x[1][0] - x[1][1] + (uint32_t)p.below(3) - 1;
        uint32_t a = x[0][0] + x[0][1] + x[0][2], b = x[1][0] + x[1][1] + x[1][2];
        want[i] = a < b;
        // each party knows its own; what it passes for the other is of no importance
        for (int w = 0; w < 2; w++)
          for (int k = 0; k < 3; k++) v[w][k].push_back(w == me ? x[w][k] : (uint32_t)junk.next());
      }
      typename Game::AssetsLists al[2];
      for (int w = 0; w < 2; w++) {
        if constexpr (batch)
          al[w] = {v[w][0], v[w][1], v[w][2]};
        else
          al[w] = {v[w][0][0], v[w][1][0], v[w][2][0]};
      }
      auto got = game.billionaireProblem(al[0], al[1]);
      if (me == 0) {
        if constexpr (batch)
          DSIM_CHECK(got == want, "wrong-answer", "billionaires, %zu rows: some comparison is wrong", r.n);
        else
          DSIM_CHECK(got == want[0], "wrong-answer", "billionaires: %d, expected %d", (int)got, (int)want[0]);
        dsim::probe("comparisons_verified", r.n);
      }
    }
  });
}

// ---- strings
static std::string word(Prf& g, size_t max, int style) {
  size_t n = style == 0 ? g.below(max + 1) : style == 1 ? max : style == 2 ? g.below(2) : style == 3 ? g.below(std::min<size_t>(max, 4) + 1) : max - g.below(2);
  static const char pool[] = "abcxyzABCXYZ`{@[09~ !_-";
  std::string s;
  for (size_t i = 0; i < n; i++) s += style == 4 ? (char)(1 + g.below(127)) : pool[g.below(sizeof pool - 1)];
  return s;
}
static std::string upper(std::string s) {
  for (auto& c : s)
    if (c >= 'a' && c <= 'z') c -= 32;
  return s;
}
template <int W, bool batch>
struct Str {
  using Sec = ed::AsciiString<W, true, 0, batch>;
  using Pub = ed::AsciiString<W, false, 0, batch>;
  using SBit = fr::Bit<true, 0, batch>;
  using PBit = fr::Bit<false, 0, batch>;
  using Plain = std::vector<std::string>;
  static auto arg(const Plain& p) {
    if constexpr (batch)
      return p;
    else
      return p[0];
  }
  static auto bits(const std::vector<bool>& b) {
    if constexpr (batch)
      return b;
    else
      return (bool)b[0];
  }
  static Plain value(const Pub& s) {
    if constexpr (batch)
      return s.getValue();
    else
      return {s.getValue()};
  }
  static std::vector<size_t> sizes(const Pub& s) {
    if constexpr (batch)
      return s.size();
    else
      return {s.size()};
  }
  static std::string quote(const Plain& p) {
    std::string o;
    for (auto& s : p) o += "'" + s.substr(0, 20) + "' ";
    return o;
  }
  struct Item {
    std::shared_ptr<Sec> s;
    std::shared_ptr<Pub> p;
    Plain v;
    bool derived = false; // public, made from public strings: its stated length is looked at once the run is over
  };
  static inline bool lengthUnset = false;
  struct Step {
    int op, a, b, party, how;
    uint64_t data;
  };
  static void run(const GameCfg& g, Net net) {
    size_t rows = batch ? std::max<size_t>(g.eng.tuples ? 0 : drawLarge(200, 256), 1 + dsim::wl("rows", 6)) : 1;
    size_t steps = 2 + dsim::wl("steps", dsim::param("ops", 8));
    auto st = std::make_shared<std::vector<Step>>();
    for (size_t i = 0; i < steps; i++)
      st->push_back({i == 0 ? 0 : (int)dsim::wl("op", 8), (int)dsim::wl("a", 100), (int)dsim::wl("b", 100), (int)dsim::wl("party", g.eng.n),
                     (int)dsim::wl("how", 5), dsim::dataRand()});
    auto shares = std::make_shared<std::map<std::string, std::vector<std::vector<std::string>>>>();
    int n = g.eng.n;
    playGame(g, net, [st, rows, n, shares](int me, IPartyCommunicationAgentFactory&) {
      std::vector<Item> items;
      auto reveal = [&](const Item& it, int to, const char* what) {
        if (it.p) {
          check(*it.p, it.v, what, !it.derived);
          return;
        }
        Pub o = it.s->openToParty(to);
        if (to == me) check(o, it.v, what, true);
      };
      size_t no = 0;
      for (auto& s : *st) {
        no++;
        Prf p{s.data}, junk{s.data ^ (me + 1)};
        Item r;
        Item* A = items.empty() ? nullptr : &items[s.a % items.size()];
        Item* B = items.empty() ? nullptr : &items[s.b % items.size()];
        switch (s.op) {
          case 0:
          case 1: {
            for (size_t i = 0; i < rows; i++) r.v.push_back(word(p, W, s.how));
            Plain mine = r.v;
            if (s.op == 1) {
              r.p = std::make_shared<Pub>(arg(r.v));
              break;
            }
            if (me != s.party)
              for (auto& x : mine) x = word(junk, W, junk.below(4));
            r.s = std::make_shared<Sec>(arg(mine), s.party);
            break;
          }
          case 2: { // too long for the width
            Plain bad(rows, "ok");
            bad[p.below(rows)] = std::string(W + 1 + p.below(3), 'x');
            bool threw = false;
            try {
              if (s.how & 1)
                Pub x(arg(bad));
              else
                Sec x(arg(bad), s.party);
            } catch (const std::runtime_error&) {
              threw = true;
            }
            DSIM_CHECK(threw, "overlong-accepted", "a string longer than its width is accepted");
            dsim::probe("overlong_refused");
            continue;
          }
          case 3: {
            for (auto& x : A->v) r.v.push_back(upper(x));
            if (A->s)
              r.s = std::make_shared<Sec>(A->s->toUpperCase());
            else
              r.p = std::make_shared<Pub>(A->p->toUpperCase()), r.derived = true;
            break;
          }
          case 4: { // length of a secret string
            if (!A->s) continue;
            auto len = A->s->template privateSize<8>();
            auto o = len.openToParty(s.party);
            std::vector<uint64_t> got;
            if constexpr (batch)
              got = o.getValue();
            else
              got = {o.getValue()};
            if (me == s.party) {
              for (size_t i = 0; i < rows; i++)
                DSIM_CHECK(got[i] == A->v[i].size(), "wrong-length", "the length of '%s' is given as %llu", A->v[i].c_str(), (unsigned long long)got[i]);
              dsim::probe("lengths_verified");
            }
            continue;
          }
          case 5: { // choose
            std::vector<bool> c(rows);
            for (size_t i = 0; i < rows; i++) {
              c[i] = p.next() & 1;
              r.v.push_back(c[i] ? B->v[i] : A->v[i]);
            }
            std::vector<bool> mine = c;
            if (me != s.party)
              for (size_t i = 0; i < rows; i++) mine[i] = junk.next() & 1;
            auto pick = [&](auto& x, auto& y) {
              if (s.how & 1) {
                auto z = x.mux(SBit(bits(mine), s.party), y);
                put(r, std::move(z));
              } else {
                auto z = x.mux(PBit(bits(c)), y);
                put(r, std::move(z));
              }
            };
            if (A->s && B->s)
              pick(*A->s, *B->s);
            else if (A->s)
              pick(*A->s, *B->p);
            else if (B->s)
              pick(*A->p, *B->s);
            else
              pick(*A->p, *B->p);
            break;
          }
          case 6: { // shares: joined they give the string; taken back they give it too
            if (!A->s) continue;
            auto e = A->s->extractAsciiStringShare();
            DSIM_CHECK(e.width() == W, "wrong-width", "width");
            Plain mine;
            if constexpr (batch)
              mine = e.getValue();
            else
              mine = {e.getValue()};
            auto& all = (*shares)[strf("%zu", no)];
            all.push_back(mine);
            if ((int)all.size() == n) {
              for (size_t i = 0; i < rows; i++) {
                std::string x(W, 0);
                for (auto& sh : all)
                  for (size_t k = 0; k < W; k++) x[k] ^= sh[i].at(k);
                std::string w = A->v[i];
                w.resize(W);
                DSIM_CHECK(x == w, "wrong-shares", "the shares of '%s' do not join to it", A->v[i].c_str());
              }
              dsim::probe("shares_joined");
            }
            r.v = A->v;
            r.s = std::make_shared<Sec>(std::move(e));
            break;
          }
          default:
            reveal(*A, s.party, "as revealed");
            if constexpr (batch)
              if (A->s) DSIM_CHECK(A->s->getBatchSize() == rows, "wrong-batch-size", "batch size");
            continue;
        }
        if (!r.s && !r.p) continue;
        items.push_back(r);
      }
      for (size_t i = 0; i < items.size(); i++) reveal(items[i], i % n, "at the end");
    });
  }
  template <class X>
  static void put(Item& r, X&& x) {
    if constexpr (std::is_same_v<std::decay_t<X>, Sec>)
      r.s = std::make_shared<Sec>(std::move(x));
    else
      r.p = std::make_shared<Pub>(std::move(x)), r.derived = true;
  }
  static void check(const Pub& o, const Plain& want, const char* what, bool sized) {
    auto v = value(o);
    DSIM_CHECK(v == want, "wrong-string", "a string %s reads %s, expected %s", what, quote(v).c_str(), quote(want).c_str());
    if (!sized) {
      // read only where the answer does not depend on uninitialised memory
      if (batch && sizes(o).size() != want.size()) lengthUnset = true;
      dsim::probe("strings_verified");
      return;
    }
    auto z = sizes(o);
    for (size_t i = 0; i < want.size(); i++)
      DSIM_CHECK(i < z.size() && z[i] == want[i].size(), "wrong-length", "a string %s of length %zu states length %lld", what, want[i].size(),
                 i < z.size() ? (long long)z[i] : -1ll);
    dsim::probe("strings_verified");
  }
};

// ---- edit distance
struct Case {
  std::vector<std::string> words, guesses, messages;
  int threshold, del, ins;
  std::vector<int64_t> dist;
  std::vector<std::string> out;
  void solve() {
    for (size_t r = 0; r < words.size(); r++) {
      auto &a = words[r], &b = guesses[r];
      std::vector<std::vector<int64_t>> d(a.size() + 1, std::vector<int64_t>(b.size() + 1));
      for (size_t i = 0; i <= a.size(); i++)
        for (size_t j = 0; j <= b.size(); j++) {
          if (!i && !j) continue;
          int64_t best = INT64_MAX;
          if (i) best = std::min(best, d[i - 1][j] + ins);
          if (j) best = std::min(best, d[i][j - 1] + del);
          if (i && j) best = std::min<int64_t>(best, d[i - 1][j - 1] + std::abs((int)a[i - 1] - (int)b[j - 1]));
          d[i][j] = best;
        }
      dist.push_back(d[a.size()][b.size()]);
    }
  }
  void choose() {
    for (size_t r = 0; r < words.size(); r++)
      out.push_back(dist[r] < threshold ? messages[r] : dist[r] <= 2ll * threshold ? messages[r].substr(0, messages[r].size() / 2) : "");
  }
};
static std::string plainWord(Prf& g, size_t max, int style) {
  static const char pool[] = "abcdeXYZ019-_.!~*#";
  size_t n = style == 0 ? max : style == 1 ? g.below(4) : g.below(max + 1);
  std::string s;
  for (size_t i = 0; i < n; i++) s += pool[g.below(style == 1 ? 3 : sizeof pool - 1)];
  return s;
}
} // namespace ex

DSIM_HARNESS(billionaire) {
  auto g = drawGame(3);
  auto net = drawNet();
  dsim::drawSchedPolicy();
  bool batch = dsim::wl("batch", 2);
  dsim::note(strf("%s, %s, %s", g.desc().c_str(), name(net), batch ? "batch" : "single"));
  batch ? ex::billionaires<true>(g, net) : ex::billionaires<false>(g, net);
  mustFinish({60000000, 0});
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
}
DSIM_HARNESS(ascii) {
  auto g = drawGame(3);
  auto net = drawNet();
  dsim::drawSchedPolicy();
  int k = dsim::wl("kind", 4);
  dsim::note(strf("%s, %s, %s", g.desc().c_str(), name(net), k & 1 ? "batch" : "single"));
  switch (k) {
    case 0: ex::Str<5, false>::run(g, net); break;
    case 1: ex::Str<5, true>::run(g, net); break;
    case 2: ex::Str<15, false>::run(g, net); break;
    default: ex::Str<15, true>::run(g, net); break;
  }
  mustFinish({60000000, 0});
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
  DSIM_CHECK(!(k & 1 ? (k == 1 ? ex::Str<5, true>::lengthUnset : ex::Str<15, true>::lengthUnset) : false), "unset-length",
             "a public string made by toUpperCase or mux from public strings states no length");
}
DSIM_HARNESS(editdist) {
  using namespace ex;
  auto g = drawGame(2);
  g.eng.n = 2;
  auto net = drawNet();
  dsim::drawSchedPolicy();
  auto c = std::make_shared<Case>();
  Prf p{dsim::dataRand()};
  size_t rows = 1 + dsim::wl("rows", 3);
  int style = dsim::wl("style", 4);
  for (size_t i = 0; i < rows; i++) {
    c->words.push_back(plainWord(p, ed::maxStringLength, style));
    c->guesses.push_back(p.below(4) ? plainWord(p, ed::maxStringLength, p.below(4) ? style : 2) : c->words.back());
    c->messages.push_back(plainWord(p, ed::maxStringLength, p.below(2) ? 0 : 2));
  }
  static const int costs[] = {0, 1, 2, 7, 20, 100, 1000};
  c->ins = costs[p.below(7)];
  c->del = costs[p.below(7)];
  c->solve();
  int64_t d = c->dist[p.below(rows)];
  switch (dsim::wl("threshold", 6)) {
    case 0: c->threshold = d; break;
    case 1: c->threshold = d + 1; break;
    case 2: c->threshold = (d + 1) / 2; break;
    case 3: c->threshold = d > 0 ? (d - 1) / 2 : 0; break;
    case 4: c->threshold = p.below(40); break;
    default: c->threshold = p.below(5);
  }
  c->choose();
  // 0 none, 1 rows differ, 2..4 a parameter differs
  int differ = dsim::wlz("differ", 5, 8500);
  dsim::note(strf("%s, %s, %zu rows, costs %d/%d, threshold %d, difference %d", g.desc().c_str(), name(net), rows, c->ins, c->del, c->threshold, differ));
  std::string dir = dsim::scratchDir();
  auto path = [dir](const char* what, int me) { return strf("%s/%s%d", dir.c_str(), what, me); };
  bool nl = dsim::wl("final_newline", 2);
  for (int me = 0; me < 2; me++) {
    std::string data = me ? "id,guess\n" : dsim::wl("columns", 2) ? "word,sender_message\n" : "sender_message,id,word\n";
    bool first = data[0] == 'w';
    for (size_t i = 0; i < rows; i++)
      data += me ? strf("%zu,%s\n", i, c->guesses[i].c_str()) : first ? c->words[i] + "," + c->messages[i] + "\n" : c->messages[i] + ",x," + c->words[i] + "\n";
    if (differ == 1 && me) data += "99,zz\n";
    if (!nl && data.size() && data[data.size() - 2] != ',') data.pop_back();
    int x = me ? differ : 0;
    std::string par = strf("threshold,delete_cost,insert_cost\n%d,%d,%d\n", c->threshold + (x == 2), c->del + (x == 3), c->ins + (x == 4));
    auto put = [&](const std::string& f, const std::string& s) {
      FILE* o = fopen(f.c_str(), "w");
      fwrite(s.data(), 1, s.size(), o);
      fclose(o);
    };
    put(path("data", me), data);
    put(path("params", me), par);
    if (!me) {
      std::string e = "distance,receiver_message\n", w = e, few = e;
      for (size_t i = 0; i < rows; i++) {
        e += strf("%lld,%s\n", (long long)c->dist[i], c->out[i].c_str());
        w += strf("%lld,%s\n", (long long)c->dist[i] + (i + 1 == rows), c->out[i].c_str());
        if (i) few += strf("%lld,%s\n", (long long)c->dist[i], c->out[i].c_str());
      }
      put(path("expect", 0), e);
      put(path("expect", 1), w);
      put(path("expect", 2), few);
    }
  }
  auto errors = std::make_shared<int>(0);
  playApp<ed::EditDistanceGame<0>>(g, net, [=](int me, std::unique_ptr<sch::IScheduler> s) {
    ed::EditDistanceGame<0> game(me, std::move(s));
    try {
      auto out = game.play(ed::EditDistanceInputReader(path("data", me), path("params", me)));
      FW::writeFile(path("out", me), out);
    } catch (const std::runtime_error& e) {
      if (!differ) throw;
      ++*errors;
      return;
    }
    DSIM_CHECK(!differ, "difference-ignored", "party %d went on although the parties' inputs disagree (%d)", me, differ);
  });
  mustFinish({200000000, 0});
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
  if (differ) {
    DSIM_CHECK(*errors == 2, "difference-ignored", "%d parties report the disagreement", *errors);
    dsim::probe("disagreements_reported");
    return;
  }
  std::vector<folly::dynamic> shares;
  std::vector<std::string> outs;
  for (int me = 0; me < 2; me++) {
    outs.push_back(path("out", me));
    shares.push_back(folly::parseJson(FW::readFile(outs.back())));
  }
  ed::EditDistanceResults r(shares);
  for (size_t i = 0; i < rows; i++) {
    DSIM_CHECK(r.editDistances.at(i) == c->dist[i], "wrong-distance", "'%s' to '%s' with costs %d/%d: %lld, expected %lld", c->words[i].c_str(),
               c->guesses[i].c_str(), c->ins, c->del, (long long)r.editDistances[i], (long long)c->dist[i]);
    DSIM_CHECK(r.receiverMessages.at(i) == c->out[i], "wrong-message", "distance %lld, threshold %d, message '%s': '%s' handed over, expected '%s'",
               (long long)c->dist[i], c->threshold, c->messages[i].c_str(), r.receiverMessages[i].c_str(), c->out[i].c_str());
  }
  DSIM_CHECK(r.editDistances.size() == rows, "wrong-distance", "rows");
  dsim::probe("distances_verified", rows);
  static const int codes[] = {ed::Validator::SUCCESS, ed::Validator::RESULT_MISMATCH, ed::Validator::SIZE_MISMATCH};
  for (int k = 0; k < 3; k++) {
    int got = ed::Validator(outs, path("expect", k)).validate();
    DSIM_CHECK(got == codes[k], "validator", "the validator answers %d to a comparison of kind %d", got, k);
  }
}
