#include "oram.h"
#include <set>
#include <sstream>
#include "fbpcf/mpc_std_lib/oram/encoder/OramDecoder.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"
namespace ox {
std::vector<std::pair<const char*, OramMaker>>& oramTypes() {
  static std::vector<std::pair<const char*, OramMaker>> z;
  return z;
}
} // namespace ox
using namespace ox;
OX_TYPE(u, "32-bit integers", uint32_t)
OX_TYPE(agg, "count and value", su::AggregationValue)

// buckets taken from rows of columns: encoded in several steps, decoded elsewhere from the exported mapping
static void encode(Session& s, std::string&) {
  using E = so::SingleValueFilter;
  auto filters = std::make_unique<std::vector<std::unique_ptr<so::IFilter>>>();
  size_t cols = 1 + dsim::wl("columns", 3);
  struct F {
    int type;
    size_t col;
    std::vector<uint32_t> v;
    bool pass(const std::vector<uint32_t>& t) const {
      uint32_t x = t[col], y = v[0];
      bool in = std::find(v.begin(), v.end(), x) != v.end();
      switch (type) {
        case E::GT: return x > y;
        case E::LT: return x < y;
        case E::GTE: return x >= y;
        case E::LTE: return x <= y;
        case E::EQ: return x == y;
        case E::NEQ: return x != y;
        case E::SUBSET_OF: return in;
        default: return !in;
      }
    }
  };
  std::vector<F> fs(dsim::wlz("filters", 3, 4000));
  for (auto& f : fs) {
    f.type = dsim::wl("filter", 8);
    f.col = dsim::wl("filter_col", cols);
    for (int i = 0; i < (f.type >= E::SUBSET_OF ? 2 : 1); i++) f.v.push_back(dsim::wl("filter_value", 4));
    if (f.type >= E::SUBSET_OF)
      filters->push_back(std::make_unique<so::VectorValueFilter>((E::FilterType)f.type, f.col, f.v));
    else
      filters->push_back(std::make_unique<E>((E::FilterType)f.type, f.col, f.v[0]));
  }
  so::OramEncoder enc(std::move(filters));
  std::map<std::vector<uint32_t>, uint32_t> known;
  int filtered = -1;
  std::set<uint32_t> used;
  std::vector<std::pair<uint32_t, std::vector<uint32_t>>> all;
  for (auto& b : s.batches) {
    std::vector<std::vector<uint32_t>> rows;
    for (size_t k = 0; k < b.index.size(); k++) {
      std::vector<uint32_t> t;
      for (size_t c = 0; c < cols; c++) {
        auto d = dsim::dataRand();
        t.push_back(d % 16 == 0 ? 0xFFFFFFFFu : d % 16 == 1 ? 11 : d % 16 == 2 ? 1 : (d >> 8) % 4);
      }
      rows.push_back(t);
    }
    b.index = enc.generateORAMIndexes(rows);
    DSIM_CHECK(b.index.size() == rows.size(), "encoder", "%zu buckets for %zu rows", b.index.size(), rows.size());
    for (size_t k = 0; k < rows.size(); k++) {
      bool pass = true;
      for (auto& f : fs) pass &= f.pass(rows[k]);
      uint32_t ix = b.index[k];
      if (!pass) {
        DSIM_CHECK(filtered < 0 ? !used.count(ix) : (uint32_t)filtered == ix, "encoder", "a row that was filtered out went to bucket %u", ix);
        filtered = ix;
      } else {
        auto it = known.find(rows[k]);
        DSIM_CHECK(it == known.end() ? !used.count(ix) : it->second == ix, "encoder", "row %zu went to bucket %u", k, ix);
        known[rows[k]] = ix;
      }
      used.insert(ix);
      all.push_back({ix, pass ? rows[k] : std::vector<uint32_t>()});
    }
  }
  s.size = enc.getOramSize();
  DSIM_CHECK(s.size == used.size() && *used.rbegin() + 1 == s.size, "encoder", "%u buckets are needed according to the encoder, %zu are used", s.size, used.size());
  auto text = enc.exportMappingConfig()->serializeAsString();
  so::OramDecoder dec(so::OramMappingConfig::fromSerializedString(text));
  std::vector<uint32_t> ixs;
  for (auto& a : all) ixs.push_back(a.first);
  auto back = dec.decodeORAMIndexes(ixs);
  for (size_t k = 0; k < all.size(); k++)
    DSIM_CHECK(back[k] == all[k].second, "encoder", "bucket %u decodes to another row than was put there", all[k].first);
  dsim::probe("rows_encoded", all.size());
  for (auto& b : s.batches) {
    uint32_t need = 1;
    while ((1u << need) < s.size) need++;
    b.width = need + (b.width & 1);
  }
  if (s.impl == 1 && s.size > 33) s.impl = 0;
}

DSIM_HARNESS(oram) {
  GameCfg g = drawGame(2);
  g.eng.n = 2;
  Net net = drawNet();
  auto& all = oramTypes();
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return strcmp(a.first, b.first) < 0; });
  int ns = 1 + dsim::wlz("sessions", 2, 7000);
  std::vector<Session> ss;
  std::string list;
  for (int i = 0; i < ns; i++) {
    Session s;
    s.type = dsim::wl("type", all.size());
    s.impl = dsim::wl("impl", 3);
    static const int sizes[] = {2, 1, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33};
    s.size = sizes[dsim::wl("size", g.eng.tuples ? 11 : 15)];
    if (!g.eng.tuples && s.impl != 1) // the narrow tree is declared for few buckets
      if (size_t x = drawLarge(300, 300)) s.size = x;
    s.party0 = dsim::wl("party0", 2);
    uint32_t need = 0;
    while ((1u << need) < s.size) need++;
    if (!need) need = 1;
    int nb = 1 + dsim::wl("batches", 4);
    size_t total = 0;
    for (int b = 0; b < nb; b++) {
      Batch B;
      static const int bs[] = {1, 2, 3, 8, 9, 20};
      B.width = need + dsim::wlz("wider", 3, 7000);
      size_t n = bs[dsim::wl("batch", 6)];
      if (size_t x = g.eng.tuples || s.size > 20 ? 0 : drawLarge(300, 1024)) n = x;
      bool same = dsim::wlp("same_bucket", 3000);
      for (size_t k = 0; k < n; k++) B.index.push_back(k && same ? B.index[0] : dsim::dataRand() % s.size);
      B.data = dsim::dataRand();
      B.readAfter = dsim::wlz("read", 4, 6000);
      total += n;
      s.batches.push_back(B);
    }
    if (dsim::wlp("encoded", 2500)) encode(s, list);
    list += strf(" [%s of %s: %u buckets, %zu values in %d batches]", s.impl == 2 ? "linear" : s.impl ? "narrow tree" : "tree",
                 all[s.type].first, s.size, total, nb);
    ss.push_back(s);
  }
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  std::string what = g.desc();
  dsim::note(what + ", " + name(net) + " transport," + list);
  auto shares = std::make_shared<std::map<std::string, std::pair<std::string, std::string>>>();
  playGame(g, net, [&](int me, IPartyCommunicationAgentFactory& af) {
    OEnv e;
    e.me = me;
    e.what = what.c_str();
    e.af = &af;
    e.shares = shares;
    for (size_t i = 0; i < ss.size(); i++) all[ss[i].type].second()->run(e, ss[i], i);
  });
  dsim::RunOptions ro;
  ro.maxSteps = 20'000'000;
  mustFinish(ro);
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
}
