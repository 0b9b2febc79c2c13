// C26: rows laid out by their owner, carried to the joint computation (directly or by encryption and matching) and
// taken apart there by all parties, come out column by column as they went in.
#include <set>
#include "game.h"
#include "fbpcf/frontend/MPCTypes.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/FixedSizeArrayColumn.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/IRowStructureDefinition.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/IntegerColumn.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h"
// the header asks unordered_map for C++20's contains; its WireIds do not compile as C++20
#define contains count
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"
#undef contains
using namespace hx;
namespace rx {
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
namespace se = fbpcf::mpc_std_lib::unified_data_process::serialization;
using T = fr::MPCTypes<0, true>;
using SecString = fr::BitString<true, 0, true>;
using Col = se::IColumnDefinition<0>;
using Type = Col::SupportedColumnTypes;
using Row = std::vector<unsigned char>;
using Input = std::unordered_map<std::string, Col::InputColumnDataType>;

template <class V>
struct IsVector : std::false_type {};
template <class V>
struct IsVector<std::vector<V>> : std::true_type {};
struct Column {
  std::string name;
  Type type = Type::Bit;
  std::vector<std::vector<uint64_t>> v; // row -> elements
};
static bool isVec(Type t) { return t >= Type::UInt32Vec; }
static bool isSigned(Type t) { return t == Type::Int32 || t == Type::Int64 || t == Type::Int32Vec || t == Type::Int64Vec; }
static int bytesOf(Type t) {
  return t == Type::UInt32 || t == Type::Int32 || t == Type::UInt32Vec || t == Type::Int32Vec ? 4 : 8;
}
struct Plan {
  std::vector<Column> cols;
  size_t rows = 1, pad = 1, width = 0;
  int owner = 0, reader = 0;
  bool viaMatching = false;
  std::vector<uint64_t> picks;
  uint64_t data = 0;
  std::map<std::string, Type> types() const {
    std::map<std::string, Type> m;
    for (auto& c : cols) m[c.name] = c.type;
    return m;
  }
};
// the same data as typed vectors, alive as long as the references handed out
struct Typed {
  std::map<std::string, std::vector<bool>> b;
  std::map<std::string, std::vector<uint32_t>> u32;
  std::map<std::string, std::vector<uint64_t>> u64;
  std::map<std::string, std::vector<int32_t>> i32;
  std::map<std::string, std::vector<int64_t>> i64;
  std::map<std::string, std::vector<std::vector<uint32_t>>> vu32;
  std::map<std::string, std::vector<std::vector<uint64_t>>> vu64;
  std::map<std::string, std::vector<std::vector<int32_t>>> vi32;
  std::map<std::string, std::vector<std::vector<int64_t>>> vi64;
  Input in;
  template <class M>
  void flat(M& m, const Column& c) {
    auto& d = m[c.name];
    for (auto& r : c.v) d.push_back(r[0]);
    in.emplace(c.name, std::ref(d));
  }
  template <class M>
  void deep(M& m, const Column& c) {
    auto& d = m[c.name];
    for (auto& r : c.v) d.emplace_back(r.begin(), r.end());
    in.emplace(c.name, std::ref(d));
  }
  void add(const Column& c) {
    switch (c.type) {
      case Type::Bit: return flat(b, c);
      case Type::UInt32: return flat(u32, c);
      case Type::UInt64: return flat(u64, c);
      case Type::Int32: return flat(i32, c);
      case Type::Int64: return flat(i64, c);
      case Type::UInt32Vec: return deep(vu32, c);
      case Type::UInt64Vec: return deep(vu64, c);
      case Type::Int32Vec: return deep(vi32, c);
      default: return deep(vi64, c);
    }
  }
};

static std::string drawName(std::set<std::string>& used) {
  static const char* pre[] = {"", "packedBits", "a", "Z", "col ", "x.y/", "\xc3\xa4"};
  while (true) {
    std::string s = pre[dsim::dataRand() % 7] + std::to_string(dsim::dataRand() % (used.size() < 30 ? 40 : 4000));
    if (used.insert(s).second) return s;
  }
}
static uint64_t drawValue(Type t, int style) {
  if (t == Type::Bit) return dsim::dataRand() & 1;
  uint64_t w = dsim::dataRand();
  static const uint64_t edges[] = {0, 1, ~0ull, 1ull << 31, 1ull << 63, (1ull << 31) - 1, (1ull << 63) - 1, 0xff, 0x80, 0x8000, 0xff00ff00ff00ff00ull, 1ull << 32};
  if (style == 1) w = edges[w % 12];
  else if (style == 2) w %= 300;
  if (bytesOf(t) == 4) return isSigned(t) ? (uint64_t)(int64_t)(int32_t)w : (uint32_t)w;
  return w;
}
static void drawPlan(Plan& p, int n, size_t maxRows) {
  std::set<std::string> used;
  size_t nb = dsim::wlp("many_bits", 3000) ? 7 + dsim::wl("bits_many", 13) : dsim::wl("bits", 5), nc = dsim::wl("columns", 6) + !nb;
  p.pad = dsim::wlp("no_padding", 600) ? 0 : 1 + dsim::wl("padding", 4);
  p.rows = 1 + dsim::wl("rows", maxRows);
  bool wide = maxRows >= 12 && dsim::wlp("wide", 500);
  if (wide) { // rows of hundreds of bytes, or hundreds of packed bits
    if (dsim::wl("wide_bits", 2)) nb = 60 + dsim::wl("wide_bits_by", 220);
    else p.pad = 5 + dsim::wl("wide_by", 90), nc = std::min<size_t>(nc, 3);
    p.rows = 1 + dsim::wl("wide_rows", 3);
    dsim::probe("wide_rows");
  }
  if (size_t x = maxRows < 12 || wide ? 0 : drawLarge(300, 512)) p.rows = x;
  p.owner = dsim::wl("owner", n);
  p.reader = dsim::wl("reader", n);
  p.data = dsim::dataRand();
  int style = dsim::wl("values", 3);
  static const Type kinds[] = {Type::UInt32, Type::UInt64, Type::Int32, Type::Int64, Type::UInt32Vec, Type::UInt64Vec, Type::Int32Vec, Type::Int64Vec};
  std::vector<Type> ts(nb, Type::Bit);
  for (size_t k = 0; k < nc; k++) ts.push_back(kinds[dsim::wl("column_kind", 8)]);
  for (auto t : ts) {
    Column c;
    c.name = drawName(used);
    c.type = t;
    for (size_t r = 0; r < p.rows; r++) {
      std::vector<uint64_t> e(isVec(t) ? p.pad : 1);
      for (auto& x : e) x = drawValue(t, style);
      c.v.push_back(e);
    }
    p.cols.push_back(c);
    if (t != Type::Bit) p.width += bytesOf(t) * (isVec(t) ? p.pad : 1);
  }
  p.width += (nb + 7) / 8;
  if (!p.width) { // only empty arrays: nothing to carry
    p.cols[0].type = Type::Bit;
    for (auto& r : p.cols[0].v) r = {dsim::dataRand() & 1};
    p.width = 1;
  }
  p.viaMatching = n == 2 && dsim::wlp("via_matching", 3500);
  std::vector<uint64_t> id(p.rows);
  for (size_t k = 0; k < p.rows; k++) id[k] = k;
  size_t np = p.viaMatching ? 1 + dsim::wl("picks", p.rows) : p.rows;
  for (size_t k = 0; k < np; k++) {
    if (p.viaMatching) std::swap(id[k], id[k + dsim::dataRand() % (p.rows - k)]);
    p.picks.push_back(id[k]);
  }
}
template <class F>
static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
// data that does not fit the layout is refused, and refusing changes nothing
static void refuse(const char* what, const se::RowStructureDefinition<0>& def, const Plan& p) {
  Prf g{p.data};
  Plan q = p;
  int rows = p.rows;
  std::string how;
  switch (g.below(5)) {
    case 0:
      q.cols.erase(q.cols.begin() + g.below(q.cols.size()));
      how = "a missing column";
      break;
    case 1: {
      auto& c = q.cols[g.below(q.cols.size())];
      c.name += " other";
      how = "a column of another name";
      break;
    }
    case 2: {
      auto& c = q.cols[g.below(q.cols.size())];
      if (g.below(2)) c.v.push_back(c.v[0]);
      else c.v.pop_back();
      how = "a column with another number of rows";
      break;
    }
    case 3: {
      auto& c = q.cols[g.below(q.cols.size())];
      if (!isVec(c.type)) return;
      auto& r = c.v[g.below(c.v.size())];
      if (r.empty() || g.below(2)) r.push_back(1);
      else r.pop_back();
      how = "an array of another length";
      break;
    }
    default: {
      auto& c = q.cols[g.below(q.cols.size())];
      c.type = c.type == Type::UInt32 ? Type::Int32 : Type::UInt32;
      for (auto& r : c.v)
        if (r.empty()) r.push_back(0);
      how = "a column of another type";
    }
  }
  Typed t;
  for (auto& c : q.cols) t.add(c);
  DSIM_CHECK(throws([&] { def.serializeDataAsBytesForUDP(t.in, rows); }), "accepted", "%s: data with %s were serialised without complaint", what, how.c_str());
  dsim::probe("refused");
}

static void play(const char* what, int me, IPartyCommunicationAgentFactory& af, const Plan& p) {
  se::RowStructureDefinition<0> def(p.types(), p.pad);
  DSIM_CHECK(def.getRowSizeBytes() == p.width, "wrong-size", "%s: %zu bytes per row, the columns need %zu", what, def.getRowSizeBytes(), p.width);
  refuse(what, def, p);
  std::vector<Row> bytes;
  if (me == p.owner) {
    Typed t;
    for (auto& c : p.cols) t.add(c);
    bytes = def.serializeDataAsBytesForUDP(t.in, p.rows);
    DSIM_CHECK(bytes.size() == p.rows, "wrong-shape", "%s: %zu rows serialised, expected %zu", what, bytes.size(), p.rows);
    for (auto& b : bytes) DSIM_CHECK(b.size() == p.width, "wrong-shape", "%s: a row of %zu bytes, expected %zu", what, b.size(), p.width);
  } else
    bytes.assign(p.rows, Row(p.width));
  size_t n = p.picks.size();
  std::unique_ptr<SecString> s;
  if (p.viaMatching) {
    auto proc = dp::getDataProcessorFactoryWithAesCtr<0>(me, 1 - me, af)->create();
    s = std::make_unique<SecString>(me == p.owner ? proc->processMyData(bytes, n) : proc->processPeersData(p.rows, p.picks, p.width));
    dsim::probe("rows_through_matching", n);
  } else {
    std::vector<std::vector<bool>> bits(8 * p.width, std::vector<bool>(n));
    for (size_t k = 0; k < n; k++)
      for (size_t i = 0; i < 8 * p.width; i++) bits[i][k] = bytes[k][i / 8] >> (i % 8) & 1;
    s = std::make_unique<SecString>(bits, p.owner);
  }
  auto out = def.deserializeUDPOutputIntoMPCTypes(*s);
  DSIM_CHECK(out.size() == p.cols.size(), "wrong-shape", "%s: %zu columns came out, expected %zu", what, out.size(), p.cols.size());
  auto check = [&](const Column& c, size_t at, const auto& got) {
    if (me != p.reader) return;
    DSIM_CHECK(got.size() == n, "wrong-shape", "%s: column '%s' has %zu rows, expected %zu", what, c.name.c_str(), got.size(), n);
    for (size_t k = 0; k < n; k++)
      DSIM_CHECK((uint64_t)got[k] == c.v[p.picks[k]][at], "wrong-value", "%s: row %zu of column '%s' (type %d, element %zu) is %llx, it went in as %llx", what, k,
                 c.name.c_str(), (int)c.type, at, (unsigned long long)got[k], (unsigned long long)c.v[p.picks[k]][at]);
    dsim::probe(c.type == Type::Bit ? "bits_verified" : isVec(c.type) ? "array_elements_verified" : "integers_verified", n);
  };
  for (auto& c : p.cols) {
    auto it = out.find(c.name);
    DSIM_CHECK(it != out.end(), "wrong-shape", "%s: column '%s' is missing from the result", what, c.name.c_str());
    DSIM_CHECK(it->second.index() == (c.type == Type::Bit ? 0u : isVec(c.type) ? (unsigned)c.type : (unsigned)c.type - 1), "wrong-shape", "%s: column '%s' came out as alternative %zu", what, c.name.c_str(),
               it->second.index());
    std::visit(
        [&](auto& v) {
          using V = std::decay_t<decltype(v)>;
          if constexpr (!IsVector<V>::value)
            check(c, 0, v.openToParty(p.reader).getValue());
          else if constexpr (!std::is_same_v<V, std::vector<T::SecBool>>) {
            DSIM_CHECK(v.size() == p.pad, "wrong-shape", "%s: array column '%s' has %zu elements, expected %zu", what, c.name.c_str(), v.size(), p.pad);
            for (size_t i = 0; i < v.size(); i++) check(c, i, v[i].openToParty(p.reader).getValue());
          }
        },
        it->second);
  }
}
} // namespace rx
using namespace rx;

DSIM_HARNESS(rows) {
  GameCfg g = drawGame(4);
  if (g.eng.tuples) {
    g.eng.n = 2;
    g.eng.buffer = (size_t)1024 << dsim::wl("buffer2", 5);
  }
  Net net = drawNet();
  int ns = 1 + dsim::wlz("layouts", 3, 4000);
  std::vector<Plan> ps(ns);
  std::string list;
  for (auto& p : ps) {
    drawPlan(p, g.eng.n, g.eng.tuples ? 4 : 12);
    if (p.viaMatching && g.eng.tuples && p.width > 40) {
      p.viaMatching = false;
      p.picks.clear();
      for (size_t k = 0; k < p.rows; k++) p.picks.push_back(k);
    }
    list += strf(" [%zu columns, %zu bytes, %zu rows%s]", p.cols.size(), p.width, p.rows, p.viaMatching ? strf(", %zu matched", p.picks.size()).c_str() : "");
  }
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  std::string what = g.desc();
  dsim::note(what + ", " + name(net) + " transport," + list);
  playGame(g, net, [&](int me, IPartyCommunicationAgentFactory& af) {
    for (auto& p : ps) play(what.c_str(), me, af, p);
  });
  dsim::RunOptions ro;
  ro.maxSteps = 50'000'000;
  mustFinish(ro);
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
}
