// C16: rows encrypted by their owner, matched, and decrypted jointly; the cipher inside the joint computation.
#include <openssl/evp.h>
#include <set>
#include "game.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpDecryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
using namespace hx;
namespace ux {
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
namespace ad = fbpcf::mpc_std_lib::unified_data_process::adapter;
namespace ac = fbpcf::mpc_std_lib::aes_circuit;
using SecBit = fr::Bit<true, 0, true>;
using SecString = fr::BitString<true, 0, true>;
using Row = std::vector<unsigned char>;

// one direction of matching: the owner's rows, in chunks, and what the other side asks for
struct Transfer {
  int owner = 0;
  size_t width = 1;
  std::vector<std::vector<uint64_t>> chunks;
  std::map<uint64_t, Row> rows;
  std::vector<uint64_t> picks;
  size_t shards = 1;
  bool viaFile = false;
  int reader = 0;
  size_t total() const {
    size_t n = 0;
    for (auto& c : chunks) n += c.size();
    return n;
  }
};
struct Session {
  int kind = 0; // 0 chunks through the encryption and decryption objects, 1 data processor, 2 adapter, 3 cipher
  std::vector<Transfer> t;
  std::vector<int> order; // which transfer sends its next chunk
  std::vector<int32_t> map[2]; // adapter
  bool flip = false;
  size_t blocks = 1, rows = 1; // cipher
  uint64_t data = 0;
  bool ctr = false, dec = false;
};

static void drawTransfer(Transfer& t, bool consecutive, size_t maxRows) {
  static const size_t widths[] = {1, 4, 15, 16, 20, 17, 31, 32, 33, 8, 2};
  t.width = widths[dsim::wl("width", 11)];
  if (maxRows >= 10 && dsim::wlp("wide", 400)) t.width = 250 + dsim::wl("wide_by", 60);
  t.reader = dsim::wl("reader", 2);
  size_t n = 1 + dsim::wl("rows", maxRows);
  if (size_t x = maxRows < 10 ? 0 : drawLarge(200, 512)) n = x;
  size_t nc = consecutive ? 1 : 1 + dsim::wl("chunks", 3);
  std::vector<uint64_t> ids;
  std::set<uint64_t> seen;
  int style = consecutive ? 0 : 1 + dsim::wl("identifiers", 4);
  uint64_t base = style == 3 ? ~0ull - n : style == 4 ? dsim::dataRand() : 0;
  while (ids.size() < n) {
    uint64_t k = ids.size(), id;
    if (style == 1) id = dsim::dataRand() % (4 * n);
    else if (style == 2) id = (dsim::dataRand() % 3) | (dsim::dataRand() % 4) << 32 | (dsim::dataRand() % 2) << 63;
    else if (style == 4 && dsim::dataRand() % 2) id = dsim::dataRand();
    else id = base + k;
    if (style == 2 && seen.size() >= 20) id += dsim::dataRand();
    if (seen.insert(id).second) ids.push_back(id);
  }
  for (auto id : ids) {
    Row r(t.width);
    for (auto& b : r) b = dsim::dataRand();
    t.rows[id] = r;
  }
  t.chunks.resize(nc);
  for (size_t k = 0; k < n; k++) t.chunks[consecutive ? 0 : dsim::dataRand() % nc].push_back(ids[k]);
  t.chunks.erase(std::remove_if(t.chunks.begin(), t.chunks.end(), [](auto& c) { return c.empty(); }), t.chunks.end());
  size_t np = 1 + dsim::wl("picks", n);
  auto p = ids;
  for (size_t k = 0; k < np; k++) {
    std::swap(p[k], p[k + dsim::dataRand() % (n - k)]);
    t.picks.push_back(p[k]);
  }
  t.shards = consecutive ? 1 : 1 + dsim::wlz("shards", std::min<size_t>(np, 3), 6000);
  t.viaFile = !consecutive && dsim::wlp("via_file", 4000);
}

struct Env {
  int me;
  const char* what;
  IPartyCommunicationAgentFactory* af;
  std::unique_ptr<dp::UdpEncryption> enc;
  std::unique_ptr<dp::IDataProcessor<0>> proc;
  std::map<std::string, std::vector<int32_t>>* adapted;
  int fileNo = 0;
};

static void compare(Env& e, SecString out, const Transfer& t, size_t from, size_t n, const char* how) {
  DSIM_CHECK(out.getBatchSize() == n && out.size() == 8 * t.width, "wrong-shape", "%s, %s: %zu rows of %zu bits, expected %zu of %zu", e.what, how,
             out.getBatchSize(), out.size(), n, 8 * t.width);
  auto bits = out.openToParty(t.reader).getValue();
  if (t.reader != e.me) return;
  for (size_t k = 0; k < n; k++) {
    Row got(t.width);
    for (size_t i = 0; i < t.width; i++)
      for (int j = 0; j < 8; j++) got[i] |= bits[8 * i + j][k] << j;
    auto id = t.picks[from + k];
    DSIM_CHECK(got == t.rows.at(id), "wrong-row", "%s, %s: matched row %zu of %zu (identifier %llx) came out different (%zu bytes per row)", e.what, how,
               from + k, t.picks.size(), (unsigned long long)id, t.width);
    dsim::probe("rows_verified");
  }
}

static void runChunks(Env& e, const Session& s) {
  if (!e.enc) e.enc = std::make_unique<dp::UdpEncryption>(e.af->create(1 - e.me, "udp"));
  for (auto& t : s.t)
    if (t.owner == e.me) e.enc->prepareToProcessMyData(t.width);
    else e.enc->prepareToProcessPeerData(t.width, t.picks);
  std::vector<size_t> at(s.t.size());
  for (int d : s.order) {
    auto& t = s.t[d];
    auto& ch = t.chunks[at[d]++];
    if (t.owner == e.me) {
      std::vector<Row> rows;
      for (auto id : ch) rows.push_back(t.rows.at(id));
      e.enc->processMyData(rows, ch);
    } else
      e.enc->processPeerData(ch.size());
  }
  dp::UdpDecryption<0> dec(e.me, 1 - e.me);
  for (auto& t : s.t) {
    auto file = dsim::scratchDir() + strf("/udp%d_%d", e.me, e.fileNo++);
    size_t at = 0;
    if (t.owner == e.me) {
      auto key = e.enc->getExpandedKey();
      if (t.viaFile) {
        dp::writeExpandedKeyToFile(key, file);
        key = dp::readExpandedKeyFromFile(file);
      }
      for (size_t h = 0; h < t.shards; h++) {
        size_t n = dp::getShardSize(t.picks.size(), h, t.shards);
        compare(e, dec.decryptMyData(key, t.width, n), t, at, n, "own rows");
        at += n;
      }
    } else {
      auto res = e.enc->getProcessedData();
      if (t.viaFile) {
        dp::writeEncryptionResultsToFile(res, file);
        res = dp::readEncryptionResultsFromFile(file);
        dsim::probe("handed_over_by_file");
      }
      for (auto& part : dp::splitEncryptionResults(res, t.shards)) {
        size_t n = part.indexes.size();
        for (size_t k = 0; k < n; k++)
          DSIM_CHECK(part.indexes[k] == t.picks[at + k], "wrong-row", "%s: place %zu was filled with identifier %llx instead of %llx", e.what, at + k,
                     (unsigned long long)part.indexes[k], (unsigned long long)t.picks[at + k]);
        compare(e, dec.decryptPeerData(part.ciphertexts, part.nonces, part.indexes), t, at, n, "peer's rows");
        at += n;
      }
      DSIM_CHECK(at == t.picks.size(), "wrong-shape", "%s: %zu rows in all shards, expected %zu", e.what, at, t.picks.size());
    }
  }
}

static void runProcessor(Env& e, const Session& s) {
  if (!e.proc) e.proc = dp::getDataProcessorFactoryWithAesCtr<0>(e.me, 1 - e.me, *e.af)->create();
  for (auto& t : s.t) {
    if (t.owner == e.me) {
      std::vector<Row> rows;
      for (auto& r : t.rows) rows.push_back(r.second); // identifiers are 0..n-1
      compare(e, e.proc->processMyData(rows, t.picks.size()), t, 0, t.picks.size(), "processor, own rows");
    } else
      compare(e, e.proc->processPeersData(t.rows.size(), t.picks, t.width), t, 0, t.picks.size(), "processor, peer's rows");
  }
}

static void runAdapter(Env& e, const Session& s, size_t no) {
  bool first = (e.me == 0) != s.flip;
  auto adapter = ad::getAdapterFactoryWithAsWaksmanBasedShuffler<0>(first, e.me, 1 - e.me)->create();
  auto got = adapter->adapt(s.map[e.me]);
  // what this party gets is where the other's rows are; joined by whoever comes second
  auto& mine = (*e.adapted)[strf("%zu/%d", no, e.me)] = got;
  auto other = e.adapted->find(strf("%zu/%d", no, 1 - e.me));
  std::map<int32_t, int32_t> want; // index at 0 -> index at 1
  for (size_t k = 0; k < s.map[0].size(); k++)
    if (s.map[0][k] >= 0 && s.map[1][k] >= 0) want[s.map[0][k]] = s.map[1][k];
  DSIM_CHECK(got.size() == want.size(), "wrong-match", "%s: %zu matched of a union of %zu, expected %zu", e.what, got.size(), s.map[0].size(), want.size());
  if (other != e.adapted->end()) {
    auto& at0 = e.me ? other->second : mine; // indexes of the rows of party 1
    auto& at1 = e.me ? mine : other->second;
    for (size_t k = 0; k < at0.size(); k++) {
      auto it = want.find(at1[k]);
      DSIM_CHECK(it != want.end() && it->second == at0[k], "wrong-match", "%s: place %zu pairs row %d of party 0 with row %d of party 1, which the matching does not",
                 e.what, k, at1[k], at0[k]);
      want.erase(it);
    }
    dsim::probe("matchings_verified");
  }
}

static Row ecb(const Row& key, const Row& in) {
  auto* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, key.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  Row out(in.size() + 16);
  int n = 0;
  EVP_EncryptUpdate(c, out.data(), &n, in.data(), in.size());
  EVP_CIPHER_CTX_free(c);
  out.resize(in.size());
  return out;
}
// rows encrypted alone can be decrypted by anybody who has the key, the nonce and the place of the row
static void localRows(Env& e, uint64_t data) {
  Prf g{data};
  size_t n = 1 + g.below(4), width = 1 + g.below(40), blocks = (width + 15) / 16;
  uint64_t off = g.below(2) ? g.below(1000) : 0;
  std::vector<Row> rows(n, Row(width));
  for (auto& r : rows)
    for (auto& b : r) b = g.next();
  Row key(16);
  for (auto& b : key) b = g.next();
  auto [c, nonce] = dp::UdpUtil::localEncryption(rows, _mm_loadu_si128((const __m128i*)key.data()), off);
  DSIM_CHECK(c.size() == n && nonce.size() == 16, "wrong-shape", "%zu rows encrypted, %zu came out", n, c.size());
  for (size_t k = 0; k < n; k++) {
    Row ctr;
    for (size_t j = 0; j < blocks; j++) {
      uint64_t lo;
      memcpy(&lo, nonce.data(), 8);
      lo += (off + k) * blocks + j;
      Row b = nonce;
      memcpy(b.data(), &lo, 8);
      ctr.insert(ctr.end(), b.begin(), b.end());
    }
    auto m = ecb(key, ctr);
    for (size_t i = 0; i < width; i++)
      DSIM_CHECK((c[k][i] ^ m[i]) == rows[k][i], "wrong-row", "%s: row %zu of %zu encrypted locally from place %llu on does not decrypt to itself", e.what, k, n,
                 (unsigned long long)off);
  }
  dsim::probe("local_rows_verified", n);
}
static std::vector<SecBit> share(const std::vector<Row>& rows, int owner) {
  std::vector<SecBit> r;
  for (size_t i = 0; i < 8 * rows[0].size(); i++) {
    std::vector<bool> v;
    for (auto& x : rows) v.push_back(x[i / 8] >> (7 - i % 8) & 1);
    r.emplace_back(v, owner);
  }
  return r;
}
static void runCipher(Env& e, const Session& s) {
  Prf g{s.data};
  std::vector<Row> key, in, ctr, want, kx;
  for (size_t k = 0; k < s.rows; k++) {
    Row a(16), b(16 * s.blocks), c(16 * s.blocks);
    for (auto* v : {&a, &b, &c})
      for (auto& x : *v) x = g.next();
    __m128i m = _mm_loadu_si128((const __m128i*)a.data());
    // counter mode only encrypts; the block circuit decrypts with the other schedule
    auto ex = s.dec && !s.ctr ? fbpcf::engine::util::Aes::expandDecryptionKey(m) : fbpcf::engine::util::Aes::expandEncryptionKey(m);
    Row x(176);
    memcpy(x.data(), ex.data(), 176);
    kx.push_back(x);
    key.push_back(a);
    ctr.push_back(c);
    Row o;
    if (s.ctr) {
      o = ecb(a, c);
      for (size_t i = 0; i < o.size(); i++) o[i] ^= b[i];
    } else
      o = ecb(a, b);
    if (s.dec) std::swap(o, b);
    in.push_back(b);
    want.push_back(o);
  }
  localRows(e, s.data ^ e.me);
  int owner = s.flip, reader = s.data >> 7 & 1;
  auto kb = share(kx, owner), ib = share(in, 1 - owner);
  std::vector<SecBit> ob;
  if (s.ctr) {
    auto cb = share(ctr, 1 - owner);
    auto c = ac::AesCircuitCtrFactory<SecBit>().create();
    ob = s.dec ? c->decrypt(ib, kb, cb) : c->encrypt(ib, kb, cb);
  } else {
    auto c = ac::AesCircuitFactory<SecBit>().create();
    ob = s.dec ? c->decrypt(ib, kb) : c->encrypt(ib, kb);
  }
  DSIM_CHECK(ob.size() == 128 * s.blocks, "wrong-shape", "%s: %zu bits of cipher output", e.what, ob.size());
  for (size_t i = 0; i < ob.size(); i++) {
    auto v = ob[i].openToParty(reader).getValue();
    if (reader == e.me)
      for (size_t k = 0; k < s.rows; k++)
        DSIM_CHECK(v[k] == (want[k][i / 8] >> (7 - i % 8) & 1), "wrong-cipher", "%s: bit %zu of row %zu of joint %s%s differs from the standard cipher", e.what, i, k,
                   s.dec ? "decryption" : "encryption", s.ctr ? " (counter mode)" : "");
  }
  dsim::probe("cipher_blocks_verified", s.rows * s.blocks);
}
} // namespace ux
using namespace ux;

DSIM_HARNESS(udp) {
  GameCfg g = drawGame(2);
  g.eng.n = 2;
  if (g.eng.tuples) g.eng.buffer = (size_t)1024 << dsim::wl("buffer2", 5);
  Net net = drawNet();
  int want = dsim::param("kind", -1);
  int ns = 1 + dsim::wlz("sessions", 3, 5000);
  size_t maxRows = g.eng.tuples ? 4 : 10;
  std::vector<Session> ss;
  std::string list;
  for (int i = 0; i < ns; i++) {
    Session s;
    int d = dsim::wl("kind", 10);
    s.kind = want >= 0 ? want : d < 4 ? 0 : d < 6 ? 1 : d < 8 ? 2 : 3;
    s.flip = dsim::wl("flip", 2);
    s.data = dsim::dataRand();
    if (s.kind == 0) {
      s.t.resize(1 + dsim::wlz("both", 2, 6000));
      for (size_t k = 0; k < s.t.size(); k++) {
        s.t[k].owner = k ^ s.flip;
        drawTransfer(s.t[k], false, maxRows);
        for (size_t c = 0; c < s.t[k].chunks.size(); c++) s.order.push_back(k);
        list += strf(" [%zu of %zu rows of %zu bytes in %zu chunks, %zu shards%s]", s.t[k].picks.size(), s.t[k].total(), s.t[k].width, s.t[k].chunks.size(),
                     s.t[k].shards, s.t[k].viaFile ? ", by file" : "");
      }
      for (size_t k = s.order.size(); k > 1; k--) std::swap(s.order[k - 1], s.order[dsim::dataRand() % k]);
    } else if (s.kind == 1) {
      s.t.resize(1);
      s.t[0].owner = s.flip;
      drawTransfer(s.t[0], true, maxRows);
      list += strf(" [processor: %zu of %zu rows of %zu bytes]", s.t[0].picks.size(), s.t[0].total(), s.t[0].width);
    } else if (s.kind == 2) {
      static const int sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33};
      size_t n = sizes[dsim::wl("union", 12)];
      if (size_t x = g.eng.tuples ? 0 : drawLarge(500, 300)) n = x;
      int bias = dsim::wl("bias", 4);
      std::vector<int> both(n);
      for (auto& b : both) b = bias == 1 ? 2 : bias == 2 ? dsim::dataRand() % 2 : dsim::dataRand() % 3;
      if (!dsim::wlp("empty_match", 1000)) both[dsim::dataRand() % n] = 2;
      for (int p = 0; p < 2; p++) {
        size_t cnt = 0;
        for (auto b : both) cnt += b != 1 - p;
        std::vector<int32_t> ix(cnt);
        for (size_t k = 0; k < cnt; k++) ix[k] = k;
        for (size_t k = cnt; k > 1; k--) std::swap(ix[k - 1], ix[dsim::dataRand() % k]);
        size_t at = 0;
        for (auto b : both) s.map[p].push_back(b != 1 - p ? ix[at++] : -1);
      }
      list += strf(" [matching over a union of %zu]", n);
    } else {
      s.blocks = 1 + dsim::wlz("blocks", 2, 7000);
      s.rows = 1 + dsim::wl("cipher_rows", maxRows / 2);
      if (size_t x = g.eng.tuples ? 0 : drawLarge(200, 300)) s.rows = x;
      s.ctr = dsim::wl("ctr", 2);
      s.dec = dsim::wl("dec", 2);
      list += strf(" [cipher: %zu rows of %zu blocks%s%s]", s.rows, s.blocks, s.ctr ? ", counter mode" : "", s.dec ? ", decryption" : "");
    }
    ss.push_back(s);
  }
  dsim::drawSchedPolicy();
  dsim::drawNetConfig();
  std::string what = g.desc();
  dsim::note(what + ", " + name(net) + " transport," + list);
  auto adapted = std::make_shared<std::map<std::string, std::vector<int32_t>>>();
  playGame(g, net, [&](int me, IPartyCommunicationAgentFactory& af) {
    Env e;
    e.me = me;
    e.what = what.c_str();
    e.af = &af;
    e.adapted = adapted.get();
    for (size_t i = 0; i < ss.size(); i++) {
      auto& s = ss[i];
      if (s.kind == 0) runChunks(e, s);
      else if (s.kind == 1) runProcessor(e, s);
      else if (s.kind == 2) runAdapter(e, s, i);
      else runCipher(e, s);
    }
  });
  dsim::RunOptions ro;
  ro.maxSteps = 50'000'000;
  mustFinish(ro);
  dsim::probe(g.lazy ? "deferred_runs" : "immediate_runs");
}
