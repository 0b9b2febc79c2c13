// File and object-store operations (C18..C21): the real readers, writers, uploaders and file managers over real
// files with injected failures and over a simulated object store.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <optional>
#include <set>
#include "common.h"
#include "cloudsim.h"
#include "fbpcf/aws/AwsSdk.h"
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/api/LocalFileWriter.h"
// CloudFileUtil.h has no include guard: keep its second copy apart
#define CloudFileType CloudFileTypeAgain
#define getCloudFileType getCloudFileTypeAgain
#include "fbpcf/io/api/CloudFileWriter.h"
#undef CloudFileType
#undef getCloudFileType

using namespace hx;
using dsim::note;
namespace fio = fbpcf::io;

namespace {
std::string show(const std::string& s) {
  std::string o = strf("%zu bytes", s.size());
  return o;
}
// where two contents part
std::string differ(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  return strf("got %zu bytes, expected %zu, first difference at %zu", got.size(), want.size(), i);
}

std::string drawContent(size_t chunk) {
  Prf p{dsim::dataRand()};
  static const size_t fixed[] = {0, 1, 2, 5, 100, 1000, 4095, 4096, 4097, 8192, 9000, 20000};
  size_t n;
  switch (dsim::wl("size_kind", 4)) {
    case 0: n = dsim::wl("size_small", 40); break;
    case 1: n = fixed[dsim::wl("size_fixed", 12)]; break;
    case 2: n = chunk * dsim::wl("size_chunks", 6) + dsim::wl("size_extra", 3); break;
    default: n = dsim::wl("size_any", 12000); break;
  }
  if (n > 60000) n = 60000;
  std::string s(n, 0);
  switch (dsim::wl("content", 5)) {
    case 0: // text lines
      for (auto& c : s) c = p.below(12) ? 'a' + p.below(26) : '\n';
      break;
    case 1: // any bytes
      for (auto& c : s) c = (char)p.next();
      break;
    case 2: // many short and empty lines
      for (auto& c : s) c = p.below(2) ? '\n' : 'x';
      break;
    case 3: // one long line, or one line end at the end
      for (auto& c : s) c = 'a' + p.below(26);
      if (n && dsim::wl("last_newline", 2)) s[n - 1] = '\n';
      break;
    default: // comma separated
      for (auto& c : s) {
        auto k = p.below(20);
        c = k == 0 ? '\n' : k < 4 ? ',' : k < 5 ? ' ' : '0' + p.below(10);
      }
  }
  return s;
}

enum Kind { Local, S3, Gcs, Own };
struct Target {
  Kind kind = Local;
  std::string path, key; // key: bucket/name in the object store
};
int gNames = 0;
// A user's own storage behind the reader and writer interfaces: transfers of any size, and failures in each of the
// ways the interfaces allow (a count of -1, an exception, a short count from a writer, -1 from close).
std::map<std::string, std::string> gOwn;
struct OwnReader : fio::IReaderCloser {
  const std::string data;
  size_t pos = 0;
  int style;
  OwnReader(const std::string& path, int style) : data(gOwn[path]), style(style) { filepath_ = path; }
  size_t read(std::vector<char>& buf) override {
    if (dsim::fault("base_read_fail")) {
      if (dsim::faultValue("base_read_fail", 2)) throw std::runtime_error("own storage: reading failed");
      return static_cast<size_t>(-1);
    }
    size_t n = std::min(buf.size(), data.size() - pos);
    if (n > 1 && dsim::fault("base_short_read")) n = 1 + dsim::faultValue("base_short_read", n - 1);
    std::copy(data.begin() + pos, data.begin() + pos + n, buf.begin());
    if (style == 1) std::fill(buf.begin() + n, buf.end(), '~');
    pos += n;
    return n;
  }
  bool eof() override { return pos == data.size(); }
  int close() override { return 0; }
};
struct OwnWriter : fio::IWriterCloser {
  std::string path;
  bool closed = false;
  OwnWriter(const std::string& p) : path(p) {
    filepath_ = p;
    gOwn[p].clear();
  }
  size_t write(std::vector<char>& buf) override {
    DSIM_CHECK(!closed, "write-after-close", "the underlying writer is written to after it was closed");
    size_t n = buf.size();
    bool bad = n && dsim::fault("base_write_fail");
    if (bad) n = dsim::faultValue("base_write_fail", n);
    gOwn[path].append(buf.begin(), buf.begin() + n);
    if (bad && n % 3 == 1) throw std::runtime_error("own storage: writing failed");
    return bad && n % 3 == 2 ? static_cast<size_t>(-1) : n;
  }
  int close() override {
    if (closed) return 0;
    closed = true;
    return dsim::fault("base_close_fail") ? -1 : 0;
  }
};
// a cloud reader with the default buffer holds 2^30 bytes: at most one per run, and seldom
bool gBigUsed = false;
bool mayUseBig() {
  if (gBigUsed || !dsim::wlp("default_cloud_buffer", 60)) return false;
  return gBigUsed = true;
}
// a place for a file; https forms only unless short forms are accepted by the caller
Target place(int kinds, bool shortForms = false) {
  Target t;
  int k = kinds == 1 ? 0 : dsim::wl("place", 3);
  t.kind = (Kind)k;
  int id = gNames++;
  std::string name = strf("f%d.csv", id);
  if (dsim::wl("nested", 2)) name = strf("d%d/e/", id) + name;
  static const char* buckets[] = {"bk", "my-bucket", "my.bucket"};
  std::string b = buckets[dsim::wlz("bucket", 3, 6000)];
  if (t.kind == Local) {
    t.path = dsim::scratchDir() + "/t/" + name;
  } else if (t.kind == S3) {
    int f = dsim::wl("s3_form", shortForms ? 3 : 2);
    t.path = f == 0 ? "https://" + b + ".s3.us-west-2.amazonaws.com/" + name
        : f == 1    ? "https://" + b + ".s3-eu-central-1.amazonaws.com/" + name
                    : "s3://" + b + "/" + name;
    t.key = b + "/" + name;
  } else {
    int f = dsim::wl("gcs_form", shortForms ? 4 : 3);
    t.path = f == 0 ? "https://storage.cloud.google.com/" + b + "/" + name
        : f == 1    ? "https://" + b + ".storage.googleapis.com/" + name
        : f == 2    ? "https://storage.googleapis.com/" + b + "/" + name
                    : "gs://" + b + "/" + name;
    t.key = b + "/" + name;
  }
  return t;
}
// direct access, past the code under test and past injected failures
void put(const Target& t, const std::string& c) {
  if (t.kind == Own) {
    gOwn[t.path] = c;
    return;
  }
  if (t.kind != Local) {
    cloudsim::store().objects[t.key] = c;
    return;
  }
  std::filesystem::create_directories(std::filesystem::path(t.path).parent_path());
  int fd = ::open(t.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0 || ::write(fd, c.data(), c.size()) != (ssize_t)c.size()) dsim::fail("harness", "cannot prepare a file");
  ::close(fd);
}
std::optional<std::string> peek(const Target& t) {
  if (t.kind == Own) return gOwn.count(t.path) ? std::optional<std::string>(gOwn[t.path]) : std::nullopt;
  if (t.kind != Local) {
    auto& o = cloudsim::store().objects;
    auto it = o.find(t.key);
    if (it == o.end()) return {};
    return it->second;
  }
  int fd = ::open(t.path.c_str(), O_RDONLY);
  if (fd < 0) return {};
  std::string s;
  char b[8192];
  for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;) s.append(b, n);
  ::close(fd);
  return s;
}

// Which failures this run may meet
void drawFaults(bool files, bool cloud, unsigned none = 3) {
  dsim::setFaultRate("base_short_read", dsim::wl("short_base", 2) * 5000);
  if (!dsim::param("fault", 1) || dsim::wl("faulty", none + 2) == 0) {
    if (files) dsim::setFaultRate("file_short_read", dsim::wl("short_reads", 2) * 3000);
    if (files) dsim::setFaultRate("file_short_write", dsim::wl("short_writes", 2) * 3000);
    return;
  }
  static const char* fk[] = {"file_open_fail", "file_read_eio", "file_short_read", "file_enospc", "file_write_eio", "file_short_write", "file_close_eio"};
  static const char* ck[] = {"cloud_create", "cloud_part", "cloud_part_lost_answer", "cloud_complete", "cloud_abort",
                             "cloud_get", "cloud_head", "cloud_put", "cloud_get_midstream"};
  static const unsigned rate[] = {0, 0, 200, 1500, 5000};
  if (files)
    for (auto k : fk) dsim::setFaultRate(k, rate[dsim::wl("file_rate", 5)]);
  for (auto k : {"base_read_fail", "base_write_fail", "base_close_fail"}) dsim::setFaultRate(k, rate[dsim::wl("base_rate", 5)]);
  if (cloud)
    for (auto k : ck) dsim::setFaultRate(k, rate[dsim::wl("cloud_rate", 5)]);
  if (dsim::wl("few_faults", 2)) dsim::setFaultBudget(1 + dsim::wl("fault_budget", 3));
}
// failures that a caller may get to see (short transfers must go unnoticed)
uint64_t hardFaults() {
  return dsim::faultsInjected() - dsim::faultsInjected("file_short_read") - dsim::faultsInjected("file_short_write") -
      dsim::faultsInjected("base_short_read");
}
struct Told {
  bool told = false;
  std::string what;
};
// Runs an operation; an exception means the caller has been told. Without injected failures there is nothing to tell.
template <class F>
Told attempt(const char* what, F&& f, bool mayRefuse = false) {
  Told t;
  try {
    f();
  } catch (const std::exception& e) {
    t.told = true;
    t.what = e.what();
  } catch (...) {
    t.told = true;
    t.what = "unknown exception";
  }
  if (t.told) {
    dsim::probe("failures_reported");
    if (!mayRefuse)
      DSIM_CHECK(hardFaults() > 0, "unexpected-error", "%s failed although nothing went wrong: %s", what, t.what.c_str());
  }
  return t;
}

size_t drawChunk() {
  static const size_t c[] = {4096, 1, 2, 3, 7, 16, 100, 1000, 5000, 64, 10000, 8};
  return c[dsim::wl("chunk", 12)];
}

void world() {
  dsim::drawSchedPolicy();
  setenv("AWS_DEFAULT_REGION", "us-west-2", 1);
  dsim::trackFiles(dsim::scratchDir() + "/t/");
  cloudsim::reset();
  cloudsim::store().maxNs = 3'000'000;
  mkdir((dsim::scratchDir() + "/t").c_str(), 0700);
}
// one simulated process of several threads, each doing its own work
void threads(int n, std::function<void(int)> f) {
  dsim::addParty(0, [n, f] {
    std::vector<std::thread> t;
    for (int i = 1; i < n; i++) t.emplace_back([f, i] { f(i); });
    f(0);
    for (auto& x : t) x.join();
  });
  mustFinish();
  // C28: by now every reader, writer and file manager is gone
  if (dsim::param("left", 0)) {
    DSIM_CHECK(dsim::openFiles() == 0, "files-left", "%d files still open after everything was destroyed", dsim::openFiles());
    dsim::probe("runs_without_open_files");
  }
}

std::unique_ptr<fio::IReaderCloser> openReader(const Target& t, int how) {
  if (t.kind == Own) return std::make_unique<OwnReader>(t.path, how);
  switch (how) {
    case 0: return std::make_unique<fio::FileReader>(t.path);
    case 1:
      if (t.kind == Local) return std::make_unique<fio::LocalFileReader>(t.path);
      return std::make_unique<fio::CloudFileReader>(t.path);
    default:
      if (t.kind == Local) return std::make_unique<fio::LocalFileReader>(t.path);
      return std::make_unique<fio::CloudFileReader>(
          t.path, std::shared_ptr<fbpcf::cloudio::IFileReader>(fbpcf::cloudio::getCloudFileReader(t.path)));
  }
}
std::unique_ptr<fio::IWriterCloser> openWriter(const Target& t, bool direct) {
  if (t.kind == Own) return std::make_unique<OwnWriter>(t.path);
  if (!direct) return std::make_unique<fio::FileWriter>(t.path);
  if (t.kind == Local) return std::make_unique<fio::LocalFileWriter>(t.path);
  return std::make_unique<fio::CloudFileWriter>(t.path);
}

// ------------------------------------------------------------------------------------------------ buffered access
struct ReadPlan {
  Target t;
  std::string content;
  size_t chunk;
  bool dfltChunk;
  int how;
  std::vector<std::pair<int, size_t>> ops; // kind (0 line, 1 bytes, 2 end query), amount; repeated until the end
};
ReadPlan drawRead(int kinds) {
  ReadPlan p;
  p.chunk = drawChunk();
  p.content = drawContent(p.chunk);
  p.how = dsim::wl("reader", 3);
  p.t = place(kinds, false);
  if (dsim::wlp("own_storage", 3000)) p.t.kind = Own;
  p.dfltChunk = p.t.kind == Local || p.t.kind == Own ? dsim::wlp("default_chunk", 1500) : mayUseBig();
  int n = 1 + dsim::wl("read_ops", 8);
  for (int i = 0; i < n; i++) {
    int k = dsim::wl("read_op", 3);
    size_t a = dsim::wl("amount_kind", 3) == 0 ? dsim::wl("amount_small", 6) : 1 + dsim::wl("amount", 3 * p.chunk + 5);
    p.ops.push_back({k, a});
  }
  if (p.ops.size() == 1 && p.ops[0].first == 2) p.ops[0].first = 0;
  bool progress = false;
  for (auto& o : p.ops) progress |= o.first == 0 || (o.first == 1 && o.second > 0);
  if (!progress) p.ops.push_back({0, 0});
  return p;
}
void runRead(const ReadPlan& p) {
  size_t pos = 0, steps = 0;
  bool done = false;
  auto r = attempt("buffered reading", [&] {
    auto base = openReader(p.t, p.how);
    auto b = p.dfltChunk ? std::make_unique<fio::BufferedReader>(std::move(base))
                         : std::make_unique<fio::BufferedReader>(std::move(base), p.chunk);
    for (size_t i = 0;; i++) {
      auto& op = p.ops[i % p.ops.size()];
      if (++steps > 20 * p.content.size() + 1000) dsim::fail("no-end", "reading does not come to an end: at %zu of %zu bytes", pos, p.content.size());
      if (op.first == 2 || pos == p.content.size()) {
        bool e = b->eof();
        // after a failure "not at the end" is right: the next read reports it
        if (!e && pos == p.content.size() && hardFaults()) {
          b->readLine();
          dsim::fail("read-past-end", "reading past the end gives data");
        }
        if (e != (pos == p.content.size()))
          dsim::fail(e ? "early-end" : "late-end", "end of file %s after %zu of %zu bytes (chunk %zu, %llu injected failures)",
                     e ? "reported" : "not reported", pos, p.content.size(), p.chunk, (unsigned long long)hardFaults());
        if (e) break;
        continue;
      }
      if (op.first == 0) {
        auto l = b->readLine();
        auto q = p.content.find('\n', pos);
        auto want = p.content.substr(pos, q == std::string::npos ? q : q - pos);
        DSIM_CHECK(l == want, "wrong-line", "line at %zu: %s", pos, differ(l, want).c_str());
        pos = q == std::string::npos ? p.content.size() : q + 1;
      } else {
        std::vector<char> v(op.second, '#');
        auto n = b->read(v);
        auto want = p.content.substr(pos, op.second);
        DSIM_CHECK(n == want.size(), "wrong-count", "%zu bytes asked for at %zu of %zu, %zu delivered", op.second, pos, p.content.size(), n);
        DSIM_CHECK(std::string(v.begin(), v.begin() + n) == want, "wrong-bytes", "bytes at %zu: %s", pos,
                   differ(std::string(v.begin(), v.begin() + n), want).c_str());
        pos += n;
      }
    }
    done = true;
    bool threw = false;
    try {
      if (p.ops[0].first) {
        std::vector<char> v(1);
        b->read(v);
      } else {
        b->readLine();
      }
    } catch (const std::exception&) {
      threw = true;
    }
    DSIM_CHECK(threw, "read-past-end", "reading past the end gives data");
    DSIM_CHECK(b->eof(), "end-lost", "end of file no longer reported");
    if (dsim::param("fault", 1) == 0 || p.chunk % 2) b->close();
  });
  dsim::probe("bytes_read_verified", pos);
  if (done) dsim::probe("files_read_to_the_end");
}

struct WritePlan {
  Target t;
  std::string content;
  size_t chunk;
  bool dfltChunk, direct, close, replaces;
  std::vector<std::pair<int, size_t>> ops; // kind 0 bytes, 1 string, 2 flush
};
WritePlan drawWrite(int kinds) {
  WritePlan p;
  p.chunk = drawChunk();
  p.content = drawContent(p.chunk);
  p.t = place(kinds, false);
  if (dsim::wlp("own_storage", 3000)) p.t.kind = Own;
  if (p.t.kind != Local && p.t.kind != Own && p.chunk < 16) p.chunk = 16, p.content.resize(std::min<size_t>(p.content.size(), 600));
  p.direct = dsim::wl("direct", 2);
  p.dfltChunk = dsim::wlp("default_chunk", 1500);
  p.close = !dsim::wlp("no_close", 2000);
  p.replaces = dsim::wlp("replaces", 3000);
  size_t left = p.content.size();
  while (left) {
    int k = dsim::wl("write_op", 5);
    if (k == 4) {
      p.ops.push_back({2, 0});
      continue;
    }
    size_t a = dsim::wl("amount_kind", 3) == 0 ? dsim::wl("amount_small", 6) : 1 + dsim::wl("amount", 3 * p.chunk + 5);
    if (p.ops.size() > 60) a = left;
    a = std::min(a, left);
    p.ops.push_back({k & 1, a});
    left -= a;
  }
  return p;
}
void runWrite(const WritePlan& p) {
  bool told = false;
  int rc = 0;
  std::string partial;
  auto r = attempt("buffered writing", [&] {
    auto base = openWriter(p.t, p.direct);
    auto b = p.dfltChunk ? std::make_unique<fio::BufferedWriter>(std::move(base))
                         : std::make_unique<fio::BufferedWriter>(std::move(base), p.chunk);
    size_t pos = 0;
    for (auto& op : p.ops) {
      if (op.first == 2) {
        b->flush();
        continue;
      }
      auto s = p.content.substr(pos, op.second);
      std::vector<char> v(s.begin(), s.end());
      size_t n = op.first ? b->writeString(s) : b->write(v);
      if (n != s.size()) {
        told = true;
        DSIM_CHECK(hardFaults() > 0, "short-write", "%zu of %zu bytes written though nothing went wrong", n, s.size());
        return;
      }
      pos += n;
    }
    if (p.close) {
      rc = b->close();
      if (rc) told = true;
    }
  });
  told |= r.told;
  if (p.t.kind == Own) {
    // the caller stops at the first failure; then what got through is the beginning of what was written
    auto& g = gOwn[p.t.path];
    DSIM_CHECK(p.content.compare(0, g.size(), g) == 0, "altered", "%zu bytes got through to the storage, not the beginning of what was written: %s",
               g.size(), differ(g, p.content).c_str());
  }
  bool empty = p.content.empty() && p.t.kind == S3; // an upload without parts is refused by the service
  if (rc && !empty) DSIM_CHECK(hardFaults() > 0, "unexpected-error", "close reports a failure though nothing went wrong");
  if (told) return;
  if (!p.close && hardFaults()) return; // nobody asked
  if (empty && !p.close) return;
  auto g = peek(p.t);
  DSIM_CHECK(g.has_value(), "missing-file", "%s: written and closed without an error, but absent", p.t.path.c_str());
  DSIM_CHECK(*g == p.content, "wrong-file", "%s: written and closed without an error, but %s", p.t.path.c_str(), differ(*g, p.content).c_str());
  dsim::probe("bytes_written_verified", p.content.size());
  dsim::probe("files_written_verified");
}
} // namespace

// C18
DSIM_HARNESS(bufio) {
  world();
  int kinds = dsim::param("cloud", 1) ? 3 : 1;
  int n = 1 + dsim::wlz("tasks", 3, 5000);
  struct Task {
    bool write;
    ReadPlan r;
    WritePlan w;
  };
  auto tasks = std::make_shared<std::vector<Task>>(n);
  for (auto& t : *tasks) {
    t.write = dsim::wl("task", 2);
    if (t.write) {
      t.w = drawWrite(kinds);
      note(strf("write %zu bytes in %zu steps, chunk %zu, to %s; ", t.w.content.size(), t.w.ops.size(), t.w.chunk, t.w.t.path.c_str()));
    } else {
      t.r = drawRead(kinds);
      note(strf("read %zu bytes, chunk %zu, from %s; ", t.r.content.size(), t.r.chunk, t.r.t.path.c_str()));
    }
  }
  for (auto& t : *tasks)
    if (!t.write)
      put(t.r.t, t.r.content);
    else if (t.w.replaces)
      put(t.w.t, "what was there before, longer or shorter than what comes");
  drawFaults(true, kinds > 1);
  threads(n, [tasks](int i) {
    auto& t = (*tasks)[i];
    if (t.write)
      runWrite(t.w);
    else
      runRead(t.r);
  });
}

// ------------------------------------------------------------------------------------------------ whole-file operations
namespace {
std::string asLines(const std::string& c) { // what line-wise copying makes of it
  if (c.empty() || c.back() == '\n') return c;
  return c + "\n";
}
// the rows a CSV reader reports (fields trimmed), independently computed
std::vector<std::vector<std::string>> csvRows(const std::string& c) {
  std::vector<std::vector<std::string>> rows;
  size_t i = 0;
  auto trim = [](std::string s) {
    size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char)s[a])) a++;
    while (b > a && isspace((unsigned char)s[b - 1])) b--;
    return s.substr(a, b - a);
  };
  while (i < c.size()) {
    auto q = c.find('\n', i);
    auto line = trim(c.substr(i, q == std::string::npos ? q : q - i));
    i = q == std::string::npos ? c.size() : q + 1;
    std::vector<std::string> f;
    if (line.empty())
      f.push_back("");
    else
      for (size_t j = 0;;) {
        auto k = line.find(',', j);
        f.push_back(trim(line.substr(j, k == std::string::npos ? k : k - j)));
        if (k == std::string::npos) break;
        j = k + 1;
      }
    rows.push_back(f);
  }
  return rows;
}
std::unique_ptr<fbpcf::IFileManager> managerFor(const Target& t) {
  if (t.kind == Local) return std::make_unique<fbpcf::LocalFileManager>();
  if (t.kind == S3) {
    auto ref = fbpcf::aws::uriToObjectReference(t.path);
    return std::make_unique<fbpcf::S3FileManager>(fbpcf::aws::createS3Client(fbpcf::aws::S3ClientOption{.region = ref.region}));
  }
  return std::make_unique<fbpcf::GCSFileManager<google::cloud::storage::Client>>(
      std::shared_ptr<google::cloud::storage::Client>(fbpcf::gcp::createGCSClient()));
}
enum Op { WriteFile, ReadFile, Transfer, ReadCsv, MgrWrite, MgrCopy, MgrRead, MgrStream, UtilWrite, UtilRead, DirectWrite, UtilStream, kOps };
const char* opName(int o) {
  static const char* n[] = {"FileIOWrappers::writeFile", "FileIOWrappers::readFile", "FileIOWrappers::transferFileInParts",
                            "FileIOWrappers::readCsv", "file manager write", "file manager copy", "file manager read",
                            "file manager stream", "io::write", "io::read", "file writer", "io::getInputStream"};
  return n[o];
}
struct FileTask {
  int op;
  Target src, dst;
  std::string content;
  std::vector<size_t> pieces;
  bool replaces, missing, bare;
};
FileTask drawFileTask() {
  FileTask f;
  f.op = dsim::wl("op", kOps);
  f.content = drawContent(4096);
  f.replaces = dsim::wlp("replaces", 3000);
  f.missing = dsim::wlp("source_missing", 500);
  f.bare = false;
  bool shortDst = f.op == MgrWrite || f.op == MgrRead || f.op == MgrStream || f.op == MgrCopy;
  f.src = place(3, f.op == MgrRead || f.op == MgrStream);
  f.dst = place(3, shortDst);
  auto onlyHttpS3 = [](Target t) { // FileManagerUtil: every https path is S3, everything else is local
    while (t.kind == Gcs) t = place(3, false);
    return t;
  };
  if ((f.op == ReadFile || f.op == Transfer || f.op == ReadCsv) && f.src.kind != Local && !mayUseBig()) f.src = place(1);
  if (f.op == UtilRead || f.op == UtilStream) f.src = onlyHttpS3(f.src);
  if (f.op == UtilWrite) f.dst = onlyHttpS3(f.dst);
  if (f.op == MgrCopy) f.src = place(1); // managers copy from a local file
  if ((f.op == WriteFile || f.op == MgrWrite || f.op == UtilWrite || f.op == DirectWrite) && f.dst.kind == Local && dsim::wlp("bare_name", 800)) {
    f.bare = true; // a name without a directory, relative to the working directory
    f.dst.path = strf("bare%d.csv", gNames++);
  }
  if (f.op == DirectWrite)
    for (size_t left = f.content.size(); left;) {
      size_t a = std::min<size_t>(left, 1 + dsim::wl("piece", 6000));
      if (f.pieces.size() > 20) a = left;
      f.pieces.push_back(a);
      left -= a;
    }
  return f;
}
void runFileTask(const FileTask& f) {
  std::string got, want = f.content;
  bool reads = false;
  int rc = 0;
  bool emptyUpload = false;
  bool noSource = f.missing && (f.op == ReadFile || f.op == Transfer || f.op == ReadCsv || f.op == MgrCopy || f.op == MgrRead || f.op == MgrStream || f.op == UtilRead || f.op == UtilStream);
  auto t = attempt(opName(f.op), [&] {
    switch (f.op) {
      case WriteFile:
        emptyUpload = f.content.empty() && f.dst.kind == S3;
        fio::FileIOWrappers::writeFile(f.dst.path, f.content);
        break;
      case ReadFile:
        reads = true;
        want = asLines(f.content);
        got = fio::FileIOWrappers::readFile(f.src.path);
        break;
      case Transfer:
        want = asLines(f.content);
        emptyUpload = f.content.empty() && f.dst.kind == S3;
        fio::FileIOWrappers::transferFileInParts(f.src.path, f.dst.path);
        break;
      case ReadCsv: {
        reads = true;
        std::vector<std::vector<std::string>> rows;
        bool headerSeen = false;
        bool ok = fio::FileIOWrappers::readCsv(
            f.src.path,
            [&](const std::vector<std::string>& h, const std::vector<std::string>& r) {
              DSIM_CHECK(headerSeen && h == rows[0], "wrong-rows", "row reported with a wrong header");
              rows.push_back(r);
            },
            [&](const std::vector<std::string>& h) {
              DSIM_CHECK(!headerSeen, "wrong-rows", "two headers reported");
              headerSeen = true;
              rows.push_back(h);
            });
        if (!ok) throw std::runtime_error("readCsv returned false");
        auto w = csvRows(f.content);
        // a field list that ends in a comma: the last, empty field may be left out (std::getline)
        auto norm = [](std::vector<std::vector<std::string>> r) {
          for (auto& x : r)
            while (!x.empty() && x.back().empty()) x.pop_back();
          return r;
        };
        DSIM_CHECK(norm(rows) == norm(w), "wrong-rows", "%zu rows reported, %zu in the file, or fields differ", rows.size(), w.size());
        got = want;
        break;
      }
      case MgrWrite: managerFor(f.dst)->write(f.dst.path, f.content); break;
      case MgrCopy: managerFor(f.dst)->copy(f.src.path, f.dst.path); break;
      case MgrRead:
        reads = true;
        got = managerFor(f.src)->read(f.src.path);
        break;
      case UtilStream:
      case MgrStream: {
        reads = true;
        auto s = f.op == UtilStream ? fio::getInputStream(f.src.path) : managerFor(f.src)->getInputStream(f.src.path);
        auto& is = s->get();
        char b[97];
        while (is.good()) {
          is.read(b, sizeof b);
          got.append(b, is.gcount());
        }
        if (is.bad()) throw std::runtime_error("stream reports an error");
        break;
      }
      case UtilWrite: fio::write(f.dst.path, f.content); break;
      case UtilRead:
        reads = true;
        got = fio::read(f.src.path);
        break;
      case DirectWrite: {
        emptyUpload = f.content.empty() && f.dst.kind == S3;
        fio::FileWriter w(f.dst.path);
        size_t pos = 0;
        for (auto n : f.pieces) {
          std::vector<char> v(f.content.begin() + pos, f.content.begin() + pos + n);
          if (w.write(v) != n) throw std::runtime_error("short write");
          pos += n;
        }
        rc = w.close();
        if (rc) throw std::runtime_error("close failed");
        break;
      }
    }
  }, noSource || (f.content.empty() && (f.dst.kind == S3 || f.op == ReadCsv || f.src.kind == Gcs)));
  if (t.told) {
    if (f.content.empty() && hardFaults() == 0) dsim::probe("empty_refused");
    return;
  }
  DSIM_CHECK(!noSource, "made-up-data", "%s succeeds though its source does not exist", opName(f.op));
  if (!reads) {
    auto g = peek(f.dst);
    DSIM_CHECK(g.has_value(), "missing-file", "%s to %s returned without an error, but there is no such file", opName(f.op), f.dst.path.c_str());
    got = *g;
  }
  DSIM_CHECK(got == want, "wrong-content", "%s (%s) returned without an error: %s; %llu injected failures", opName(f.op),
             (reads ? f.src : f.dst).path.c_str(), differ(got, want).c_str(), (unsigned long long)hardFaults());
  dsim::probe("operations_verified");
  dsim::probe(opName(f.op));
}
} // namespace

// C19
DSIM_HARNESS(fileops) {
  world();
  int n = 1 + dsim::wlz("tasks", 3, 6000);
  auto tasks = std::make_shared<std::vector<FileTask>>(n);
  for (auto& t : *tasks) {
    t = drawFileTask();
    note(strf("%s, %zu bytes, %s -> %s; ", opName(t.op), t.content.size(), t.src.path.c_str(), t.dst.path.c_str()));
  }
  for (auto& t : *tasks) {
    if (!t.missing) put(t.src, t.content);
    if (t.replaces && !t.bare) put(t.dst, "previous content of the destination, which must not shine through anywhere");
  }
  if (chdir((dsim::scratchDir() + "/t").c_str())) dsim::fail("harness", "chdir");
  drawFaults(true, true);
  auto sdk = fbpcf::AwsSdk::aquire();
  threads(n, [tasks](int i) { runFileTask((*tasks)[i]); });
}

// ------------------------------------------------------------------------------------------------ uploads in parts
// C20
namespace {
struct UploadPlan {
  Target t;
  std::string content;
  std::vector<size_t> parts;
  int mode; // 0 uploader, 1 CloudFileWriter, 2 BufferedWriter over CloudFileWriter
  int afterFailure; // 0 stop and destroy, 1 complete anyway, 2 continue with the next part
  size_t chunk;
  bool explicitClose;
};
} // namespace
DSIM_HARNESS(upload) {
  world();
  int n = 1 + dsim::wlz("uploads", 3, 5000);
  auto plans = std::make_shared<std::vector<UploadPlan>>(n);
  for (auto& p : *plans) {
    p.chunk = 16 + drawChunk();
    p.content = drawContent(p.chunk);
    if (p.content.empty()) p.content = "x";
    do p.t = place(3, true);
    while (p.t.kind == Local);
    p.mode = dsim::wl("upload_mode", 3);
    p.afterFailure = dsim::wl("after_failure", 3);
    p.explicitClose = !dsim::wlp("no_close", 1500);
    size_t avg = 1 + p.content.size() / (1 + dsim::wl("parts", 8));
    for (size_t left = p.content.size(); left;) {
      size_t a = std::min<size_t>(left, 1 + dsim::wl("part", 2 * avg));
      p.parts.push_back(a);
      left -= a;
    }
    note(strf("%zu bytes in %zu parts to %s by %s; ", p.content.size(), p.parts.size(), p.t.path.c_str(),
              p.mode == 0 ? "the uploader" : p.mode == 1 ? "the cloud writer" : "the buffered cloud writer"));
  }
  bool sameKey = n > 1 && dsim::wlp("same_key", 2000);
  if (sameKey) (*plans)[1].t = (*plans)[0].t;
  const std::string before = "the object that was there before";
  bool replaces = dsim::wlp("replaces", 3000);
  if (replaces)
    for (auto& p : *plans) put(p.t, before);
  if (dsim::wlp("min_part", 1000)) cloudsim::store().minPartSize = 100; // smaller parts are refused, like in reality
  drawFaults(false, true);
  bool crash = dsim::wlp("crash", 2000);
  std::vector<int> state(n, 0); // 0 running, 1 reported success, 2 told of a failure, 3 never asked
  auto* st = &state;
  // what may be visible under a key at any time
  auto visibleOk = [=](const Target& t) {
    auto g = peek(t);
    if (!g) return true;
    if (replaces && *g == before) return true;
    for (int j = 0; j < n; j++)
      if ((*plans)[j].t.key == t.key && *g == (*plans)[j].content) return true;
    return false;
  };
  auto done = std::make_shared<int>(0);
  auto oneUpload = [=](int i) {
    auto& p = (*plans)[i];
    auto fail0 = hardFaults();
    bool told = false, ok = false;
    auto r = attempt("uploading", [&] {
      std::unique_ptr<fbpcf::cloudio::IFileUploader> u;
      std::unique_ptr<fio::IWriterCloser> w;
      if (p.mode == 0)
        u = fbpcf::cloudio::getCloudFileUploader(p.t.path);
      else
        w = std::make_unique<fio::CloudFileWriter>(p.t.path);
      if (p.mode == 2) w = std::make_unique<fio::BufferedWriter>(std::move(w), p.chunk);
      size_t pos = 0;
      for (auto a : p.parts) {
        std::vector<char> v(p.content.begin() + pos, p.content.begin() + pos + a);
        size_t n = 0;
        if (p.mode == 0) {
          n = u->upload(v);
        } else {
          try {
            n = w->write(v);
          } catch (const std::exception&) { // the buffered writer reports by throwing
            if (p.afterFailure == 0) throw;
          }
        }
        if (n != a) {
          told = true;
          if (p.afterFailure == 0) return;
          if (p.afterFailure == 1) break;
        }
        pos += a;
      }
      if (p.mode == 0 || p.explicitClose) {
        try {
          int rc = p.mode == 0 ? u->complete() : w->close();
          if (rc)
            told = true;
          else if (!told)
            ok = true;
          else
            dsim::fail("failure-forgotten", "a part was refused, yet completing %s reports success", p.t.path.c_str());
        } catch (const std::exception& e) {
          told = true;
        }
      } else {
        (*st)[i] = 3;
      }
    }, cloudsim::store().minPartSize > 1);
    told |= r.told;
    if (told)
      (*st)[i] = 2;
    else if (ok)
      (*st)[i] = 1;
    if (told && cloudsim::store().minPartSize == 1) {
      auto parts = dsim::faultsInjected("cloud_part") + dsim::faultsInjected("cloud_part_lost_answer");
      DSIM_CHECK(hardFaults() > 0, "unexpected-error", "upload reported as failed though nothing went wrong");
      // a single refused part is tried again
      DSIM_CHECK(!(p.t.kind == S3 && parts == 1 && parts == hardFaults()), "no-retry", "one refused part request made the upload fail");
    }
    if (told)
      dsim::probe("uploads_failed");
    else if (ok)
      dsim::probe("uploads_succeeded");
    if (ok && !sameKey) {
      auto g = peek(p.t);
      DSIM_CHECK(g && *g == p.content, "success-not-visible", "upload of %s reported success, but %s", p.t.path.c_str(),
                 g ? differ(*g, p.content).c_str() : "there is no object");
    }
    if (told && !sameKey) {
      auto g = peek(p.t);
      DSIM_CHECK(!(g && *g != (replaces ? before : std::string("\1none"))), "failed-but-visible",
                 "upload of %s (%zu bytes in %zu parts) reported as failed, but an object of %zu bytes became visible", p.t.path.c_str(),
                 p.content.size(), p.parts.size(), g ? g->size() : 0);
    }
    ++*done;
  };
  dsim::addParty(0, [=] {
    auto sdk = fbpcf::AwsSdk::aquire();
    std::vector<std::thread> t;
    for (int i = 1; i < n; i++) t.emplace_back([=] { oneUpload(i); });
    oneUpload(0);
    for (auto& x : t) x.join();
  });
  // another program that looks at the store all the time
  dsim::addParty(1, [=] {
    for (int k = 0; k < 400 && *done < n && !dsim::partyCrashed(0); k++) {
      for (auto& p : *plans) {
        auto g = peek(p.t);
        DSIM_CHECK(visibleOk(p.t), "partly-visible", "%s shows %zu bytes that nobody uploaded as a whole", p.t.path.c_str(), g ? g->size() : 0);
      }
      dsim::probe("looks_at_store");
      dsim::sleepNs(1'000'000);
    }
  });
  if (crash) {
    uint64_t when = 1'000'000 * (1 + dsim::wl("crash_ms", 60));
    dsim::at(when, [] { dsim::crashParty(0, false); });
  }
  mustFinish();
  for (auto& p : *plans) DSIM_CHECK(visibleOk(p.t), "partly-visible", "%s shows what nobody uploaded as a whole", p.t.path.c_str());
  if (dsim::partyCrashed(0)) {
    dsim::probe("uploader_crashed");
    return;
  }
  // failed uploads are cancelled, unless cancelling itself was refused
  size_t open = 0;
  for (auto& u : cloudsim::store().uploads) open += !u.second.completed && !u.second.aborted;
  bool abandoned = false;
  for (int i = 0; i < n; i++) abandoned |= state[i] != 1 && (*plans)[i].mode == 0 && (*plans)[i].afterFailure == 0;
  if (open && !dsim::faultsInjected("cloud_abort")) dsim::fail("not-cancelled", "%zu failed uploads are left behind uncancelled", open);
  (void)abandoned;
}

// ------------------------------------------------------------------------------------------------ piecewise reading
// C21
DSIM_HARNESS(ranged) {
  world();
  int n = 1 + dsim::wlz("tasks", 3, 6000);
  struct Task {
    Target t;
    std::string content;
    int mode; // 0 reader object, 1 file manager, 2 cloud/file reader in pieces, 3 buffered
    std::vector<std::pair<size_t, size_t>> ranges;
    size_t piece;
    int how;
    uint64_t before = 0; // zero bytes in front of the content
    size_t size() const { return before + content.size(); }
    std::string part(size_t a, size_t b) const {
      std::string r;
      for (; a < b && a < size(); a++) r += a < before ? '\0' : content[a - before];
      return r;
    }
  };
  auto tasks = std::make_shared<std::vector<Task>>(n);
  for (auto& t : *tasks) {
    t.t = place(3, true);
    t.piece = 1 + dsim::wl("piece", 5000);
    t.content = drawContent(t.piece);
    t.mode = dsim::wl("ranged_mode", 4);
    t.how = dsim::wl("reader", 3);
    if (t.how == 0 && t.t.path.compare(0, 5, "https") && t.t.kind != Local) t.how = 1; // FileReader knows https only
    if (t.piece < 20) t.content.resize(std::min<size_t>(t.content.size(), 300));
    if (dsim::wlp("huge", 800)) {
      static const uint64_t edges[] = {(uint64_t)1 << 31, (uint64_t)1 << 32, (uint64_t)3 << 30, (uint64_t)5 << 30};
      t.before = edges[dsim::wl("huge_size", 4)] - dsim::wl("huge_less", 40);
      t.content.resize(std::min<size_t>(t.content.size(), 3000));
      if (t.content.empty()) t.content = "x";
      t.mode &= 1;
      dsim::probe("huge_objects");
    }
    int k = 1 + dsim::wl("ranges", 6);
    size_t z = t.content.size();
    for (int i = 0; i < k; i++) {
      size_t a, b;
      if (t.before) {
        a = dsim::wlz("huge_from", 3, 2000) ? t.before - 50 + dsim::wl("from", z + 50) : dsim::wl("huge_start", 100);
        b = a + 1 + dsim::wl("huge_len", 200);
        t.ranges.push_back({a, b});
        continue;
      }
      switch (dsim::wl("range_kind", 5)) {
        case 4: a = 1 + dsim::wl("from", z + 1), b = dsim::wl("len", a); break; // ends before it starts: nothing
        case 0: a = 0, b = z; break;
        case 1: a = dsim::wl("from", z + 1), b = a + dsim::wl("len", z - a + 1); break;
        case 2: a = dsim::wl("from", z + 2), b = a + dsim::wl("len", 2 * z + 10); break;
        default: a = dsim::wl("from", z + 1), b = a + dsim::wl("len_small", 3); break;
      }
      t.ranges.push_back({a, b});
    }
    note(strf("%zu bytes at %s, way %d, piece %zu; ", t.size(), t.t.path.c_str(), t.mode, t.piece));
  }
  for (auto& t : *tasks) {
    put(t.t, t.content);
    if (!t.before) continue;
    if (t.t.kind != Local) {
      cloudsim::store().before[t.t.key] = t.before;
      continue;
    }
    int fd = ::open(t.t.path.c_str(), O_TRUNC | O_WRONLY, 0600); // sparse
    if (fd < 0 || ::lseek(fd, t.before, SEEK_SET) != (off_t)t.before || ::write(fd, t.content.data(), t.content.size()) != (ssize_t)t.content.size())
      dsim::fail("harness", "cannot prepare a large file");
    ::close(fd);
  }
  drawFaults(true, true);
  threads(n, [tasks](int i) {
    auto& t = (*tasks)[i];
    auto one = [&](std::function<std::string(size_t, size_t)> f) {
      for (auto& r : t.ranges) {
        std::string got;
        bool odd = r.first >= t.size() || r.first >= r.second;
        auto a = attempt("reading a range", [&] { got = f(r.first, r.second); }, odd);
        if (a.told) continue;
        auto want = t.part(r.first, r.second);
        DSIM_CHECK(got == want, "wrong-range", "bytes [%zu,%zu) of %zu at %s: %s; %llu injected failures", r.first, r.second, t.size(),
                   t.t.path.c_str(), differ(got, want).c_str(), (unsigned long long)hardFaults());
        dsim::probe("ranges_verified");
      }
    };
    if (t.mode == 0 && t.t.kind != Local) {
      std::unique_ptr<fbpcf::cloudio::IFileReader> r;
      if (attempt("opening a reader", [&] { r = fbpcf::cloudio::getCloudFileReader(t.t.path); }).told) return;
      size_t len = 0;
      if (!attempt("asking for the length", [&] { len = r->getFileContentLength(t.t.path); }).told)
        DSIM_CHECK(len == t.size(), "wrong-length", "%s is %zu bytes long, reported %zu", t.t.path.c_str(), t.size(), len);
      one([&](size_t a, size_t b) { return r->readBytes(t.t.path, a, b); });
    } else if (t.mode <= 1) {
      auto m = managerFor(t.t);
      one([&](size_t a, size_t b) { return m->readBytes(t.t.path, a, b); });
    } else {
      std::string got;
      bool emptyGcs = false;
      auto a = attempt("reading in pieces", [&] {
        std::unique_ptr<fio::IReaderCloser> r = openReader(t.t, t.how);
        if (t.mode == 3) r = std::make_unique<fio::BufferedReader>(std::move(r), t.piece);
        size_t steps = 0, retries = 0, maxRetries = t.mode == 2 ? dsim::wl("retries", 3) : 0;
        while (!r->eof()) {
          std::vector<char> v(t.piece);
          size_t k = 0;
          try {
            k = r->read(v);
          } catch (const std::exception& e) {
            if (!hardFaults() || retries++ >= maxRetries) throw;
            dsim::probe("reads_tried_again");
            continue;
          }
          DSIM_CHECK(k <= t.piece, "wrong-count", "%zu bytes asked for, %zu delivered", t.piece, k);
          DSIM_CHECK(v.size() >= k, "wrong-count", "%zu bytes reported, buffer holds %zu", k, v.size());
          got.append(v.begin(), v.begin() + k);
          if (++steps > t.content.size() + 100) dsim::fail("no-end", "reading in pieces does not end");
          if (!k && !r->eof()) throw std::runtime_error("nothing read");
        }
        r->close(); // reports -1 after the end was met; readers have nothing to lose there
      }, emptyGcs);
      if (a.told) {
        DSIM_CHECK(t.content.compare(0, got.size(), got) == 0, "wrong-bytes", "before the error: %s", differ(got, t.content).c_str());
        return;
      }
      DSIM_CHECK(got == t.content, "wrong-bytes", "%s read in pieces of %zu: %s; %llu injected failures", t.t.path.c_str(), t.piece,
                 differ(got, t.content).c_str(), (unsigned long long)hardFaults());
      dsim::probe("objects_read_in_pieces");
    }
  });
}
