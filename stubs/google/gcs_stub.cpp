#include "google/gcs_stub.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include "cloudsim.h"
#include "dsim.h"

namespace google::cloud::storage {
static Status unavailable(const std::string& m) { return Status(StatusCode::kUnavailable, m); }

class ReadBuf : public std::streambuf {
 public:
  std::string data;
  size_t pos = 0; // next byte to fetch
  Status st;
  bool open = false;
  std::string chunk;
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (!open) return traits_type::eof();
    if (pos >= data.size()) {
      open = false;
      return traits_type::eof();
    }
    // the download breaks off in the middle and the retry policy is exhausted
    if (pos > 0 && dsim::fault("cloud_get_midstream")) {
      open = false;
      st = unavailable("simulated: download interrupted, retry policy exhausted");
      // as in the real library: a stream buffer can only report errors by throwing
      throw std::runtime_error(st.message());
    }
    size_t n = std::min<size_t>(data.size() - pos, 64 + dsim::netChoice("gcs_chunk", 8) * 4096);
    chunk = data.substr(pos, n);
    pos += n;
    setg(&chunk[0], &chunk[0], &chunk[0] + n);
    return traits_type::to_int_type(*gptr());
  }
};
ObjectReadStream::ObjectReadStream() : std::istream(nullptr), b_(new ReadBuf) {
  init(b_.get());
}
ObjectReadStream::ObjectReadStream(std::unique_ptr<ReadBuf> b)
    : std::istream(nullptr), b_(std::move(b)) {
  init(b_.get());
  // as in the real library: the first chunk is fetched eagerly, errors set badbit
  if (!b_->st.ok())
    setstate(std::ios_base::badbit | std::ios_base::eofbit);
  else
    peek();
}
ObjectReadStream::ObjectReadStream(ObjectReadStream&& o) noexcept
    : std::istream(std::move(o)), b_(std::move(o.b_)) {
  o.b_.reset(new ReadBuf);
  o.set_rdbuf(o.b_.get());
  set_rdbuf(b_.get());
}
ObjectReadStream& ObjectReadStream::operator=(ObjectReadStream&& o) noexcept {
  std::istream::operator=(std::move(o));
  std::swap(b_, o.b_);
  set_rdbuf(b_.get());
  o.set_rdbuf(o.b_.get());
  return *this;
}
ObjectReadStream::~ObjectReadStream() {}
Status const& ObjectReadStream::status() const& { return b_->st; }
bool ObjectReadStream::IsOpen() const { return b_->open; }
void ObjectReadStream::Close() { b_->open = false; }

class WriteBuf : public std::streambuf {
 public:
  std::string id; // session
  std::string pending;
  static constexpr size_t kFlush = 256;
  Status st;
  bool open = false;
  void push() {
    if (pending.empty() || !st.ok()) return;
    auto e = cloudsim::request("part", id);
    auto& s = cloudsim::store();
    auto it = s.uploads.find(id);
    if (!e.empty())
      st = unavailable(e);
    else if (it == s.uploads.end() || it->second.aborted || it->second.completed)
      st = Status(StatusCode::kNotFound, "no such upload session");
    else {
      it->second.stream += pending;
      s.partsStored++;
      cloudsim::log("part " + id + " " + std::to_string(pending.size()));
      pending.clear();
    }
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (!open || !st.ok()) return 0;
    pending.append(p, n);
    if (pending.size() >= kFlush) push();
    return st.ok() ? n : 0;
  }
  int_type overflow(int_type c) override {
    if (!open || !st.ok()) return traits_type::eof();
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
      char ch = traits_type::to_char_type(c);
      if (xsputn(&ch, 1) != 1) return traits_type::eof();
    }
    return traits_type::not_eof(c);
  }
  StatusOr<ObjectMetadata> finish() {
    if (!open) return Status(StatusCode::kUnknown, "stream is not open");
    open = false;
    push();
    if (!st.ok()) return st;
    auto e = cloudsim::request("complete", id);
    if (!e.empty()) {
      st = unavailable(e);
      return st;
    }
    auto& s = cloudsim::store();
    auto it = s.uploads.find(id);
    if (it == s.uploads.end() || it->second.aborted || it->second.completed) {
      st = Status(StatusCode::kNotFound, "no such upload session");
      return st;
    }
    it->second.completed = true;
    s.objects[it->second.bucket + "/" + it->second.key] = it->second.stream;
    s.completedOk++;
    cloudsim::log("complete " + id + " " + std::to_string(it->second.stream.size()));
    ObjectMetadata m;
    m.set_size(it->second.stream.size());
    return m;
  }
};
ObjectWriteStream::ObjectWriteStream() : std::ostream(nullptr), b_(new WriteBuf) { init(b_.get()); }
ObjectWriteStream::ObjectWriteStream(std::unique_ptr<WriteBuf> b)
    : std::ostream(nullptr), b_(std::move(b)) {
  init(b_.get());
  if (!b_->st.ok()) setstate(std::ios_base::badbit);
}
ObjectWriteStream::ObjectWriteStream(ObjectWriteStream&& o) noexcept
    : std::ostream(std::move(o)), b_(std::move(o.b_)), meta_(std::move(o.meta_)) {
  o.b_.reset(new WriteBuf);
  o.set_rdbuf(o.b_.get());
  set_rdbuf(b_.get());
}
ObjectWriteStream& ObjectWriteStream::operator=(ObjectWriteStream&& o) noexcept {
  std::ostream::operator=(std::move(o));
  std::swap(b_, o.b_);
  std::swap(meta_, o.meta_);
  set_rdbuf(b_.get());
  o.set_rdbuf(o.b_.get());
  return *this;
}
ObjectWriteStream::~ObjectWriteStream() {
  // as in the real library, destroying an open stream finalises the upload
  try {
    if (IsOpen()) Close();
  } catch (...) {
  }
}
bool ObjectWriteStream::IsOpen() const { return b_ && b_->open; }
void ObjectWriteStream::Close() {
  if (!b_->open) {
    setstate(std::ios_base::badbit);
    return;
  }
  meta_ = b_->finish();
  if (!meta_.ok()) setstate(std::ios_base::badbit);
}
Status ObjectWriteStream::last_status() const { return b_->st; }
std::string const& ObjectWriteStream::resumable_session_id() const { return b_->id; }

ObjectReadStream Client::doRead(const std::string& b, const std::string& k, ReadRange r) {
  auto rb = std::make_unique<ReadBuf>();
  auto key = b + "/" + k;
  auto e = cloudsim::request("get", key);
  auto& o = cloudsim::store().objects;
  auto it = o.find(key);
  if (!e.empty())
    rb->st = unavailable(e);
  else if (it == o.end())
    rb->st = Status(StatusCode::kNotFound, "no such object");
  else {
    const auto& d = it->second;
    if (!r.set)
      rb->data = d;
    else if (r.begin < 0 || r.end <= r.begin || (size_t)r.begin >= cloudsim::store().size(key))
      rb->st = Status(StatusCode::kOutOfRange, "requested range not satisfiable");
    else
      rb->data = cloudsim::store().bytes(key, r.begin, r.end - r.begin);
    rb->open = rb->st.ok();
  }
  return ObjectReadStream(std::move(rb));
}
ObjectWriteStream Client::doWrite(const std::string& b, const std::string& k) {
  auto wb = std::make_unique<WriteBuf>();
  auto e = cloudsim::request("create", b + "/" + k);
  auto& s = cloudsim::store();
  if (!e.empty()) {
    wb->st = unavailable(e);
  } else {
    wb->id = "session-" + std::to_string(s.nextId++);
    auto& u = s.uploads[wb->id];
    u.bucket = b;
    u.key = k;
    s.created++;
    cloudsim::log("create " + wb->id);
  }
  wb->open = true;
  return ObjectWriteStream(std::move(wb));
}
StatusOr<ObjectMetadata> Client::doMeta(const std::string& b, const std::string& k) {
  auto e = cloudsim::request("head", b + "/" + k);
  if (!e.empty()) return unavailable(e);
  auto& o = cloudsim::store().objects;
  auto it = o.find(b + "/" + k);
  if (it == o.end()) return Status(StatusCode::kNotFound, "no such object");
  ObjectMetadata m;
  m.set_size(cloudsim::store().size(b + "/" + k));
  return m;
}
StatusOr<ObjectMetadata> Client::doUpload(const std::string& f, const std::string& b,
                                          const std::string& k) {
  std::ifstream is(f, std::ios::binary);
  if (!is) return Status(StatusCode::kNotFound, "cannot open upload file source");
  std::stringstream ss;
  char buf[4096];
  while (is.good()) {
    is.read(buf, sizeof buf);
    ss.write(buf, is.gcount());
  }
  if (is.bad()) return Status(StatusCode::kUnknown, "error reading upload file source");
  auto e = cloudsim::request("put", b + "/" + k);
  if (!e.empty()) return unavailable(e);
  cloudsim::store().objects[b + "/" + k] = ss.str();
  ObjectMetadata m;
  m.set_size(ss.str().size());
  return m;
}
Status Client::doDelete(const std::string& id) {
  auto e = cloudsim::request("abort", id);
  if (!e.empty()) return unavailable(e);
  auto& s = cloudsim::store();
  auto it = s.uploads.find(id);
  if (it == s.uploads.end() || it->second.aborted || it->second.completed)
    return Status(StatusCode::kNotFound, "no such upload session");
  it->second.aborted = true;
  s.aborts++;
  cloudsim::log("abort " + id);
  return Status();
}
} // namespace google::cloud::storage
