// Stub of the part of google-cloud-cpp storage that fbpcf uses, on the simulated store.
#pragma once
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

namespace google::cloud {
enum class StatusCode { kOk = 0, kUnknown = 2, kNotFound = 5, kOutOfRange = 11, kUnavailable = 14, kCancelled = 1 };
class Status {
 public:
  Status() {}
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  const std::string& message() const { return m_; }

 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
inline std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.message(); }
template <class T>
class StatusOr {
 public:
  StatusOr() : s_(StatusCode::kUnknown, "default") {}
  StatusOr(Status s) : s_(std::move(s)) {}
  StatusOr(T v) : v_(std::move(v)) {}
  bool ok() const { return s_.ok(); }
  explicit operator bool() const { return ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_; }
  T& operator*() { return v_; }
  const T& operator*() const { return v_; }
  T* operator->() { return &v_; }
  const T* operator->() const { return &v_; }
  T& value() {
    if (!ok()) throw std::runtime_error(s_.message());
    return v_;
  }

 private:
  Status s_;
  T v_{};
};
namespace storage {
class ObjectMetadata {
 public:
  std::uint64_t size() const { return n_; }
  void set_size(std::uint64_t n) { n_ = n; }
  const std::string& name() const { return name_; }

 private:
  std::uint64_t n_ = 0;
  std::string name_;
};
struct ReadRange {
  ReadRange() {}
  ReadRange(std::int64_t b, std::int64_t e) : begin(b), end(e), set(true) {}
  std::int64_t begin = 0, end = 0;
  bool set = false;
};
struct ContentType {
  ContentType() {}
  explicit ContentType(std::string s) : v(std::move(s)) {}
  std::string v;
};
class ReadBuf;
class ObjectReadStream : public std::istream {
 public:
  ObjectReadStream();
  explicit ObjectReadStream(std::unique_ptr<ReadBuf> b);
  ObjectReadStream(ObjectReadStream&& o) noexcept;
  ObjectReadStream& operator=(ObjectReadStream&& o) noexcept;
  ~ObjectReadStream() override;
  Status const& status() const&;
  void Close();
  bool IsOpen() const;

 private:
  std::unique_ptr<ReadBuf> b_;
};
class WriteBuf;
class ObjectWriteStream : public std::ostream {
 public:
  ObjectWriteStream();
  explicit ObjectWriteStream(std::unique_ptr<WriteBuf> b);
  ObjectWriteStream(ObjectWriteStream&& o) noexcept;
  ObjectWriteStream& operator=(ObjectWriteStream&& o) noexcept;
  ~ObjectWriteStream() override;
  bool IsOpen() const;
  void Close();
  StatusOr<ObjectMetadata> const& metadata() const& { return meta_; }
  StatusOr<ObjectMetadata>&& metadata() && { return std::move(meta_); }
  Status last_status() const;
  std::string const& resumable_session_id() const;

 private:
  std::unique_ptr<WriteBuf> b_;
  StatusOr<ObjectMetadata> meta_;
};
class Client {
 public:
  Client() {}
  template <class... O>
  ObjectReadStream ReadObject(const std::string& b, const std::string& k, O&&... o) {
    ReadRange r;
    (pick(r, o), ...);
    return doRead(b, k, r);
  }
  template <class... O>
  ObjectWriteStream WriteObject(const std::string& b, const std::string& k, O&&...) {
    return doWrite(b, k);
  }
  template <class... O>
  StatusOr<ObjectMetadata> GetObjectMetadata(const std::string& b, const std::string& k, O&&...) {
    return doMeta(b, k);
  }
  template <class... O>
  StatusOr<ObjectMetadata> UploadFile(const std::string& f, const std::string& b,
                                      const std::string& k, O&&...) {
    return doUpload(f, b, k);
  }
  template <class... O>
  Status DeleteResumableUpload(const std::string& id, O&&...) {
    return doDelete(id);
  }

 private:
  static void pick(ReadRange& r, const ReadRange& o) { r = o; }
  template <class T>
  static void pick(ReadRange&, const T&) {}
  ObjectReadStream doRead(const std::string&, const std::string&, ReadRange);
  ObjectWriteStream doWrite(const std::string&, const std::string&);
  StatusOr<ObjectMetadata> doMeta(const std::string&, const std::string&);
  StatusOr<ObjectMetadata> doUpload(const std::string&, const std::string&, const std::string&);
  Status doDelete(const std::string&);
};
} // namespace storage
} // namespace google::cloud
