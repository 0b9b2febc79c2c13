// Stub of the part of the AWS C++ SDK that fbpcf uses, on top of the simulated store.
#pragma once
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace Aws {
using String = std::string;
template <class T>
using Vector = std::vector<T>;
template <class K, class V>
using Map = std::map<K, V>;
using IOStream = std::basic_iostream<char, std::char_traits<char>>;
using StringStream = std::stringstream;
template <class T, class... A>
std::shared_ptr<T> MakeShared(const char*, A&&... a) {
  return std::make_shared<T>(std::forward<A>(a)...);
}
struct SDKOptions {
  int dummy = 0;
};
void InitAPI(const SDKOptions&);
void ShutdownAPI(const SDKOptions&);
namespace Http {
enum class Scheme { HTTP, HTTPS };
enum class HttpResponseCode { OK = 200, NOT_FOUND = 404, SERVICE_UNAVAILABLE = 503 };
} // namespace Http
namespace Auth {
class AWSCredentials {
 public:
  AWSCredentials() {}
  AWSCredentials(const String& k, const String& s) : k_(k), s_(s) {}
  const String& GetAWSAccessKeyId() const { return k_; }
  const String& GetAWSSecretKey() const { return s_; }

 private:
  String k_, s_;
};
} // namespace Auth
namespace Client {
struct ClientConfiguration {
  String region;
  String proxyHost;
  unsigned proxyPort = 0;
  Http::Scheme proxyScheme = Http::Scheme::HTTP;
  String proxySSLCertPath;
  Http::Scheme scheme = Http::Scheme::HTTPS;
};
} // namespace Client
namespace S3 {
enum class S3Errors { UNKNOWN, NO_SUCH_KEY, NO_SUCH_UPLOAD, SLOW_DOWN, INVALID_RANGE };
class S3Error {
 public:
  S3Error() {}
  S3Error(const String& name, const String& m, bool retry) : n_(name), m_(m), r_(retry) {}
  const String& GetMessage() const { return m_; }
  const String& GetExceptionName() const { return n_; }
  bool ShouldRetry() const { return r_; }

 private:
  String n_, m_;
  bool r_ = false;
};
inline std::ostream& operator<<(std::ostream& o, const S3Error& e) {
  return o << e.GetExceptionName() << ": " << e.GetMessage();
}
template <class R>
class Outcome_ {
 public:
  Outcome_() {}
  Outcome_(R r) : ok_(true), r_(std::move(r)) {}
  Outcome_(S3Error e) : e_(std::move(e)) {}
  bool IsSuccess() const { return ok_; }
  const R& GetResult() const { return r_; }
  R& GetResult() { return r_; }
  R&& GetResultWithOwnership() { return std::move(r_); }
  const S3Error& GetError() const { return e_; }

 private:
  bool ok_ = false;
  R r_;
  S3Error e_;
};
namespace Model {
#define S3_FIELD(T, N)                  \
 public:                                \
  void Set##N(T v) { f##N##_ = std::move(v); } \
  const T& Get##N() const { return f##N##_; }  \
                                        \
 private:                               \
  T f##N##_{};
class ObjReq {
  S3_FIELD(String, Bucket)
  S3_FIELD(String, Key)
};
class GetObjectRequest : public ObjReq {
  S3_FIELD(String, Range)
};
class HeadObjectRequest : public ObjReq {};
class BodyReq : public ObjReq {
 public:
  void SetBody(const std::shared_ptr<IOStream>& b) { body_ = b; }
  std::shared_ptr<IOStream> GetBody() const { return body_; }
  void SetContentLength(long long n) {
    len_ = n;
    hasLen_ = true;
  }
  long long GetContentLength() const { return len_; }
  bool HasLength() const { return hasLen_; }

 private:
  std::shared_ptr<IOStream> body_;
  long long len_ = 0;
  bool hasLen_ = false;
};
class PutObjectRequest : public BodyReq {
  S3_FIELD(String, ContentType)
};
class CreateMultipartUploadRequest : public ObjReq {
  S3_FIELD(String, ContentType)
};
class UploadPartRequest : public BodyReq {
  S3_FIELD(String, UploadId)
  S3_FIELD(int, PartNumber)
};
class AbortMultipartUploadRequest : public ObjReq {
  S3_FIELD(String, UploadId)
};
class CompletedPart {
  S3_FIELD(int, PartNumber)
  S3_FIELD(String, ETag)
 public:
  CompletedPart& WithPartNumber(int n) {
    SetPartNumber(n);
    return *this;
  }
  CompletedPart& WithETag(String s) {
    SetETag(std::move(s));
    return *this;
  }
};
class CompletedMultipartUpload {
 public:
  CompletedMultipartUpload& WithParts(const Vector<CompletedPart>& p) {
    p_ = p;
    return *this;
  }
  void SetParts(const Vector<CompletedPart>& p) { p_ = p; }
  CompletedMultipartUpload& AddParts(const CompletedPart& p) {
    p_.push_back(p);
    return *this;
  }
  const Vector<CompletedPart>& GetParts() const { return p_; }

 private:
  Vector<CompletedPart> p_;
};
class CompleteMultipartUploadRequest : public ObjReq {
  S3_FIELD(String, UploadId)
  S3_FIELD(CompletedMultipartUpload, MultipartUpload)
};
class GetObjectResult {
 public:
  GetObjectResult() : s_(new StringStream) {}
  explicit GetObjectResult(const String& b) : s_(new StringStream(b)), n_(b.size()) {}
  GetObjectResult(GetObjectResult&&) = default;
  GetObjectResult& operator=(GetObjectResult&&) = default;
  IOStream& GetBody() { return *s_; }
  const IOStream& GetBody() const { return *s_; }
  void ReplaceBody(IOStream* s) { s_.reset(s); }
  long long GetContentLength() const { return n_; }

 private:
  std::unique_ptr<IOStream> s_;
  long long n_ = 0;
};
class HeadObjectResult {
  S3_FIELD(long long, ContentLength)
};
class PutObjectResult {
  S3_FIELD(String, ETag)
};
class CreateMultipartUploadResult {
  S3_FIELD(String, UploadId)
};
class UploadPartResult {
  S3_FIELD(String, ETag)
};
class CompleteMultipartUploadResult {
  S3_FIELD(String, ETag)
};
class AbortMultipartUploadResult {};
using GetObjectOutcome = Outcome_<GetObjectResult>;
using HeadObjectOutcome = Outcome_<HeadObjectResult>;
using PutObjectOutcome = Outcome_<PutObjectResult>;
using CreateMultipartUploadOutcome = Outcome_<CreateMultipartUploadResult>;
using UploadPartOutcome = Outcome_<UploadPartResult>;
using CompleteMultipartUploadOutcome = Outcome_<CompleteMultipartUploadResult>;
using AbortMultipartUploadOutcome = Outcome_<AbortMultipartUploadResult>;
} // namespace Model
class S3Client {
 public:
  explicit S3Client(const Client::ClientConfiguration& c = {});
  S3Client(const Auth::AWSCredentials& cr, const Client::ClientConfiguration& c);
  virtual ~S3Client() {}
  virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest&) const;
  virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest&) const;
  virtual Model::PutObjectOutcome PutObject(const Model::PutObjectRequest&) const;
  virtual Model::CreateMultipartUploadOutcome CreateMultipartUpload(
      const Model::CreateMultipartUploadRequest&) const;
  virtual Model::UploadPartOutcome UploadPart(const Model::UploadPartRequest&) const;
  virtual Model::CompleteMultipartUploadOutcome CompleteMultipartUpload(
      const Model::CompleteMultipartUploadRequest&) const;
  virtual Model::AbortMultipartUploadOutcome AbortMultipartUpload(
      const Model::AbortMultipartUploadRequest&) const;
  const Client::ClientConfiguration& dsimConfig() const { return cfg_; }
  const Auth::AWSCredentials& dsimCredentials() const { return cred_; }

 private:
  Client::ClientConfiguration cfg_;
  Auth::AWSCredentials cred_;
};
} // namespace S3
} // namespace Aws
