#include "aws/aws_stub.h"
#include <cstdio>
#include <cstdlib>
#include "cloudsim.h"
#include "dsim.h"

namespace Aws {
void InitAPI(const SDKOptions&) {
  auto& s = cloudsim::store();
  s.initCalls++;
  if (dsim::inFiber()) dsim::sleepNs(1'000'000 * (1 + dsim::netChoice("aws_init", 8)));
  s.initApi++;
}
void ShutdownAPI(const SDKOptions&) {
  auto& s = cloudsim::store();
  s.shutdownCalls++;
  s.initApi--;
}
namespace S3 {
using namespace Model;
static S3Error err(const std::string& m) { return S3Error("SlowDown", m, true); }
static void reg(const Client::ClientConfiguration& c, const Auth::AWSCredentials& a) {
  auto& s = cloudsim::store();
  if (dsim::inFiber()) dsim::sleepNs(100'000 * (1 + dsim::netChoice("aws_client", 8)));
  s.clients.push_back({c.region, a.GetAWSAccessKeyId(), a.GetAWSSecretKey(), c.proxyHost,
                       c.proxyScheme == Http::Scheme::HTTPS ? "HTTPS" : "HTTP",
                       c.proxySSLCertPath, c.proxyPort, s.initApi > 0});
}
S3Client::S3Client(const Client::ClientConfiguration& c) : cfg_(c) { reg(c, {}); }
S3Client::S3Client(const Auth::AWSCredentials& a, const Client::ClientConfiguration& c)
    : cfg_(c), cred_(a) {
  reg(c, a);
}
static std::string slurp(const BodyReq& r, bool& ok) {
  ok = true;
  auto b = r.GetBody();
  if (!b) return "";
  b->clear();
  b->seekg(0, std::ios_base::end);
  auto n = b->tellg();
  b->seekg(0, std::ios_base::beg);
  if (n < 0) {
    ok = false; // body stream cannot be read
    return "";
  }
  size_t want = r.HasLength() ? (size_t)r.GetContentLength() : (size_t)n;
  std::string out(want, '\0');
  b->read(&out[0], want);
  if ((size_t)b->gcount() != want) {
    ok = false;
    out.resize(b->gcount());
  }
  b->clear();
  return out;
}
GetObjectOutcome S3Client::GetObject(const GetObjectRequest& r) const {
  auto k = r.GetBucket() + "/" + r.GetKey();
  auto e = cloudsim::request("get", k);
  if (!e.empty()) return err(e);
  auto& o = cloudsim::store().objects;
  auto it = o.find(k);
  if (it == o.end()) return S3Error("NoSuchKey", "The specified key does not exist.", false);
  const auto& d = it->second;
  if (r.GetRange().empty()) return GetObjectResult(d);
  unsigned long long a = 0, b = 0;
  int n = sscanf(r.GetRange().c_str(), "bytes=%llu-%llu", &a, &b);
  if (n < 1) return GetObjectResult(d); // malformed ranges are ignored by the service
  auto size = cloudsim::store().size(k);
  if (n == 1) b = size ? size - 1 : 0;
  if (b < a) return GetObjectResult(d); // syntactically invalid range: ignored
  if (a >= size) return S3Error("InvalidRange", "The requested range is not satisfiable", false);
  if (b >= size) b = size - 1;
  return GetObjectResult(cloudsim::store().bytes(k, a, b - a + 1));
}
HeadObjectOutcome S3Client::HeadObject(const HeadObjectRequest& r) const {
  auto k = r.GetBucket() + "/" + r.GetKey();
  auto e = cloudsim::request("head", k);
  if (!e.empty()) return err(e);
  auto& o = cloudsim::store().objects;
  auto it = o.find(k);
  if (it == o.end()) return S3Error("NoSuchKey", "The specified key does not exist.", false);
  HeadObjectResult h;
  h.SetContentLength(cloudsim::store().size(k));
  return h;
}
PutObjectOutcome S3Client::PutObject(const PutObjectRequest& r) const {
  auto k = r.GetBucket() + "/" + r.GetKey();
  auto e = cloudsim::request("put", k);
  if (!e.empty()) return err(e);
  bool ok;
  auto b = slurp(r, ok);
  // the service refuses a body that is shorter than announced, and one of unknown length
  if (!ok) return S3Error("IncompleteBody", "fewer bytes than Content-Length", false);
  cloudsim::store().objects[k] = b;
  cloudsim::log("put " + k + " " + std::to_string(b.size()));
  return PutObjectResult{};
}
CreateMultipartUploadOutcome S3Client::CreateMultipartUpload(
    const CreateMultipartUploadRequest& r) const {
  auto k = r.GetBucket() + "/" + r.GetKey();
  auto e = cloudsim::request("create", k);
  if (!e.empty()) return err(e);
  auto& s = cloudsim::store();
  std::string id = "upload-" + std::to_string(s.nextId++);
  auto& u = s.uploads[id];
  u.bucket = r.GetBucket();
  u.key = r.GetKey();
  s.created++;
  cloudsim::log("create " + id);
  CreateMultipartUploadResult x;
  x.SetUploadId(id);
  return x;
}
static cloudsim::Upload* find(const std::string& id, const ObjReq& r) {
  auto& s = cloudsim::store();
  auto it = s.uploads.find(id);
  if (it == s.uploads.end() || it->second.aborted || it->second.completed ||
      it->second.bucket != r.GetBucket() || it->second.key != r.GetKey())
    return nullptr;
  return &it->second;
}
UploadPartOutcome S3Client::UploadPart(const UploadPartRequest& r) const {
  auto& s = cloudsim::store();
  std::string det = r.GetUploadId() + " part " + std::to_string(r.GetPartNumber());
  auto e = cloudsim::request("part", det);
  if (!e.empty()) return err(e);
  auto* u = find(r.GetUploadId(), r);
  if (!u) return S3Error("NoSuchUpload", "The specified upload does not exist.", false);
  if (r.GetPartNumber() < 1 || r.GetPartNumber() > 10000)
    return S3Error("InvalidArgument", "Part number must be between 1 and 10000", false);
  bool ok;
  auto b = slurp(r, ok);
  if (!ok) return S3Error("IncompleteBody", "fewer bytes than Content-Length", false);
  std::string etag = "\"etag-" + std::to_string(s.nextId++) + "\"";
  u->parts[r.GetPartNumber()] = {etag, b};
  s.partsStored++;
  cloudsim::log("part " + det + " " + std::to_string(b.size()));
  // the part was stored but the answer got lost
  if (dsim::fault("cloud_part_lost_answer")) return err("connection lost");
  UploadPartResult x;
  x.SetETag(etag);
  return x;
}
CompleteMultipartUploadOutcome S3Client::CompleteMultipartUpload(
    const CompleteMultipartUploadRequest& r) const {
  auto& s = cloudsim::store();
  auto e = cloudsim::request("complete", r.GetUploadId());
  if (!e.empty()) return err(e);
  auto* u = find(r.GetUploadId(), r);
  if (!u) return S3Error("NoSuchUpload", "The specified upload does not exist.", false);
  auto& ps = r.GetMultipartUpload().GetParts();
  if (ps.empty())
    return S3Error("MalformedXML", "You must specify at least one part", false);
  std::string body;
  int prev = 0;
  for (size_t i = 0; i < ps.size(); i++) {
    if (ps[i].GetPartNumber() <= prev)
      return S3Error("InvalidPartOrder", "The list of parts was not in ascending order.", false);
    prev = ps[i].GetPartNumber();
    auto it = u->parts.find(prev);
    if (it == u->parts.end() || it->second.first != ps[i].GetETag())
      return S3Error("InvalidPart", "One or more of the specified parts could not be found.", false);
    if (i + 1 < ps.size() && it->second.second.size() < s.minPartSize)
      return S3Error("EntityTooSmall", "Your proposed upload is smaller than the minimum", false);
    body += it->second.second;
  }
  s.objects[u->bucket + "/" + u->key] = body;
  u->completed = true;
  s.completedOk++;
  cloudsim::log("complete " + r.GetUploadId() + " " + std::to_string(body.size()));
  return CompleteMultipartUploadResult{};
}
AbortMultipartUploadOutcome S3Client::AbortMultipartUpload(
    const AbortMultipartUploadRequest& r) const {
  auto e = cloudsim::request("abort", r.GetUploadId());
  if (!e.empty()) return err(e);
  auto* u = find(r.GetUploadId(), r);
  if (!u) return S3Error("NoSuchUpload", "The specified upload does not exist.", false);
  u->aborted = true;
  cloudsim::store().aborts++;
  cloudsim::log("abort " + r.GetUploadId());
  return AbortMultipartUploadResult{};
}
} // namespace S3
} // namespace Aws
