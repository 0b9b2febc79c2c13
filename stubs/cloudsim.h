// Simulated object store used by the AWS and Google Cloud stubs. One store per run (the
// whole simulated world shares it). Requests take simulated time and can fail.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace cloudsim {
struct Upload {
  std::string bucket, key;
  std::map<int, std::pair<std::string, std::string>> parts; // number -> (etag, body)
  std::string stream; // resumable upload: committed bytes
  bool aborted = false, completed = false, broken = false;
};
struct Store {
  std::map<std::string, std::string> objects; // "bucket/key"
  std::map<std::string, uint64_t> before; // an object starts with this many zero bytes that are not stored
  uint64_t size(const std::string& key) {
    auto it = before.find(key);
    return objects[key].size() + (it == before.end() ? 0 : it->second);
  }
  std::string bytes(const std::string& key, uint64_t from, uint64_t n) {
    auto it = before.find(key);
    uint64_t z = it == before.end() ? 0 : it->second;
    auto& d = objects[key];
    std::string r;
    if (from < z) r.assign(std::min({n, z - from, (uint64_t)1 << 20}), '\0');
    if (from + r.size() >= z && n > r.size()) r += d.substr(from + r.size() - z, n - r.size());
    return r;
  }
  std::map<std::string, Upload> uploads;
  uint64_t nextId = 1;
  // observations
  uint64_t requests = 0, created = 0, partsStored = 0, completedOk = 0, aborts = 0;
  std::vector<std::string> history; // one line per request
  int initApi = 0, initCalls = 0, shutdownCalls = 0;
  struct ClientRec {
    std::string region, keyId, secret, proxyHost, scheme, cert;
    unsigned proxyPort;
    bool initialised;
  };
  std::vector<ClientRec> clients;
  // service limits
  size_t minPartSize = 1;
  // simulated duration of one request: [minNs, maxNs]
  uint64_t minNs = 1'000'000, maxNs = 50'000'000;
};
Store& store();
void reset();
// one service request: takes time, may fail. Returns empty string or the error message.
std::string request(const char* what, const std::string& detail, bool mayFail = true);
void log(const std::string& line);
} // namespace cloudsim
