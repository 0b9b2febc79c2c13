// Small helpers for the demonstrations: parties as threads over the repository's in-memory channel.
#pragma once
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
namespace demo {
using fbpcf::engine::communication::InMemoryPartyCommunicationAgentFactory;
inline void bad(const char* what) {
  fprintf(stderr, "BROKEN: %s\n", what);
  _exit(1);
}
#define EXPECT(c, what) do { if (!(c)) demo::bad(what); } while (0)
// after `sec` seconds without finishing the demonstration counts as broken
inline void watchdog(int sec) {
  std::thread([sec] { std::this_thread::sleep_for(std::chrono::seconds(sec)); bad("no progress"); }).detach();
}
inline std::vector<std::unique_ptr<InMemoryPartyCommunicationAgentFactory>> memory(int n) {
  using Host = InMemoryPartyCommunicationAgentFactory::HostInfo;
  std::vector<std::map<int, std::shared_ptr<Host>>> maps(n);
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      auto h = std::make_shared<Host>();
      h->mutex = std::make_unique<std::mutex>();
      maps[i][j] = maps[j][i] = h;
    }
  std::vector<std::unique_ptr<InMemoryPartyCommunicationAgentFactory>> v;
  for (int i = 0; i < n; i++)
    v.push_back(std::make_unique<InMemoryPartyCommunicationAgentFactory>(
        i, std::move(maps[i]), std::make_shared<fbpcf::util::MetricCollector>("p" + std::to_string(i))));
  return v;
}
inline void parties(int n, std::function<void(int)> f) {
  std::vector<std::thread> t;
  for (int i = 0; i < n; i++)
    t.emplace_back([=] {
      try { f(i); } catch (const std::exception& e) { fprintf(stderr, "party %d: %s\n", i, e.what()); bad("unexpected error"); }
    });
  for (auto& x : t) x.join();
}
}
