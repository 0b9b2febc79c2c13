// Internal interface between the simulator's own translation units.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "dsim.h"

namespace dsim::k {
enum class St : uint8_t { Runnable, Blocked, Done, Dead };
constexpr int kMaxKeys = 64;
struct Fiber {
  int id = 0;
  int party = -1;
  St st = St::Runnable;
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stackSize = 0;
  const void* waitAddr = nullptr;
  const char* waitWhat = "";
  uint64_t waitSeq = 0;
  bool timedOut = false;
  bool paused = false;
  void* eh[2] = {nullptr, nullptr};
  int err = 0;
  void* tsd[kMaxKeys] = {};
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  std::function<void()> fn;
  bool detached = false;
  bool joined = false;
  int globalDepth = 0; // inside a process-wide once / static initialisation
  int noPreempt = 0;
  int64_t prio = 0;
  uint64_t pausedUntil = 0;
  std::vector<uint64_t> vc; // happens-before clock (instrumented build)
};
extern bool gActive; // a simulated run is in progress and we are in a fiber or kernel
extern Fiber* gCur; // nullptr in main context
extern std::vector<Fiber*> gFibers;
extern uint64_t gNow;
extern uint64_t gSteps;

void hashMix(uint64_t v);
void schedule(); // current fiber gives up the processor if it has to (or may)
void yieldNow(const char* what, bool preferOther = false);
bool block(const void* addr, const char* what, int64_t timeoutNs);
int wake(const void* addr, int n); // n<0: all
uint64_t choose(Stream s, const char* key, uint64_t n);
Fiber* newFiber(int party);
void addEvent(uint64_t when, std::function<void()> fn);
void partyClosed(int party, bool machine); // net.cpp: close a crashed party's sockets
void netReset();
void filesReset();
[[noreturn]] void finishRun(const char* status, const char* cls, const std::string& msg);
// happens-before edges (tsanrt.cpp; no-ops in the plain build)
void hbAcquire(const void* addr);
void hbRelease(const void* addr);
void hbThreadStart(Fiber* parent, Fiber* child);
void hbThreadEnd(Fiber* f);
void hbJoin(Fiber* f);
void hbReset();
extern uint64_t gNextMemPreempt, gMemAccess;
void armMemPreempt();
} // namespace dsim::k
