// Deterministic simulator kernel: fibers, scheduler, simulated clock, decisions, driver.
#include "kernel.h"
#include <algorithm>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <dirent.h>
#include <exception>
#include <memory>
#include <queue>
#include <typeinfo>
#include <unordered_map>
#ifdef DSIM_COV
extern "C" void __gcov_dump();
#endif

extern "C" void* __cxa_get_globals() noexcept;

namespace dsim {
using namespace k;
namespace k {
bool gActive = false;
Fiber* gCur = nullptr;
std::vector<Fiber*> gFibers;
// the fibers that have not ended, by id; ended ones are dropped now and then
static std::vector<Fiber*> gLive;
static std::vector<Fiber*> gEnded; // whose stacks can be reused
static bool over(const Fiber* f) { return f->st == St::Done || f->st == St::Dead; }
uint64_t gNow = 0;
uint64_t gSteps = 0;
uint64_t gNextMemPreempt = UINT64_MAX, gMemAccess = 0;
} // namespace k

namespace {
struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : (unsigned __int128)next() * n >> 64; }
};

struct Event {
  uint64_t when, seq;
  std::function<void()> fn;
};
struct EvCmp {
  bool operator()(const Event* a, const Event* b) const {
    return a->when != b->when ? a->when > b->when : a->seq > b->seq;
  }
};

struct Run {
  uint64_t seed = 0;
  bool replay = false;
  Rng rng[4];
  Rng data, ent;
  std::map<std::string, uint64_t> entOcc;
  uint64_t hash = 0xcbf29ce484222325ull, schedHash = 0xcbf29ce484222325ull;
  std::map<std::pair<int, std::string>, uint64_t> occ; // occurrences per (stream,key)
  // replay decisions
  std::map<std::pair<int, std::string>, std::unordered_map<uint64_t, uint64_t>> rep;
  // recording
  FILE* rec = nullptr;
  std::map<std::string, unsigned> rate;
  std::map<std::string, uint64_t> faultN;
  std::map<std::string, uint64_t> faultOpp;
  std::map<std::string, uint64_t> probes;
  std::string sample;
  bool faultsOn = true;
  uint64_t budget = UINT64_MAX, totalFaults = 0;
  Policy pol = Policy::Default;
  unsigned switchP = 0;
  uint64_t switches = 0, decisions = 0;
  int64_t lowPrio = 0;
  unsigned pctDepth = 0;
  uint64_t nextChange = 0;
  int starve = -1;
  unsigned memP = 0;
  uint64_t memDone = 0;
  bool raceCheck = false;
  std::priority_queue<Event*, std::vector<Event*>, EvCmp> ev;
  uint64_t evSeq = 0;
  End end = End::Done;
  bool ended = false;
  RunOptions opt;
  void* mainSp = nullptr;
  void* mainEh[2] = {nullptr, nullptr};
  std::map<int, int> partyState; // 0 running, 1 finished, 2 crashed
  std::map<int, bool> pendingCrash;
  std::string blocked;
  std::string scratch;
  int rrLast = 0;
  uint64_t consecutive = 0;
};
Run* R = nullptr;

// ---- result slot shared with the parent
constexpr size_t kSlot = 1 << 16;
char* gSlot = nullptr;

struct HReg {
  const char* name;
  void (*fn)();
};
HReg gH[128];
int gNH = 0;
char gParams[64][2][64];
int gNParams = 0;
const char* gHarnessName = "";
char gScratchBase[256] = "";
bool gVerbose = false;
} // namespace

// ------------------------------------------------------------ fiber switching
extern "C" void dsim_switch(void** save, void* to);
asm(R"(
.text
.globl dsim_switch
.type dsim_switch,@function
dsim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size dsim_switch,.-dsim_switch
)");

namespace k {
void hashMix(uint64_t v) {
  if (!R) return;
  R->hash = (R->hash ^ v) * 0x100000001b3ull;
  R->hash ^= R->hash >> 29;
}
} // namespace k

static void jsonEsc(std::string& o, const std::string& s) {
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
}

namespace k {
[[noreturn]] void finishRun(const char* status, const char* cls, const std::string& msg) {
  std::string o = "{\"status\":\"";
  o += status;
  o += "\",\"class\":\"";
  jsonEsc(o, cls);
  o += "\",\"msg\":\"";
  jsonEsc(o, msg.substr(0, 3000));
  char b[256];
  snprintf(b, sizeof b,
           "\",\"seed\":%llu,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"sim_ns\":%llu,",
           (unsigned long long)R->seed, (unsigned long long)R->hash,
           (unsigned long long)R->schedHash, (unsigned long long)gSteps,
           (unsigned long long)R->switches, (unsigned long long)gNow);
  o += b;
  o += "\"faults\":{";
  bool first = true;
  for (auto& [kk, v] : R->faultN) {
    if (!first) o += ",";
    first = false;
    o += "\"" + kk + "\":" + std::to_string(v);
  }
  o += "},\"probes\":{";
  first = true;
  for (auto& [kk, v] : R->probes) {
    if (!first) o += ",";
    first = false;
    o += "\"" + kk + "\":" + std::to_string(v);
  }
  o += "},\"sample\":\"";
  jsonEsc(o, R->sample.substr(0, 1500));
  o += "\"}";
  if (R->rec) fclose(R->rec);
  if (o.size() > kSlot - 16) o.resize(kSlot - 16);
  if (gSlot) {
    memcpy(gSlot + 8, o.data(), o.size());
    *(uint64_t*)gSlot = o.size();
  }
#ifdef DSIM_COV
  __gcov_dump();
#endif
  _exit(0);
}

uint64_t choose(Stream s, const char* key, uint64_t n) {
  if (n <= 1) return 0;
  auto kk = std::make_pair((int)s, std::string(key));
  uint64_t o = R->occ[kk]++;
  uint64_t v;
  if (R->replay) {
    v = 0;
    auto it = R->rep.find(kk);
    if (it != R->rep.end()) {
      auto j = it->second.find(o);
      if (j != it->second.end()) v = j->second % n;
    }
  } else {
    v = R->rng[(int)s].below(n);
  }
  if (v && R->rec)
    fprintf(R->rec, "%d %s %llu %llu\n", (int)s, key, (unsigned long long)o, (unsigned long long)v);
  hashMix(v + 0x1000 * ((int)s + 1));
  return v;
}

// like choose() but the live value is supplied by the policy
static uint64_t chooseVal(Stream s, const char* key, uint64_t n, uint64_t live) {
  if (n <= 1) return 0;
  auto kk = std::make_pair((int)s, std::string(key));
  uint64_t o = R->occ[kk]++;
  uint64_t v = live;
  if (R->replay) {
    v = 0;
    auto it = R->rep.find(kk);
    if (it != R->rep.end()) {
      auto j = it->second.find(o);
      if (j != it->second.end()) v = j->second % n;
    }
  }
  if (v && R->rec)
    fprintf(R->rec, "%d %s %llu %llu\n", (int)s, key, (unsigned long long)o, (unsigned long long)v);
  return v;
}

void addEvent(uint64_t when, std::function<void()> fn) {
  auto* e = new Event{when < gNow ? gNow : when, R->evSeq++, std::move(fn)};
  R->ev.push(e);
}

static bool runnable(Fiber* f) { return f->st == St::Runnable && !f->paused; }

static void fireDue() {
  while (!R->ev.empty() && R->ev.top()->when <= gNow) {
    Event* e = R->ev.top();
    R->ev.pop();
    e->fn();
    delete e;
  }
}

// Process-wide variables that every simulated process has for itself
struct PartyGlobal {
  unsigned char* p;
  size_t n;
  std::map<int, std::vector<unsigned char>> copy;
};
static std::vector<PartyGlobal> gPartyGlobals;
static int gLoadedParty = -1;
static void loadParty(int party) {
  if (party == gLoadedParty) return;
  for (auto& g : gPartyGlobals) {
    auto& old = g.copy[gLoadedParty];
    old.assign(g.p, g.p + g.n);
    auto& now = g.copy[party];
    if (now.empty()) now.assign(g.n, 0);
    memcpy(g.p, now.data(), g.n);
  }
  gLoadedParty = party;
}

static void doSwitch(Fiber* to) {
  Fiber* from = gCur;
  if (from == to) return;
  if (!gPartyGlobals.empty()) loadParty(to ? to->party : -1);
  R->switches++;
  uint64_t id = to ? to->id + 1 : 0;
  R->schedHash = (R->schedHash ^ id) * 0x100000001b3ull;
  R->schedHash ^= R->schedHash >> 31;
  hashMix(id);
  void** g = (void**)__cxa_get_globals();
  void* newSp;
  void** save;
  if (from) {
    from->eh[0] = g[0];
    from->eh[1] = g[1];
    from->err = errno;
    save = &from->sp;
  } else {
    R->mainEh[0] = g[0];
    R->mainEh[1] = g[1];
    save = &R->mainSp;
  }
  if (to) {
    g[0] = to->eh[0];
    g[1] = to->eh[1];
    newSp = to->sp;
  } else {
    g[0] = R->mainEh[0];
    g[1] = R->mainEh[1];
    newSp = R->mainSp;
  }
  gCur = to;
  dsim_switch(save, newSp);
  // back in `from`
  if (from) errno = from->err;
}

static void endRun(End e) {
  R->end = e;
  R->ended = true;
  doSwitch(nullptr);
  // a fiber never comes back after the end
  fprintf(stderr, "dsim: resumed after end\n");
  abort();
}

static void checkPendingCrash() {
  for (auto& [p, machine] : R->pendingCrash) {
    bool busy = false;
    for (auto* f : gFibers)
      if (f->party == p && f->globalDepth > 0 && f->st != St::Done && f->st != St::Dead) busy = true;
    if (!busy) {
      int pp = p;
      bool m = machine;
      R->pendingCrash.erase(p);
      R->partyState[pp] = 2;
      for (auto* f : gFibers)
        if (f->party == pp && f->st != St::Done) f->st = St::Dead;
      hashMix(0xdead + pp);
      partyClosed(pp, m);
      return;
    }
  }
}

void schedule() { yieldNow("", false); }

// The one scheduling point. The current fiber may be runnable (preemption) or not.
void yieldNow(const char*, bool preferOther) {
  if (!R || R->ended) return;
  Fiber* cur = gCur;
  if (cur && cur->st == St::Runnable && cur->noPreempt) return;
  gSteps++;
  gNow += 300;
  if (gSteps > R->opt.maxSteps) endRun(End::StepLimit);
  static std::vector<Fiber*> cand;
  // fairness: a thread that spins without ever blocking eventually loses the processor
  if (cur && ++R->consecutive > 3000) {
    R->consecutive = 0;
    preferOther = true;
    cur->prio = --R->lowPrio;
  }
  for (;;) {
    if (!R->pendingCrash.empty()) checkPendingCrash();
    fireDue();
    if (R->opt.maxSimNs && gNow > R->opt.maxSimNs) endRun(End::TimeLimit);
    cand.clear();
    // candidate order: current first, then cyclically by id
    size_t n = gLive.size(), ended = 0;
    int base = cur ? cur->id : (int)R->rrLast;
    if (cur && runnable(cur) && !preferOther) cand.push_back(cur);
    size_t first = std::upper_bound(gLive.begin(), gLive.end(), base, [](int id, const Fiber* f) { return id < f->id; }) - gLive.begin();
    for (size_t i = 0; i < n; i++) {
      Fiber* f = gLive[first + i < n ? first + i : first + i - n];
      if (f == cur) continue;
      if (runnable(f)) cand.push_back(f);
      else if (over(f)) ended++;
    }
    if (ended > 8) gLive.erase(std::remove_if(gLive.begin(), gLive.end(), over), gLive.end());
    if (cur && runnable(cur) && preferOther) cand.push_back(cur);
    if (!cand.empty()) break;
    if (R->ev.empty()) {
      bool alive = false;
      for (auto* f : gLive)
        if (f->st == St::Blocked || f->paused) alive = true;
      endRun(alive ? End::Deadlock : End::Done);
    }
    // nothing runnable: let simulated time pass
    bool alive = false;
    for (auto* f : gLive)
      if (f->st == St::Blocked || (f->st == St::Runnable && f->paused)) {
        alive = true;
        break;
      }
    if (!alive) endRun(End::Done);
    gNow = std::max(gNow, R->ev.top()->when);
  }
  uint64_t pick = 0;
  if (cand.size() > 1) {
    R->decisions++;
    uint64_t live = 0;
    if (!R->replay) {
      auto& rg = R->rng[(int)Stream::Sched];
      switch (R->pol) {
        case Policy::Default:
          break;
        case Policy::RandomWalk:
          if (rg.below(10000) < R->switchP || (cand[0] != cur)) live = rg.below(cand.size());
          break;
        case Policy::Pct: {
          if (R->decisions == R->nextChange && cur) {
            cur->prio = --R->lowPrio;
            R->nextChange = R->decisions + 1 + rg.below(R->switchP + 1);
          }
          for (size_t i = 1; i < cand.size(); i++)
            if (cand[i]->prio > cand[live]->prio) live = i;
          break;
        }
        case Policy::Starve: {
          // run the victim only if nothing else can run; window moves on now and then
          if (R->starve < 0 || rg.below(10000) < R->switchP)
            R->starve = gLive[rg.below(gLive.size())]->id;
          live = rg.below(10) == 0 ? rg.below(cand.size()) : 0;
          if (cand[live]->id == R->starve) live = (live + 1) % cand.size();
          break;
        }
      }
    }
    pick = chooseVal(Stream::Sched, "s", cand.size(), live);
  }
  Fiber* to = cand[pick];
  R->rrLast = to->id;
  if (to != cur) R->consecutive = 0;
  doSwitch(to);
}

bool block(const void* addr, const char* what, int64_t timeoutNs) {
  Fiber* f = gCur;
  if (!f) {
    fprintf(stderr, "dsim: blocking (%s) outside a simulated thread\n", what);
    abort();
  }
  f->st = St::Blocked;
  f->waitAddr = addr;
  f->waitWhat = what;
  f->timedOut = false;
  uint64_t seq = ++f->waitSeq;
  if (timeoutNs >= 0) {
    addEvent(gNow + (uint64_t)timeoutNs, [f, seq] {
      if (f->st == St::Blocked && f->waitSeq == seq) {
        f->timedOut = true;
        f->waitAddr = nullptr;
        f->st = St::Runnable;
      }
    });
  }
  yieldNow(what);
  return !f->timedOut;
}

int wake(const void* addr, int n) {
  if (!R) return 0;
  int w = 0;
  if (n == 1) {
    static std::vector<Fiber*> ws;
    ws.clear();
    for (auto* f : gLive)
      if (f->st == St::Blocked && f->waitAddr == addr) ws.push_back(f);
    if (ws.empty()) return 0;
    uint64_t i = choose(Stream::Sched, "w", ws.size());
    ws[i]->st = St::Runnable;
    ws[i]->waitAddr = nullptr;
    return 1;
  }
  for (auto* f : gLive)
    if (f->st == St::Blocked && f->waitAddr == addr) {
      f->st = St::Runnable;
      f->waitAddr = nullptr;
      w++;
    }
  return w;
}

static void fiberMain() noexcept {
  Fiber* f = gCur;
  if (f->start)
    f->ret = f->start(f->arg);
  else {
    f->fn();
  }
  f->fn = nullptr;
  extern void runTsdDestructors(Fiber*);
  runTsdDestructors(f);
  hbThreadEnd(f);
  f->st = St::Done;
  gEnded.push_back(f);
  wake(f, -1);
  yieldNow("exit");
  abort();
}

Fiber* newFiber(int party) {
  auto* f = new Fiber;
  f->id = (int)gFibers.size();
  f->party = party;
  // reuse stacks of finished threads
  size_t sz = 1u << 20;
  if (!gEnded.empty() && gEnded.back() != gCur) {
    Fiber* d = gEnded.back();
    gEnded.pop_back();
    f->stack = d->stack;
    f->stackSize = d->stackSize;
    d->stack = nullptr;
  }
  if (!f->stack) {
    f->stack = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == MAP_FAILED) abort();
    mprotect(f->stack, 4096, PROT_NONE);
    f->stackSize = sz;
  }
  uintptr_t top = ((uintptr_t)f->stack + f->stackSize) & ~(uintptr_t)63;
  uint64_t* s = (uint64_t*)top;
  *--s = 0; // alignment / fake return address
  *--s = (uint64_t)(void*)&fiberMain;
  for (int i = 0; i < 6; i++) *--s = 0;
  --s;
  uint32_t mx;
  uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  ((uint32_t*)s)[0] = mx;
  ((uint32_t*)s)[1] = cw;
  f->sp = s;
  f->prio = R->replay ? 0 : (int64_t)R->rng[(int)Stream::Sched].below(1u << 20) + 1;
  gFibers.push_back(f);
  gLive.push_back(f);
  hbThreadStart(gCur, f);
  return f;
}

void armMemPreempt() {
  if (!R || !R->memP) {
    gNextMemPreempt = UINT64_MAX;
    return;
  }
  if (R->replay) {
    // next recorded index
    auto it = R->rep.find({(int)Stream::Sched, "m"});
    uint64_t best = UINT64_MAX;
    if (it != R->rep.end())
      for (auto& [o, v] : it->second)
        if (o > gMemAccess && o < best) best = o;
    gNextMemPreempt = best;
  } else {
    // long computations are preempted ever more rarely
    uint64_t mean = (100000 / R->memP) << std::min<uint64_t>(R->memDone++ / 800, 30);
    gNextMemPreempt = gMemAccess + 1 + R->rng[(int)Stream::Sched].below(2 * mean + 1);
  }
}
} // namespace k

// Called by the instrumentation when gMemAccess reaches gNextMemPreempt.
extern "C" void dsim_mem_preempt(bool ofRepo) {
  if (!gCur || !R || R->ended || gCur->noPreempt || !ofRepo) {
    // a place where the processor cannot be taken away: the next one is as good
    if (R && R->replay) armMemPreempt();
    else gNextMemPreempt = gMemAccess + 1;
    return;
  }
  int saved = errno;
  if (R->rec) fprintf(R->rec, "1 m %llu 1\n", (unsigned long long)gMemAccess);
  hashMix(0x3333);
  // force a real switch if somebody else can run
  uint64_t keep = gMemAccess;
  (void)keep;
  armMemPreempt();
  R->probes["mem_preemptions"]++;
  yieldNow("mem", true);
  errno = saved;
}

// ------------------------------------------------------------ public API
uint64_t wl(const char* key, uint64_t n) { return choose(Stream::Workload, key, n); }
bool wlp(const char* key, unsigned p) {
  uint64_t live = R->replay ? 0 : (R->rng[0].below(10000) < p ? 1 : 0);
  uint64_t v = chooseVal(Stream::Workload, key, 2, live);
  hashMix(v);
  return v;
}
uint64_t wlz(const char* key, uint64_t n, unsigned p0) {
  uint64_t live = 0;
  if (!R->replay && n > 1) live = R->rng[0].below(10000) < p0 ? 0 : 1 + R->rng[0].below(n - 1);
  uint64_t v = chooseVal(Stream::Workload, key, n, live);
  hashMix(v);
  return v;
}
uint64_t netChoice(const char* key, uint64_t n) { return choose(Stream::Net, key, n); }
uint64_t dataRand() { return R->data.next(); }
void setFaultRate(const char* kind, unsigned r) { R->rate[kind] = r; }
void setFaultBudget(unsigned n) { R->budget = n; }
void stopFaults() { R->faultsOn = false; }
uint64_t faultsInjected() { return R->totalFaults; }
uint64_t faultsInjected(const char* kind) {
  auto i = R->faultN.find(kind);
  return i == R->faultN.end() ? 0 : i->second;
}
bool fault(const char* kind) {
  if (!R || !R->faultsOn) return false;
  auto it = R->rate.find(kind);
  if (it == R->rate.end() || (it->second == 0 && !R->replay)) return false;
  // condition variables may wake up without a reason at any time: not a failure that would excuse anything
  bool benign = !strcmp(kind, "spurious_wakeup");
  if (!benign && R->totalFaults >= R->budget) return false;
  R->faultOpp[kind]++;
  uint64_t live = R->replay ? 0 : (R->rng[(int)Stream::Fault].below(10000) < it->second ? 1 : 0);
  uint64_t v = chooseVal(Stream::Fault, kind, 2, live);
  if (v) {
    R->faultN[kind]++;
    if (!benign) R->totalFaults++;
    hashMix(0xfa017 + R->faultN[kind]);
  }
  return v;
}
uint64_t faultValue(const char* kind, uint64_t n) {
  std::string s = std::string(kind) + ".v";
  return choose(Stream::Fault, s.c_str(), n);
}
void probe(const char* name, uint64_t by) {
  if (R && by) R->probes[name] += by;
}
void note(const std::string& s) {
  if (R->sample.size() < 2000) R->sample += s;
  if (gVerbose) fprintf(stderr, "[note] %s\n", s.c_str());
}
void event(const char* tag, uint64_t a, uint64_t b) {
  if (!R) return;
  for (const char* p = tag; *p; p++) hashMix(*p);
  hashMix(a);
  hashMix(b);
}
void fail(const char* cls, const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finishRun("violation", cls, b);
}
void pass() { finishRun("ok", "", ""); }
void partyGlobal(void* p, size_t n) { k::gPartyGlobals.push_back({(unsigned char*)p, n, {}}); }
int addParty(int id, std::function<void()> fn) {
  R->partyState[id] = 0;
  Fiber* f = newFiber(id);
  f->fn = [id, fn = std::move(fn)] {
    fn();
    if (R->partyState[id] == 0) R->partyState[id] = 1;
    event("party_done", id);
  };
  return f->id;
}
End runAll(const RunOptions& o) {
  R->opt = o;
  R->ended = false;
  gActive = true;
  armMemPreempt();
  yieldNow("start");
  gActive = false;
  gCur = nullptr;
  if (R->end == End::Deadlock || R->end == End::StepLimit || R->end == End::TimeLimit) {
    R->blocked.clear();
    for (auto* f : gFibers)
      if (f->st == St::Blocked || f->st == St::Runnable) {
        char b[160];
        snprintf(b, sizeof b, "thread %d of party %d: %s; ", f->id, f->party,
                 f->st == St::Blocked ? f->waitWhat : "runnable");
        R->blocked += b;
      }
  }
  return R->end;
}
const std::string& blockedReport() { return R->blocked; }
bool partyCrashed(int id) { return R->partyState[id] == 2; }
bool partyFinished(int id) { return R->partyState[id] == 1; }
void crashParty(int id, bool machine) {
  if (R->partyState[id] == 2 || R->pendingCrash.count(id)) return;
  R->pendingCrash[id] = machine;
  if (gCur && gCur->party == id) yieldNow("crash");
}
void stallParty(int id, uint64_t ns) {
  for (auto* f : gFibers)
    if (f->party == id && f->st != St::Done && f->st != St::Dead) {
      f->paused = true;
      f->pausedUntil = gNow + ns;
    }
  addEvent(gNow + ns, [id] {
    for (auto* f : gFibers)
      if (f->party == id && f->paused && f->pausedUntil <= gNow) f->paused = false;
  });
}
int curParty() { return gCur ? gCur->party : -1; }
uint64_t nowNs() { return gNow; }
uint64_t steps() { return gSteps; }
void yieldPoint(const char* w) {
  if (gCur) yieldNow(w);
}
void sleepNs(uint64_t ns) { block(&gNow, "sleep", (int64_t)ns); }
void at(uint64_t ns, std::function<void()> fn) { addEvent(gNow + ns, std::move(fn)); }
bool blockOn(const void* a, const char* w, int64_t t) { return block(a, w, t); }
void wakeAll(const void* a) { wake(a, -1); }
bool inFiber() { return gCur != nullptr; }
int liveThreads() {
  int n = 0;
  for (auto* f : gFibers)
    if (f->st != St::Done && f->st != St::Dead) n++;
  return n;
}
void setSchedPolicy(Policy p, unsigned sw, unsigned depth) {
  R->pol = p;
  R->switchP = sw;
  R->pctDepth = depth;
  R->nextChange = p == Policy::Pct ? 1 + R->rng[1].below(sw + 1) : 0;
}
void drawSchedPolicy() {
  // the instrumented build may also take the processor away at memory accesses
  if (instrumented()) {
    static const unsigned per100k[] = {0, 3, 30, 300, 3000, 20000};
    setMemPreempt(per100k[wl("mem_preempt", 6)]);
  }
  static const unsigned spurious[] = {0, 0, 30, 500};
  setFaultRate("spurious_wakeup", spurious[wl("spurious_wakeups", 4)]);
  // swarm: each run has its own style of schedule; irrelevant in replay (explicit choices)
  if (R->replay) return;
  auto& rg = R->rng[(int)Stream::Sched];
  switch (rg.below(8)) {
    case 0: setSchedPolicy(Policy::Default, 0, 0); break;
    case 1: setSchedPolicy(Policy::RandomWalk, 200, 0); break;
    case 2: setSchedPolicy(Policy::RandomWalk, 2000, 0); break;
    case 3: setSchedPolicy(Policy::RandomWalk, 8000, 0); break;
    case 4: setSchedPolicy(Policy::Pct, 30, 3); break;
    case 5: setSchedPolicy(Policy::Pct, 300, 3); break;
    case 6: setSchedPolicy(Policy::Starve, 50, 0); break;
    case 7: setSchedPolicy(Policy::Starve, 1000, 0); break;
  }
}
void setMemPreempt(unsigned p) {
  R->memP = p;
  armMemPreempt();
}
void setRaceCheck(bool on) { R->raceCheck = on; }
bool raceCheckOn() { return R && R->raceCheck; }
void entropy(void* buf, size_t n) {
  auto* p = (unsigned char*)buf;
  static uint64_t w = 0;
  static int have = 0;
  while (n--) {
    if (!have) {
      w = R ? R->ent.next() : 0x1234567;
      have = 8;
    }
    *p++ = (unsigned char)w;
    w >>= 8;
    have--;
  }
}
std::string scratchDir() {
  if (R->scratch.empty()) {
    R->scratch = gScratchBase;
    mkdir(R->scratch.c_str(), 0700);
  }
  return R->scratch;
}
HarnessReg::HarnessReg(const char* n, void (*f)()) { gH[gNH++] = {n, f}; }
int64_t param(const char* name, int64_t d) {
  for (int i = 0; i < gNParams; i++)
    if (!strcmp(gParams[i][0], name)) return atoll(gParams[i][1]);
  return d;
}

// ------------------------------------------------------------ driver
static char gAlt[65536];
static void onCrash(int sig, siginfo_t* si, void*) {
  static int again = 0;
  if (again++) _exit(96);
  char b[160];
  snprintf(b, sizeof b, "signal %d (%s) in thread %d of party %d at sim time %llu ns", sig,
           strsignal(sig), gCur ? gCur->id : -1, gCur ? gCur->party : -1,
           (unsigned long long)gNow);
  (void)si;
  finishRun("violation",
            sig == SIGABRT ? "process-abort" : sig == SIGPROF ? "cpu-hang" : "process-crash", b);
}
static void onTerminate() {
  std::string m = "std::terminate";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (const std::exception& x) {
      m += std::string(" with uncaught ") + typeid(x).name() + ": " + x.what();
    } catch (...) {
      m += " with uncaught exception";
    }
  }
  char b[80];
  snprintf(b, sizeof b, " (thread %d of party %d)", gCur ? gCur->id : -1, gCur ? gCur->party : -1);
  finishRun("violation", "process-abort", m + b);
}

static void loadReplay(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) {
    fprintf(stderr, "cannot open %s\n", path);
    exit(2);
  }
  int s;
  char key[128];
  unsigned long long o, v;
  while (fscanf(f, "%d %127s %llu %llu", &s, key, &o, &v) == 4) R->rep[{s, key}][o] = v;
  fclose(f);
}

static void rmTree(const char* p) {
  DIR* d = opendir(p);
  if (d) {
    while (auto* e = readdir(d)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      char b[1024];
      snprintf(b, sizeof b, "%s/%s", p, e->d_name);
      struct stat st;
      if (lstat(b, &st) == 0 && S_ISDIR(st.st_mode))
        rmTree(b);
      else
        unlink(b);
    }
    closedir(d);
  }
  rmdir(p);
}
void installEntropy();

static void childRun(void (*fn)(), uint64_t seed, const char* replay, const char* record,
                     unsigned cpuSec) {
  stack_t ss{};
  ss.ss_sp = gAlt;
  ss.ss_size = sizeof gAlt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = onCrash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  struct itimerval it {};
  it.it_value.tv_sec = cpuSec;
  setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl {24ull << 30, 24ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  std::set_terminate(onTerminate);
  R = new Run;
  R->seed = seed;
  for (int i = 0; i < 4; i++) {
    Rng t{seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 1};
    t.next();
    R->rng[i].s = t.next();
  }
  R->data.s = seed ^ 0xda7ada7a;
  R->data.next();
  R->ent.s = seed ^ 0xe97e0b1;
  R->ent.next();
  if (replay) {
    R->replay = true;
    loadReplay(replay);
  }
  if (record) R->rec = fopen(record, "w");
  srand((unsigned)seed);
  netReset();
  filesReset();
  hbReset();
  installEntropy();
  try {
    fn();
  } catch (const std::exception& e) {
    finishRun("violation", "unexpected-exception", e.what());
  }
  finishRun("ok", "", "");
}
} // namespace dsim

using namespace dsim;

int main(int argc, char** argv) {
  // fixed address space layout: one seed is one execution
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DSIM_NOASLR")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("DSIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  mallopt(M_PERTURB, 0xA5);
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 25);
  const char *h = nullptr, *replay = nullptr, *record = nullptr;
  uint64_t seed0 = 1, runs = 1;
  double secs = 0;
  int jobs = 1;
  unsigned cpu = 20;
  const char* scratch = "/tmp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
    if (a == "--harness") h = nx();
    else if (a == "--seed") seed0 = strtoull(nx(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(nx(), nullptr, 10);
    else if (a == "--secs") secs = atof(nx());
    else if (a == "--jobs") jobs = atoi(nx());
    else if (a == "--cpu") cpu = atoi(nx());
    else if (a == "--replay") replay = nx();
    else if (a == "--record") record = nx();
    else if (a == "--scratch") scratch = nx();
    else if (a == "-v") gVerbose = true;
    else if (a == "-D") {
      char* kv = nx();
      char* eq = strchr(kv, '=');
      if (eq && gNParams < 64) {
        snprintf(gParams[gNParams][0], 64, "%.*s", (int)(eq - kv), kv);
        snprintf(gParams[gNParams][1], 64, "%s", eq + 1);
        gNParams++;
      }
    } else if (a == "--list") {
      for (int j = 0; j < gNH; j++) puts(gH[j].name);
      return 0;
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  void (*fn)() = nullptr;
  for (int j = 0; j < gNH; j++)
    if (h && !strcmp(gH[j].name, h)) {
      fn = gH[j].fn;
      gHarnessName = gH[j].name;
    }
  if (!fn) {
    fprintf(stderr, "no such harness\n");
    return 2;
  }
  if (jobs > 64) jobs = 64;
  char* shm = (char*)mmap(nullptr, kSlot * jobs, PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static pid_t pid[64];
  static uint64_t sd[64];
  static char sdir[64][256];
  struct timespec t0, t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
  uint64_t next = 0;
  int active = 0;
  bool stop = false;
  fflush(stdout);
  for (;;) {
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    double el = (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9;
    if (secs > 0 && el >= secs) stop = true;
    if (next >= runs) stop = true;
    if (!stop && active < jobs) {
      int s = 0;
      while (pid[s]) s++;
      *(uint64_t*)(shm + kSlot * s) = 0;
      sd[s] = seed0 + next++;
      // the path must have the same length in every process: it ends up in strings
      snprintf(sdir[s], sizeof sdir[s], "%s/dsim.%08d.%02d", scratch, (int)getpid(), s);
      pid_t p = fork();
      if (p == 0) {
        gSlot = shm + kSlot * s;
        snprintf(gScratchBase, sizeof gScratchBase, "%s", sdir[s]);
        if (!gVerbose) {
          int dn = open("/dev/null", O_WRONLY);
          dup2(dn, 1);
          dup2(dn, 2);
          syscall(SYS_close, dn);
        }
        childRun(fn, sd[s], replay, record, cpu);
        _exit(0);
      }
      pid[s] = p;
      active++;
      continue;
    }
    if (!active) break;
    int st;
    pid_t p = (pid_t)syscall(SYS_wait4, -1, &st, 0, nullptr);
    for (int s = 0; s < jobs; s++)
      if (pid[s] && pid[s] == p) {
        pid[s] = 0;
        active--;
        char* sl = shm + kSlot * s;
        uint64_t n = *(uint64_t*)sl;
        if (n) {
          sl[8 + n] = '\n';
          size_t off = 0;
          while (off < n + 1) {
            long w = syscall(SYS_write, 1, sl + 8 + off, n + 1 - off);
            if (w <= 0) break;
            off += w;
          }
        } else {
          char b[256];
          int m = snprintf(b, sizeof b,
                           "{\"status\":\"died\",\"class\":\"process-died\",\"msg\":\"wait status %d\",\"seed\":%llu,\"hash\":\"0\",\"sched\":\"0\",\"steps\":0,\"switches\":0,\"sim_ns\":0,\"faults\":{},\"probes\":{},\"sample\":\"\"}\n",
                           st, (unsigned long long)sd[s]);
          syscall(SYS_write, 1, b, m);
        }
        struct stat sb;
        if (lstat(sdir[s], &sb) == 0) rmTree(sdir[s]);
      }
  }
  return 0;
}
