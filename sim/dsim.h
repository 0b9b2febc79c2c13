// Deterministic simulator: public interface used by harnesses and by stub libraries.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace dsim {

// ---------------------------------------------------------------- decisions
// Every nondeterministic choice goes through choose(): 0 is the benign / simplest
// choice. In live mode it is drawn from the seeded generator; in replay mode it is looked
// up in the replay file (absent means 0).
enum class Stream { Workload, Sched, Net, Fault };
uint64_t wl(const char* key, uint64_t n); // workload choice in [0,n)
// true with probability p/10000 (simplest: false)
bool wlp(const char* key, unsigned per10k);
// workload choice weighting 0 with probability p0/10000, otherwise uniform in [1,n)
uint64_t wlz(const char* key, uint64_t n, unsigned p0);
uint64_t netChoice(const char* key, uint64_t n);
// Data randomness that is not minimised (input values): splitmix of run seed.
uint64_t dataRand();

// ---------------------------------------------------------------- faults
// rates are per 10000 opportunities; kinds are free-form static strings.
void setFaultRate(const char* kind, unsigned per10k);
void setFaultBudget(unsigned n); // at most n faults in the run (default unlimited)
bool fault(const char* kind); // is a fault of that kind injected at this opportunity?
uint64_t faultValue(const char* kind, uint64_t n); // parameter of an injected fault
void stopFaults(); // from now on nothing is injected
uint64_t faultsInjected();
uint64_t faultsInjected(const char* kind);

// ---------------------------------------------------------------- observations
void probe(const char* name, uint64_t by = 1); // sometimes-assertions / coverage counters
void note(const std::string& s); // appended to the run's sample description
void event(const char* tag, uint64_t a = 0, uint64_t b = 0); // goes into the trace hash
// Reports a violation of the property and ends the run.
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define DSIM_CHECK(cond, cls, ...)     \
  do {                                 \
    if (!(cond))                       \
      ::dsim::fail(cls, __VA_ARGS__);  \
  } while (0)

// ---------------------------------------------------------------- threads & parties
struct RunOptions {
  uint64_t maxSteps = 4'000'000; // scheduling points before the run counts as livelocked
  uint64_t maxSimNs = 0; // 0 = unlimited
};
// A party is a simulated process: all threads it creates belong to it.
int addParty(int id, std::function<void()> mainFn);
// A process-wide variable of the code under test (zero-initialised, movable by copying its bytes) that each
// simulated process is to have for itself.
void partyGlobal(void* p, size_t n);
// Plain thread in the simulator's own "party" -1
enum class End { Done, Deadlock, StepLimit, TimeLimit };
End runAll(const RunOptions& o = {});
const std::string& blockedReport(); // who is blocked on what, after Deadlock
bool partyCrashed(int id);
bool partyFinished(int id);
void crashParty(int id, bool machine); // kill (process) / power loss (machine)
void stallParty(int id, uint64_t ns); // the party's threads get no processor for ns
int curParty();
uint64_t nowNs();
uint64_t steps();
void yieldPoint(const char* what);
void sleepNs(uint64_t ns);
void at(uint64_t ns, std::function<void()> fn); // timed event in kernel context
// block/wake on an address
bool blockOn(const void* addr, const char* what, int64_t timeoutNs = -1);
void wakeAll(const void* addr);
bool inFiber();
int liveThreads();

enum class Policy { Default, RandomWalk, Pct, Starve };
// draws a scheduling policy from the workload stream
void drawSchedPolicy();
void setSchedPolicy(Policy p, unsigned switchPer10k, unsigned depth);
void setMemPreempt(unsigned per100k); // preemption at instrumented memory accesses
void setRaceCheck(bool on);
bool instrumented();

// ---------------------------------------------------------------- network
struct NetConfig {
  uint64_t minDelayNs = 20'000;
  uint64_t maxDelayNs = 200'000;
  uint64_t sndBuf = 256 * 1024; // per direction: unread + in flight
  uint64_t maxSegment = 64 * 1024; // largest segment
  unsigned shortReadPer10k = 0; // return fewer bytes than available
};
NetConfig& net();
void drawNetConfig();
void hostName(int id, const char* name); // extra name for party id's host
void occupyPort(int party, int port);
uint64_t netBytes(int from, int to); // bytes accepted from application, per ordered pair
uint64_t netPayloadDelivered();
void setWireTap(std::function<void(int from, int to, const uint8_t*, size_t)> f);
void resetConnection(int a, int b, bool rst); // break all established links a<->b
int openConnections();
int openSockets(int party); // descriptors of simulated sockets that a party still holds
int openAddressLists(); // getaddrinfo results not yet freed
int openFiles(); // tracked files still open

// ---------------------------------------------------------------- entropy
void partyEntropyReset(); // start of run
void entropy(void* buf, size_t n);
// faults "entropy_fail" (no randomness) and "crypto_fail" (calls into the cryptographic library)
struct CryptoFailures {
  int main = 0, background = 0; // by the party's main thread, by others
  std::string what;
};
CryptoFailures cryptoFailures(int party);
// only calls of this function ("": of any) by this party (-1: any) fail, and only the one with this number (-1: any)
void cryptoFailOnly(const char* fn, int party, int64_t nth);
std::string liveCryptoObjects(); // numbers, points, groups and contexts not yet freed
[[noreturn]] void pass(); // ends the run without a violation
// ---------------------------------------------------------------- files
std::string scratchDir(); // per-run directory, removed afterwards
void trackFiles(const std::string& prefix); // inject file faults below prefix
// ---------------------------------------------------------------- harness registry
struct HarnessReg {
  HarnessReg(const char* name, void (*fn)());
};
#define DSIM_HARNESS(name)                                  \
  static void dsim_harness_##name();                        \
  static ::dsim::HarnessReg dsim_reg_##name(#name, dsim_harness_##name); \
  static void dsim_harness_##name()

// value of a -D style harness parameter given on the command line (or default)
int64_t param(const char* name, int64_t dflt);
} // namespace dsim
