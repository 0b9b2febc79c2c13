// Interposed threading, time and process services. In a simulated run they operate on
// fibers and simulated time; outside one (single-threaded set-up) they are trivial.
#include <errno.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include "kernel.h"

using namespace dsim;
using namespace dsim::k;

namespace {
constexpr uint64_t kEpoch = 1800000000ull * 1000000000ull; // 2027-01-15: simulated wall clock
struct RW {
  int writer = -1;
  int readers = 0;
};
std::unordered_map<const void*, RW>& rws() {
  static auto* m = new std::unordered_map<const void*, RW>;
  return *m;
}
int self() { return gCur ? gCur->id + 1 : 0x7fff; }
bool sim() { return gActive && gCur; }
} // namespace

#define EXP extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------ threads
EXP int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!gActive) {
    fprintf(stderr, "dsim: thread created outside a run\n");
    abort();
  }
  if (fault("thread_create_fail")) return EAGAIN;
  Fiber* f = newFiber(gCur ? gCur->party : -1);
  f->start = fn;
  f->arg = arg;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    f->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  *t = (pthread_t)(uintptr_t)(f->id + 1);
  probe("threads");
  yieldNow("pthread_create");
  return 0;
}
EXP pthread_t pthread_self(void) noexcept { return (pthread_t)(uintptr_t)self(); }
EXP int pthread_join(pthread_t t, void** ret) {
  size_t id = (size_t)(uintptr_t)t - 1;
  if (id >= gFibers.size()) return ESRCH;
  Fiber* f = gFibers[id];
  if (f == gCur) return EDEADLK;
  if (f->joined || f->detached) return EINVAL;
  yieldNow("join");
  while (f->st != St::Done) block(f, "pthread_join", -1);
  f->joined = true;
  hbJoin(f);
  if (ret) *ret = f->ret;
  return 0;
}
EXP int pthread_detach(pthread_t t) noexcept {
  size_t id = (size_t)(uintptr_t)t - 1;
  if (id >= gFibers.size()) return ESRCH;
  gFibers[id]->detached = true;
  return 0;
}
EXP int sched_yield(void) noexcept {
  if (sim()) yieldNow("sched_yield", true);
  return 0;
}

// thread-specific data
namespace {
bool keyUsed[kMaxKeys];
void (*keyDtor[kMaxKeys])(void*);
void* mainTsd[kMaxKeys];
} // namespace
EXP int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {
  for (int i = 0; i < kMaxKeys; i++)
    if (!keyUsed[i]) {
      keyUsed[i] = true;
      keyDtor[i] = d;
      *k = i;
      return 0;
    }
  return EAGAIN;
}
EXP int pthread_key_delete(pthread_key_t k) noexcept {
  if (k >= kMaxKeys) return EINVAL;
  keyUsed[k] = false;
  return 0;
}
EXP void* pthread_getspecific(pthread_key_t k) noexcept {
  if (k >= kMaxKeys) return nullptr;
  return gCur ? gCur->tsd[k] : mainTsd[k];
}
EXP int pthread_setspecific(pthread_key_t k, const void* v) noexcept {
  if (k >= kMaxKeys) return EINVAL;
  (gCur ? gCur->tsd : mainTsd)[k] = const_cast<void*>(v);
  return 0;
}
namespace dsim::k {
void runTsdDestructors(Fiber* f) {
  for (int r = 0; r < 4; r++)
    for (int i = 0; i < kMaxKeys; i++)
      if (keyUsed[i] && keyDtor[i] && f->tsd[i]) {
        void* v = f->tsd[i];
        f->tsd[i] = nullptr;
        keyDtor[i](v);
      }
}
} // namespace dsim::k

// ------------------------------------------------------------------ mutex
static inline int& mOwner(pthread_mutex_t* m) { return m->__data.__owner; }
static inline unsigned& mCount(pthread_mutex_t* m) { return m->__data.__count; }

static int lockSlow(pthread_mutex_t* m, int64_t timeout) {
  int me = self();
  if (mOwner(m) == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
    mCount(m)++;
    return 0;
  }
  if (mOwner(m) == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
  if (!sim()) {
    mOwner(m) = me;
    mCount(m) = 1;
    return 0;
  }
  if (timeout != 0) yieldNow("mutex_lock");
  uint64_t dl = gNow + (timeout > 0 ? timeout : 0);
  while (mOwner(m)) {
    if (timeout == 0) return EBUSY;
    int64_t left = -1;
    if (timeout > 0) {
      if (gNow >= dl) return ETIMEDOUT;
      left = dl - gNow;
    }
    probe("mutex_contended");
    block(m, "mutex", left);
  }
  mOwner(m) = me;
  mCount(m) = 1;
  hbAcquire(m);
  return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return lockSlow(m, -1); }
EXP int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return lockSlow(m, 0); }
static int64_t absTo(clockid_t c, const struct timespec* ts) {
  uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  uint64_t now = gNow + (c == CLOCK_REALTIME ? kEpoch : 1000000000ull);
  return t <= now ? 1 : (int64_t)(t - now);
}
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept {
  return lockSlow(m, absTo(CLOCK_REALTIME, ts));
}
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept {
  return lockSlow(m, absTo(c, ts));
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (mCount(m) > 1) {
    mCount(m)--;
    return 0;
  }
  if (sim()) hbRelease(m);
  mCount(m) = 0;
  mOwner(m) = 0;
  if (sim()) {
    wake(m, -1);
    yieldNow("mutex_unlock");
  }
  return 0;
}

// ------------------------------------------------------------------ condition variables
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t timeout) {
  if (!sim()) {
    fprintf(stderr, "dsim: condition wait outside a run\n");
    abort();
  }
  unsigned cnt = mCount(m);
  hbRelease(m);
  mCount(m) = 0;
  mOwner(m) = 0;
  wake(m, -1);
  bool spur = fault("spurious_wakeup");
  int64_t t = timeout;
  if (spur) {
    int64_t s = (int64_t)faultValue("spurious_wakeup", 5'000'000) + 1;
    if (t < 0 || s < t) t = s;
    else spur = false;
  }
  bool woken = block(c, "condition variable", t);
  if (woken) hbAcquire(c);
  while (mOwner(m)) block(m, "mutex", -1);
  mOwner(m) = self();
  mCount(m) = cnt ? cnt : 1;
  hbAcquire(m);
  if (!woken && !spur) return ETIMEDOUT;
  return 0;
}
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1); }
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return condWait(c, m, absTo(CLOCK_REALTIME, ts));
}
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  return condWait(c, m, absTo(ck, ts));
}
EXP int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (sim()) {
    hbRelease(c);
    wake(c, 1);
    yieldNow("cond_signal");
  }
  return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (sim()) {
    hbRelease(c);
    wake(c, -1);
    yieldNow("cond_broadcast");
  }
  return 0;
}
EXP int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

// ------------------------------------------------------------------ rwlock
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
  RW& r = rws()[l];
  while (r.writer != -1 && sim()) block(l, "rwlock", -1);
  r.readers++;
  if (sim()) hbAcquire(l);
  return 0;
}
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
  RW& r = rws()[l];
  if (r.writer != -1) return EBUSY;
  r.readers++;
  if (sim()) hbAcquire(l);
  return 0;
}
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
  RW& r = rws()[l];
  while ((r.writer != -1 || r.readers) && sim()) block(l, "rwlock", -1);
  r.writer = self();
  if (sim()) hbAcquire(l);
  return 0;
}
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept {
  RW& r = rws()[l];
  if (r.writer != -1 || r.readers) return EBUSY;
  r.writer = self();
  if (sim()) hbAcquire(l);
  return 0;
}
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  RW& r = rws()[l];
  if (sim()) hbRelease(l);
  if (r.writer != -1)
    r.writer = -1;
  else if (r.readers)
    r.readers--;
  if (sim()) wake(l, -1);
  return 0;
}
EXP int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept {
  rws().erase(l);
  return 0;
}
EXP int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept {
  rws().erase(l);
  return 0;
}

// ------------------------------------------------------------------ once & static guards
EXP int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  volatile int* s = (volatile int*)o;
  for (;;) {
    if (*s == 2) {
      if (sim()) hbAcquire(o);
      return 0;
    }
    if (*s == 0) break;
    if (!sim()) {
      fprintf(stderr, "dsim: recursive once\n");
      abort();
    }
    block(o, "once", -1);
  }
  *s = 1;
  Fiber* me = gCur;
  // A background task runs inside a once of its own future: only process-wide ones
  // (static storage) keep a simulated crash from striking.
  extern char __data_start, _end;
  bool global = ((char*)o >= &__data_start && (char*)o < &_end) || (uintptr_t)o > 0x7ff000000000ull;
  if (global && me) me->globalDepth++;
  struct Undo {
    volatile int* s;
    Fiber* me;
    bool global, ok = false;
    pthread_once_t* o;
    ~Undo() {
      if (global && me) me->globalDepth--;
      *s = ok ? 2 : 0;
      if (sim()) {
        hbRelease(o);
        wake(o, -1);
      }
    }
  } u{s, me, global, false, o};
  fn();
  u.ok = true;
  return 0;
}
extern "C" int dsim_guard_acquire(uint64_t* g) asm("__cxa_guard_acquire");
extern "C" void dsim_guard_release(uint64_t* g) asm("__cxa_guard_release");
extern "C" void dsim_guard_abort(uint64_t* g) asm("__cxa_guard_abort");
int dsim_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  for (;;) {
    if (b[0]) {
      if (sim()) hbAcquire(g);
      return 0;
    }
    if (!b[1]) break;
    if (!sim()) {
      fprintf(stderr, "dsim: recursive static initialisation\n");
      abort();
    }
    block(g, "static initialisation", -1);
  }
  b[1] = 1;
  if (gCur) gCur->globalDepth++;
  return 1;
}
static void guardEnd(uint64_t* g, char done) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  b[0] = done;
  if (gCur) gCur->globalDepth--;
  if (sim()) {
    hbRelease(g);
    wake(g, -1);
  }
}
void dsim_guard_release(uint64_t* g) { guardEnd(g, 1); }
void dsim_guard_abort(uint64_t* g) { guardEnd(g, 0); }

// ------------------------------------------------------------------ std::future's futex
static bool futexWait(unsigned* addr, unsigned val, bool has, int64_t s, int64_t ns, uint64_t off) {
  if (!sim()) return true;
  int64_t to = -1;
  if (has) {
    uint64_t t = (uint64_t)s * 1000000000ull + ns, now = gNow + off;
    if (t <= now) return false;
    to = t - now;
  }
  yieldNow("future_wait");
  bool ok = true;
  if (*(volatile unsigned*)addr == val) ok = block(addr, "future", to);
  hbAcquire(addr);
  return ok;
}
EXP bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool h, int64_t s, int64_t ns) {
  return futexWait(a, v, h, s, ns, kEpoch);
}
EXP bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool h, int64_t s, int64_t ns) {
  return futexWait(a, v, h, s, ns, 1000000000ull);
}
EXP void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) {
  if (!sim()) return;
  hbRelease(a);
  wake(a, -1);
  yieldNow("future_set");
}

// ------------------------------------------------------------------ time
EXP int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (!gActive) return (int)syscall(SYS_clock_gettime, c, ts);
  uint64_t t = gNow + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? kEpoch : 1000000000ull);
  gNow += 50;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
EXP int gettimeofday(struct timeval* tv, void*) noexcept {
  uint64_t t = gNow + kEpoch;
  tv->tv_sec = t / 1000000000ull;
  tv->tv_usec = t % 1000000000ull / 1000;
  return 0;
}
EXP time_t time(time_t* o) noexcept {
  time_t t = (time_t)((gNow + kEpoch) / 1000000000ull);
  if (o) *o = t;
  return t;
}
static int doSleep(uint64_t ns) {
  if (sim()) {
    static int sleepAddr;
    block(&sleepAddr, "sleep", (int64_t)ns);
  }
  return 0;
}
EXP int nanosleep(const struct timespec* r, struct timespec* rem) {
  uint64_t ns = (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec; // r and rem may be the same object
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return doSleep(ns);
}
EXP int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
  if (flags & TIMER_ABSTIME) return doSleep(absTo(c, r));
  uint64_t ns = (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec;
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return doSleep(ns);
}
EXP int usleep(useconds_t u) { return doSleep((uint64_t)u * 1000); }
EXP unsigned sleep(unsigned s) {
  doSleep((uint64_t)s * 1000000000ull);
  return 0;
}
