// Instrumented build: the compiler reports every memory access of the code under test (-fsanitize=thread, without the
// sanitizer's runtime); each one of them is a point where the seeded scheduler may take the processor away.
#include <elf.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <vector>
#include "kernel.h"
extern "C" void dsim_mem_preempt(bool ofRepo);
namespace dsim {
bool instrumented() { return true; }
namespace k {
void hbAcquire(const void*) {}
void hbRelease(const void*) {}
void hbThreadStart(Fiber*, Fiber*) {}
void hbThreadEnd(Fiber*) {}
void hbJoin(Fiber*) {}
void hbReset() {}

// Only functions of the code under test are preempted, so that the harness' own records stay consistent.
struct Range {
  uintptr_t b, e;
};
static std::vector<Range>* gRepo;
__attribute__((constructor)) static void loadSymbols() {
  gRepo = new std::vector<Range>;
  __libc_single_threaded = 0; // reference counts must be updated atomically: fibers stand for threads
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) return;
  char* m = (char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  auto* eh = (Elf64_Ehdr*)m;
  auto* sh = (Elf64_Shdr*)(m + eh->e_shoff);
  uintptr_t base = 0;
  const Elf64_Sym* self = nullptr;
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    const char* str = m + sh[sh[i].sh_link].sh_offset;
    auto* sy = (Elf64_Sym*)(m + sh[i].sh_offset);
    for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++) {
      if (ELF64_ST_TYPE(sy[k].st_info) != STT_FUNC || !sy[k].st_size) continue;
      const char* n = str + sy[k].st_name;
      if (!strcmp(n, "dsim_mem_preempt")) self = &sy[k];
      const char* p = n;
      if (strncmp(p, "_Z", 2)) continue;
      p += 2;
      while (*p == 'Z' || *p == 'N' || *p == 'K') p++;
      if (strncmp(p, "5fbpcf", 6)) continue;
      gRepo->push_back({sy[k].st_value, sy[k].st_value + sy[k].st_size});
    }
  }
  if (self) base = (uintptr_t)&dsim_mem_preempt - self->st_value;
  for (auto& r : *gRepo) r.b += base, r.e += base;
  std::sort(gRepo->begin(), gRepo->end(), [](auto& a, auto& b) { return a.b < b.b; });
  munmap(m, st.st_size);
}
static bool ofRepo(uintptr_t pc) {
  auto it = std::upper_bound(gRepo->begin(), gRepo->end(), pc, [](uintptr_t p, const Range& r) { return p < r.b; });
  return it != gRepo->begin() && pc <= (--it)->e;
}
__attribute__((noinline)) static void slow(void* pc) { dsim_mem_preempt(ofRepo((uintptr_t)pc)); }
} // namespace k
} // namespace dsim
using namespace dsim::k;
#define HIT() \
  if (gActive && ++gMemAccess >= gNextMemPreempt) slow(__builtin_return_address(0))
#define ACC(n) \
  void __tsan_##n(void*) { HIT(); }
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16) ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16)
ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(vptr_read)
void __tsan_vptr_update(void**, void*) {}
void __tsan_read_range(void*, unsigned long) { HIT(); }
void __tsan_write_range(void*, unsigned long) { HIT(); }
#define ATOMIC(N) \
  a##N __tsan_atomic##N##_load(const volatile a##N* p, int) { HIT(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile a##N* p, a##N v, int) { HIT(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_exchange(volatile a##N* p, a##N v, int) { HIT(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_fetch_add(volatile a##N* p, a##N v, int) { HIT(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_fetch_sub(volatile a##N* p, a##N v, int) { HIT(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_fetch_and(volatile a##N* p, a##N v, int) { HIT(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_fetch_or(volatile a##N* p, a##N v, int) { HIT(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_fetch_xor(volatile a##N* p, a##N v, int) { HIT(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  a##N __tsan_atomic##N##_fetch_nand(volatile a##N* p, a##N v, int) { HIT(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile a##N* p, a##N* e, a##N v, int, int) { \
    HIT(); \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile a##N* p, a##N* e, a##N v, int, int) { \
    HIT(); \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N* p, a##N e, a##N v, int, int) { \
    HIT(); \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    return e; \
  }
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
