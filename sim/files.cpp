// File faults: real files below the run's scratch directory, with failures injected at the
// calls libstdc++ makes (fopen/read/write/writev/fclose).
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <set>
#include <string>
#include <vector>
#include "kernel.h"

using namespace dsim;
using namespace dsim::k;
#define EXP extern "C" __attribute__((visibility("default")))

namespace {
struct F {
  std::string prefix;
  std::set<int> fds;
  bool full = false;
};
F* S = nullptr;
bool tracked(int fd) { return gActive && S && S->fds.count(fd); }
} // namespace

namespace dsim {
void trackFiles(const std::string& p) { S->prefix = p; }
int openFiles() {
  // a stream may also be closed by the library without passing here
  for (auto i = S->fds.begin(); i != S->fds.end();) i = syscall(SYS_fcntl, *i, F_GETFD) < 0 ? S->fds.erase(i) : std::next(i);
  return (int)S->fds.size();
}
namespace k {
void filesReset() { S = new F; }
ssize_t fileRead(int fd, void* b, size_t n) {
  if (tracked(fd)) {
    if (gCur) yieldNow("file_read");
    if (fault("file_read_eio")) {
      errno = EIO;
      return -1;
    }
    if (n > 1 && fault("file_short_read")) n = 1 + faultValue("file_short_read", n - 1);
  }
  ssize_t r = syscall(SYS_read, fd, b, n);
  if (tracked(fd)) event("file_rd", fd, r);
  return r;
}
static int wrFault(size_t& n) {
  if (S->full || fault("file_enospc")) {
    S->full = true;
    errno = ENOSPC;
    return -1;
  }
  if (fault("file_write_eio")) {
    errno = EIO;
    return -1;
  }
  if (n > 1 && fault("file_short_write")) n = 1 + faultValue("file_short_write", n - 1);
  return 0;
}
ssize_t fileWrite(int fd, const void* b, size_t n) {
  if (tracked(fd)) {
    if (gCur) yieldNow("file_write");
    if (wrFault(n)) return -1;
    event("file_wr", fd, n);
  }
  return syscall(SYS_write, fd, b, n);
}
int fileClose(int fd) {
  if (S) S->fds.erase(fd);
  return (int)syscall(SYS_close, fd);
}
int fileFclose(FILE* f, int (*real)(FILE*)) {
  if (f && gActive) {
    int fd = fileno(f);
    if (fd >= 0 && tracked(fd)) {
      S->fds.erase(fd);
      if (gCur) yieldNow("file_close");
      bool bad = fault("file_close_eio");
      int r = real(f);
      if (bad) {
        errno = EIO;
        return EOF;
      }
      return r;
    }
  }
  return real(f);
}
} // namespace k
} // namespace dsim
EXP ssize_t writev(int fd, const struct iovec* v, int c) {
  if (tracked(fd)) {
    std::vector<char> all;
    for (int i = 0; i < c; i++) all.insert(all.end(), (char*)v[i].iov_base, (char*)v[i].iov_base + v[i].iov_len);
    size_t n = all.size();
    if (gCur) yieldNow("file_write");
    if (wrFault(n)) return -1;
    event("file_wrv", fd, n);
    return syscall(SYS_write, fd, all.data(), n);
  }
  return syscall(SYS_writev, fd, v, c);
}
static FILE* doOpen(const char* path, const char* mode, const char* sym) {
  auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, sym);
  bool t = gActive && S && !S->prefix.empty() && !strncmp(path, S->prefix.c_str(), S->prefix.size());
  if (t) {
    if (gCur) yieldNow("file_open");
    if (fault("file_open_fail")) {
      errno = EACCES;
      return nullptr;
    }
  }
  FILE* f = real(path, mode);
  if (t && f) S->fds.insert(fileno(f));
  return f;
}
EXP FILE* fopen(const char* p, const char* m) { return doOpen(p, m, "fopen"); }
EXP FILE* fopen64(const char* p, const char* m) { return doOpen(p, m, "fopen64"); }
