// Simulated TCP at the libc boundary. File descriptors 500..1019 are simulated.
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "kernel.h"

using namespace dsim;
using namespace dsim::k;
#define EXP extern "C" __attribute__((visibility("default")))

namespace {
constexpr int kBase = 500, kMax = 1020;

struct Conn;
// One endpoint of an established connection.
struct End_ {
  Conn* c = nullptr;
  int side = 0;
  int party = -1;
  int refs = 0;
  std::deque<uint8_t> rx; // delivered, unread
  uint64_t inFlightToMe = 0;
  bool rxEof = false; // FIN delivered
  bool rstSeen = false; // connection reset delivered to this side
  int err = 0; // pending error
  bool closed = false; // application closed every descriptor
  bool wrShut = false;
  bool cutOff = false; // nothing more arrives before the reset
  uint64_t lastDeliver = 0; // ordering of events towards this side
};
struct Conn {
  int id;
  End_ e[2];
  bool dead = false; // reset
};
struct Sock {
  enum Kind { Fresh, Bound, Listening, Connected } kind = Fresh;
  int party = -1;
  int port = 0;
  int backlog = 1;
  int refs = 1;
  std::deque<std::pair<Conn*, int>> acceptQ;
  End_* end = nullptr;
};
struct Net {
  NetConfig cfg;
  std::map<int, Sock*> fds;
  std::map<std::pair<int, int>, Sock*> ports; // (party, port) -> bound socket
  std::set<std::pair<int, int>> occupied;
  std::vector<Conn*> conns;
  std::map<std::string, int> names;
  std::map<std::pair<int, int>, uint64_t> bytes;
  std::function<void(int, int, const uint8_t*, size_t)> tap;
  uint64_t delivered = 0;
  int eph = 40000;
  int nconn = 0;
};
Net* N = nullptr;
int gAddrLists = 0;

bool isSim(int fd) { return N && fd >= kBase && fd < kMax && N->fds.count(fd); }
int allocFd(Sock* s) {
  for (int f = kBase; f < kMax; f++)
    if (!N->fds.count(f)) {
      N->fds[f] = s;
      return f;
    }
  return -1;
}
uint64_t delay() {
  auto& c = N->cfg;
  uint64_t span = c.maxDelayNs > c.minDelayNs ? c.maxDelayNs - c.minDelayNs : 0;
  uint64_t d = c.minDelayNs;
  // 0 is the common case "minimal delay"; 64 steps over the range keep traces small
  uint64_t k = netChoice("delay", 64);
  d += span / 63 * k;
  if (fault("net_slow_segment")) d += 1'000'000ull * (1 + faultValue("net_slow_segment", 2000));
  return d;
}
void* rdKey(End_* e) { return &e->rx; }
void* wrKey(End_* e) { return &e->inFlightToMe; }

// deliver something to `dst` after a delay, never overtaking earlier deliveries
void deliver(End_* dst, std::function<void()> fn) {
  uint64_t t = std::max(gNow + delay(), dst->lastDeliver + 1);
  dst->lastDeliver = t;
  addEvent(t, std::move(fn));
}
void deliverRst(End_* dst, int err) {
  deliver(dst, [dst, err] {
    if (dst->rstSeen) return;
    dst->rstSeen = true;
    dst->err = err;
    wake(rdKey(dst), -1);
    wake(wrKey(&dst->c->e[1 - dst->side]), -1);
  });
}
void endClosed(End_* e, bool crash, bool machine) {
  if (e->closed) return;
  e->closed = true;
  End_* p = &e->c->e[1 - e->side];
  event("close", e->c->id, e->side);
  if (machine) {
    // power loss: what is still in flight towards the peer is lost; the peer's stack
    // notices only after its retransmission / keep-alive limit
    uint64_t t = gNow + 1'000'000'000ull * (1 + netChoice("peer_lost_after", 120));
    e->c->dead = true;
    addEvent(t, [p] {
      p->rstSeen = true;
      p->err = ETIMEDOUT;
      wake(rdKey(p), -1);
      wake(wrKey(&p->c->e[1 - p->side]), -1);
    });
    return;
  }
  // Linux: closing with unread data resets the connection
  if (!e->rx.empty() && !e->rstSeen) {
    if (netChoice("reset_loses_unsent", 2)) {
      // what was written before but has not left this machine is lost with the connection
      p->lastDeliver = gNow;
      p->cutOff = true;
      probe("resets_losing_unsent_data");
    }
    deliverRst(p, ECONNRESET);
  } else
    deliver(p, [p] {
      p->rxEof = true;
      wake(rdKey(p), -1);
    });
  (void)crash;
}

// the established connection is lost: both ends see an error
static void breakLink(Conn* c, bool rst) {
  event("link_break", c->id, rst);
  c->dead = true; // whatever is in flight is lost
  for (auto& e : c->e) {
    if (e.closed) continue;
    e.rstSeen = true;
    e.err = rst ? ECONNRESET : ETIMEDOUT;
    wake(rdKey(&e), -1);
    wake(wrKey(&e), -1);
  }
}

ssize_t doRead(End_* e, void* buf, size_t n) {
  yieldNow("recv");
  if (n == 0) return 0;
  for (;;) {
    if (!e->rx.empty()) {
      size_t k = std::min(n, e->rx.size());
      if (k > 1 && N->cfg.shortReadPer10k && wlp("net_short_read", N->cfg.shortReadPer10k)) {
        k = 1 + netChoice("short_read_len", k - 1);
        probe("net_short_reads");
      }
      std::copy(e->rx.begin(), e->rx.begin() + k, (uint8_t*)buf);
      e->rx.erase(e->rx.begin(), e->rx.begin() + k);
      event("rd", e->c->id * 2 + e->side, k);
      wake(wrKey(e), -1);
      return k;
    }
    if (e->rstSeen) {
      if (e->err) {
        errno = e->err;
        e->err = 0;
        probe("reads_after_reset");
        return -1;
      }
      return 0;
    }
    if (e->rxEof) {
      probe("reads_at_eof");
      return 0;
    }
    if (fault("net_read_error")) {
      errno = EIO;
      return -1;
    }
    if (fault("net_link_lost")) {
      breakLink(e->c, faultValue("net_link_lost", 2) == 0);
      continue;
    }
    block(rdKey(e), "receiving from peer", -1);
  }
}

ssize_t doWrite(End_* e, const void* buf, size_t n) {
  yieldNow("send");
  End_* p = &e->c->e[1 - e->side];
  size_t done = 0;
  const uint8_t* b = (const uint8_t*)buf;
  while (done < n) {
    if (e->rstSeen || e->wrShut) {
      errno = e->err && !e->wrShut ? e->err : EPIPE;
      e->err = 0;
      probe("writes_after_reset");
      return done ? (ssize_t)done : -1;
    }
    if (fault("net_write_error")) {
      errno = ENOBUFS;
      return -1;
    }
    if (fault("net_link_lost")) {
      breakLink(e->c, faultValue("net_link_lost", 2) == 0);
      continue;
    }
    if (p->closed && p->c->dead) {
      // peer machine is gone: swallowed until the stack gives up
      return n;
    }
    if (p->closed) {
      // goes out, and comes back as a reset
      deliverRst(e, EPIPE);
      event("wr_closed", e->c->id * 2 + e->side, n);
      return n;
    }
    uint64_t used = p->rx.size() + p->inFlightToMe;
    if (used >= N->cfg.sndBuf) {
      probe("send_buffer_full");
      block(wrKey(p), "sending to peer (buffers full)", -1);
      continue;
    }
    size_t k = std::min<size_t>(n - done, N->cfg.sndBuf - used);
    if (k > N->cfg.maxSegment) k = N->cfg.maxSegment;
    auto seg = std::make_shared<std::vector<uint8_t>>(b + done, b + done + k);
    p->inFlightToMe += k;
    uint64_t h = 0;
    for (size_t i = 0; i < k; i++) h = h * 1099511628211ull + b[done + i];
    event("wr", e->c->id * 2 + e->side, h);
    N->bytes[{e->party, p->party}] += k;
    if (N->tap) N->tap(e->party, p->party, b + done, k);
    deliver(p, [p, seg] {
      p->inFlightToMe -= seg->size();
      if (p->c->dead || p->cutOff) return;
      N->delivered += seg->size();
      if (!p->closed) {
        p->rx.insert(p->rx.end(), seg->begin(), seg->end());
        wake(rdKey(p), -1);
      } else {
        // arrives at a closed endpoint
        End_* q = &p->c->e[1 - p->side];
        deliverRst(q, ECONNRESET);
      }
    });
    done += k;
    probe("net_segments");
  }
  return done;
}

void releaseFd(int fd) {
  auto it = N->fds.find(fd);
  if (it == N->fds.end()) return;
  Sock* s = it->second;
  N->fds.erase(it);
  if (--s->refs > 0) return;
  if (s->kind == Sock::Bound || s->kind == Sock::Listening) {
    N->ports.erase({s->party, s->port});
    for (auto& [c, side] : s->acceptQ) endClosed(&c->e[side], true, false), deliverRst(&c->e[1 - side], ECONNRESET);
    s->acceptQ.clear();
    wake(s, -1);
  }
  if (s->end) {
    endClosed(s->end, false, false);
    wake(rdKey(s->end), -1);
  }
}
} // namespace

namespace dsim {
NetConfig& net() { return N->cfg; }
void drawNetConfig() {
  auto& c = N->cfg;
  switch (wl("net_profile", 6)) {
    case 0: break; // LAN
    case 1: c.minDelayNs = 1'000; c.maxDelayNs = 2'000; break;
    case 2: c.minDelayNs = 1'000'000; c.maxDelayNs = 80'000'000; break; // WAN with jitter
    case 3: c.maxSegment = 1 + wl("segment", 40); break; // tiny segments
    case 4: c.maxSegment = 512; c.maxDelayNs = 5'000'000; break;
    case 5: c.maxSegment = 1448; c.sndBuf = 4096; break;
  }
  if (wl("short_reads", 2)) c.shortReadPer10k = 3000;
}
void hostName(int id, const char* n) { N->names[n] = id; }
void occupyPort(int p, int port) { N->occupied.insert({p, port}); }
uint64_t netBytes(int a, int b) {
  auto i = N->bytes.find({a, b});
  return i == N->bytes.end() ? 0 : i->second;
}
uint64_t netPayloadDelivered() { return N->delivered; }
void setWireTap(std::function<void(int, int, const uint8_t*, size_t)> f) { N->tap = std::move(f); }
void resetConnection(int a, int b, bool rst) {
  for (auto* c : N->conns) {
    if (!((c->e[0].party == a && c->e[1].party == b) || (c->e[0].party == b && c->e[1].party == a)))
      continue;
    if (c->dead) continue;
    breakLink(c, rst);
  }
}
int openSockets(int party) {
  int n = 0;
  for (auto& [fd, s] : N->fds) n += s->party == party;
  return n;
}
int openAddressLists() { return gAddrLists; }
int openConnections() {
  int n = 0;
  for (auto* c : N->conns) n += !c->e[0].closed + !c->e[1].closed;
  return n;
}
} // namespace dsim
namespace dsim::k {
void netReset() { N = new Net; }
void partyClosed(int party, bool machine) {
  std::vector<int> mine;
  for (auto& [fd, s] : N->fds)
    if (s->party == party) mine.push_back(fd);
  for (int fd : mine) {
    auto it = N->fds.find(fd);
    Sock* s = it->second;
    if (machine && s->end) {
      endClosed(s->end, true, true);
      N->fds.erase(it);
      s->refs--;
      continue;
    }
    releaseFd(fd);
  }
}
} // namespace dsim::k

// ------------------------------------------------------------------ libc surface
EXP int socket(int d, int t, int p) noexcept {
  if (!gActive) return (int)syscall(SYS_socket, d, t, p);
  yieldNow("socket");
  if (fault("socket_fail")) {
    errno = EMFILE;
    return -1;
  }
  auto* s = new Sock;
  s->party = gCur->party;
  int fd = allocFd(s);
  if (fd < 0) errno = EMFILE;
  return fd;
}
EXP int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_setsockopt, fd, l, o, v, n);
  return 0;
}
EXP int getsockopt(int fd, int l, int o, void* v, socklen_t* n) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_getsockopt, fd, l, o, v, n);
  if (v && n && *n >= 4) *(int*)v = o == SO_TYPE ? SOCK_STREAM : 0;
  return 0;
}
EXP int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_bind, fd, a, n);
  Sock* s = N->fds[fd];
  yieldNow("bind");
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (port == 0) {
    do port = N->eph++;
    while (N->ports.count({s->party, port}) || N->occupied.count({s->party, port}));
  }
  if (N->ports.count({s->party, port}) || N->occupied.count({s->party, port}) || fault("bind_in_use")) {
    errno = EADDRINUSE;
    probe("bind_in_use");
    return -1;
  }
  s->port = port;
  s->kind = Sock::Bound;
  N->ports[{s->party, port}] = s;
  event("bind", s->party, port);
  return 0;
}
EXP int listen(int fd, int backlog) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_listen, fd, backlog);
  Sock* s = N->fds[fd];
  if (s->kind == Sock::Fresh) {
    s->port = N->eph++;
    N->ports[{s->party, s->port}] = s;
  }
  s->kind = Sock::Listening;
  s->backlog = std::max(1, backlog);
  return 0;
}
EXP int getsockname(int fd, struct sockaddr* a, socklen_t* n) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_getsockname, fd, a, n);
  auto* in = (sockaddr_in*)a;
  memset(in, 0, sizeof *in);
  in->sin_family = AF_INET;
  in->sin_port = htons(N->fds[fd]->port);
  *n = sizeof *in;
  return 0;
}
static int partyOfAddr(const struct sockaddr* a) {
  return (int)(ntohl(((const sockaddr_in*)a)->sin_addr.s_addr) & 0xff);
}
EXP int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!isSim(fd)) return (int)syscall(SYS_connect, fd, a, n);
  Sock* s = N->fds[fd];
  if (s->kind == Sock::Connected) {
    errno = EISCONN;
    return -1;
  }
  int host = partyOfAddr(a), port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (((ntohl(((const sockaddr_in*)a)->sin_addr.s_addr) >> 24) & 0xff) == 127) host = s->party;
  probe("connect_attempts");
  event("connect", s->party * 1000 + host, port);
  if (fault("connect_timeout")) {
    block(s, "connecting (no answer)", 1'000'000'000ll * (1 + (int64_t)faultValue("connect_timeout", 20)));
    errno = ETIMEDOUT;
    return -1;
  }
  block(s, "connecting", (int64_t)delay());
  bool refuse = fault("connect_refused");
  Sock* l = nullptr;
  if (!refuse) {
    auto it = N->ports.find({host, port});
    if (it != N->ports.end() && it->second->kind == Sock::Listening) l = it->second;
  }
  if (l && (int)l->acceptQ.size() > l->backlog) {
    // SYN dropped: retransmitted after 1, 3, 7 s ... then given up
    for (int i = 0; i < 6; i++) {
      block(s, "connecting (backlog full)", 1'000'000'000ll << i);
      auto it = N->ports.find({host, port});
      l = it != N->ports.end() && it->second->kind == Sock::Listening ? it->second : nullptr;
      if (!l || (int)l->acceptQ.size() <= l->backlog) break;
    }
    if (l && (int)l->acceptQ.size() > l->backlog) {
      errno = ETIMEDOUT;
      return -1;
    }
  }
  if (!l) {
    block(s, "connecting", (int64_t)delay());
    errno = ECONNREFUSED;
    probe("connect_refused");
    return -1;
  }
  auto* c = new Conn;
  c->id = N->nconn++;
  for (int i = 0; i < 2; i++) {
    c->e[i].c = c;
    c->e[i].side = i;
  }
  c->e[0].party = s->party;
  c->e[1].party = l->party;
  N->conns.push_back(c);
  s->kind = Sock::Connected;
  s->end = &c->e[0];
  s->port = N->eph++;
  l->acceptQ.push_back({c, 1});
  wake(l, -1);
  if (fault("conn_reset_early")) {
    c->dead = true;
    for (auto& e : c->e) e.rstSeen = true, e.err = ECONNRESET;
  }
  block(s, "connecting", (int64_t)delay());
  return 0;
}
EXP int accept(int fd, struct sockaddr* a, socklen_t* n) {
  if (!isSim(fd)) return (int)syscall(SYS_accept, fd, a, n);
  Sock* s = N->fds[fd];
  yieldNow("accept");
  if (s->kind != Sock::Listening) {
    errno = EINVAL;
    return -1;
  }
  if (fault("accept_fail")) {
    errno = ECONNABORTED;
    return -1;
  }
  while (s->acceptQ.empty()) block(s, "accepting", -1);
  auto [c, side] = s->acceptQ.front();
  s->acceptQ.pop_front();
  auto* ns = new Sock;
  ns->party = s->party;
  ns->port = s->port;
  ns->kind = Sock::Connected;
  ns->end = &c->e[side];
  if (a) {
    auto* in = (sockaddr_in*)a;
    memset(in, 0, sizeof *in);
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(0x0a000000u + c->e[1 - side].party);
    if (n) *n = sizeof *in;
  }
  int nf = allocFd(ns);
  event("accept", c->id, s->port);
  return nf;
}
EXP int accept4(int fd, struct sockaddr* a, socklen_t* n, int) { return accept(fd, a, n); }
static bool readable(Sock* s) {
  if (s->kind == Sock::Listening) return !s->acceptQ.empty();
  if (s->end) return !s->end->rx.empty() || s->end->rxEof || s->end->rstSeen;
  return true;
}
EXP int select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  if (!gActive) return (int)syscall(SYS_select, nfds, r, w, e, tv);
  yieldNow("select");
  uint64_t dl = tv ? gNow + (uint64_t)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : UINT64_MAX;
  fd_set in;
  FD_ZERO(&in);
  if (r) in = *r;
  for (;;) {
    int cnt = 0;
    fd_set out;
    FD_ZERO(&out);
    Sock* one = nullptr;
    for (int i = 0; i < nfds && i < FD_SETSIZE; i++)
      if (FD_ISSET(i, &in) && isSim(i)) {
        one = N->fds[i];
        if (readable(one)) {
          FD_SET(i, &out);
          cnt++;
        }
      }
    if (cnt) {
      if (r) *r = out;
      if (w) FD_ZERO(w);
      return cnt;
    }
    if (fault("select_eintr")) {
      errno = EINTR;
      return -1;
    }
    if (gNow >= dl) {
      if (r) FD_ZERO(r);
      return 0;
    }
    int64_t left = dl == UINT64_MAX ? -1 : (int64_t)(dl - gNow);
    const void* key = one ? (one->end ? rdKey(one->end) : (void*)one) : (void*)&gNow;
    block(key, "select", left);
  }
}
EXP int poll(struct pollfd* p, nfds_t n, int timeout) {
  if (!gActive || n == 0 || !isSim(p[0].fd)) return (int)syscall(SYS_poll, p, n, timeout);
  uint64_t dl = timeout >= 0 ? gNow + (uint64_t)timeout * 1000000ull : UINT64_MAX;
  for (;;) {
    int cnt = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (!isSim(p[i].fd)) continue;
      if ((p[i].events & POLLIN) && readable(N->fds[p[i].fd])) p[i].revents |= POLLIN;
      if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
      if (p[i].revents) cnt++;
    }
    if (cnt) return cnt;
    if (gNow >= dl) return 0;
    Sock* one = N->fds[p[0].fd];
    block(one->end ? rdKey(one->end) : (void*)one, "poll", dl == UINT64_MAX ? -1 : (int64_t)(dl - gNow));
  }
}
EXP int dup(int fd) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_dup, fd);
  if (fault("dup_fail")) {
    errno = EMFILE;
    return -1;
  }
  Sock* s = N->fds[fd];
  s->refs++;
  return allocFd(s);
}
EXP int shutdown(int fd, int how) noexcept {
  if (!isSim(fd)) return (int)syscall(SYS_shutdown, fd, how);
  Sock* s = N->fds[fd];
  if (!s->end) {
    errno = ENOTCONN;
    return -1;
  }
  if (how == SHUT_WR || how == SHUT_RDWR) {
    s->end->wrShut = true;
    End_* p = &s->end->c->e[1 - s->end->side];
    deliver(p, [p] {
      p->rxEof = true;
      wake(rdKey(p), -1);
    });
  }
  return 0;
}
EXP ssize_t send(int fd, const void* b, size_t n, int fl) {
  if (!isSim(fd)) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
  Sock* s = N->fds[fd];
  if (!s->end) {
    errno = ENOTCONN;
    return -1;
  }
  return doWrite(s->end, b, n);
}
EXP ssize_t recv(int fd, void* b, size_t n, int fl) {
  if (!isSim(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
  Sock* s = N->fds[fd];
  if (!s->end) {
    errno = ENOTCONN;
    return -1;
  }
  if (fl & MSG_WAITALL) {
    size_t got = 0;
    while (got < n) {
      ssize_t k = doRead(s->end, (char*)b + got, n - got);
      if (k <= 0) return got ? (ssize_t)got : k;
      got += k;
    }
    return got;
  }
  return doRead(s->end, b, n);
}
namespace dsim::k {
ssize_t fileRead(int fd, void* b, size_t n);
ssize_t fileWrite(int fd, const void* b, size_t n);
int fileClose(int fd);
} // namespace dsim::k
EXP ssize_t read(int fd, void* b, size_t n) {
  if (isSim(fd)) return recv(fd, b, n, 0);
  return fileRead(fd, b, n);
}
EXP ssize_t write(int fd, const void* b, size_t n) {
  if (isSim(fd)) return send(fd, b, n, 0);
  return fileWrite(fd, b, n);
}
EXP int close(int fd) {
  if (N && fd >= kBase && fd < kMax) {
    if (!isSim(fd)) {
      errno = EBADF;
      probe("close_bad_fd");
      return -1;
    }
    releaseFd(fd);
    if (gCur) yieldNow("close");
    return 0;
  }
  return fileClose(fd);
}
EXP int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (isSim(fd)) return cmd == F_GETFL ? O_RDWR : 0;
  return (int)syscall(SYS_fcntl, fd, cmd, arg);
}

EXP int getaddrinfo(const char* node, const char* service, const struct addrinfo*, struct addrinfo** res) {
  yieldNow("getaddrinfo");
  if (fault("dns_fail")) return EAI_AGAIN;
  uint32_t ip = 0;
  struct in_addr ia;
  auto it = N->names.find(node ? node : "");
  if (it != N->names.end())
    ip = 0x0a000000u + it->second;
  else if (node && inet_aton(node, &ia))
    ip = ntohl(ia.s_addr);
  else if (node && !strcmp(node, "localhost"))
    ip = 0x7f000001;
  else
    return EAI_NONAME;
  auto* in = (sockaddr_in*)calloc(1, sizeof(sockaddr_in));
  in->sin_family = AF_INET;
  in->sin_addr.s_addr = htonl(ip);
  in->sin_port = htons(service ? atoi(service) : 0);
  auto* ai = (addrinfo*)calloc(1, sizeof(addrinfo));
  gAddrLists++;
  ai->ai_family = AF_INET;
  ai->ai_socktype = SOCK_STREAM;
  ai->ai_protocol = IPPROTO_TCP;
  ai->ai_addrlen = sizeof(sockaddr_in);
  ai->ai_addr = (sockaddr*)in;
  *res = ai;
  return 0;
}
EXP void freeaddrinfo(struct addrinfo* a) noexcept {
  if (a) gAddrLists--;
  while (a) {
    auto* n = a->ai_next;
    free(a->ai_addr);
    free(a);
    a = n;
  }
}

// ------------------------------------------------------------------ stdio on simulated fds
namespace {
struct Ck {
  int fd;
};
std::map<FILE*, pthread_mutex_t*>& locks() {
  static auto* m = new std::map<FILE*, pthread_mutex_t*>;
  return *m;
}
ssize_t ckRead(void* c, char* b, size_t n) { return recv(((Ck*)c)->fd, b, n, 0); }
ssize_t ckWrite(void* c, const char* b, size_t n) {
  // like _IO_new_file_write: loop until everything is written or an error occurs
  size_t d = 0;
  while (d < n) {
    ssize_t k = send(((Ck*)c)->fd, b + d, n - d, 0);
    if (k <= 0) return d ? (ssize_t)d : 0;
    d += k;
  }
  return d;
}
int ckClose(void* c) {
  int r = close(((Ck*)c)->fd);
  delete (Ck*)c;
  return r;
}
template <class F>
F nextSym(const char* n) {
  return (F)dlsym(RTLD_NEXT, n);
}
struct FLock {
  pthread_mutex_t* m = nullptr;
  explicit FLock(FILE* f) {
    if (!gActive) return;
    auto it = locks().find(f);
    if (it == locks().end()) return;
    m = it->second;
    if (m->__data.__owner) probe("stdio_contended");
    pthread_mutex_lock(m);
  }
  ~FLock() {
    if (m) pthread_mutex_unlock(m);
  }
};
} // namespace
EXP FILE* fdopen(int fd, const char* mode) noexcept {
  static auto real = nextSym<FILE* (*)(int, const char*)>("fdopen");
  if (!isSim(fd)) return real(fd, mode);
  if (fault("fdopen_fail")) {
    errno = ENOMEM;
    return nullptr;
  }
  cookie_io_functions_t io{ckRead, ckWrite, nullptr, ckClose};
  FILE* f = fopencookie(new Ck{fd}, mode, io);
  auto* m = new pthread_mutex_t;
  memset(m, 0, sizeof *m);
  locks()[f] = m;
  return f;
}
EXP size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
  static auto real = nextSym<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
  FLock l(f);
  return real(p, s, n, f);
}
EXP size_t fread(void* p, size_t s, size_t n, FILE* f) {
  static auto real = nextSym<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
  FLock l(f);
  return real(p, s, n, f);
}
EXP int fflush(FILE* f) {
  static auto real = nextSym<int (*)(FILE*)>("fflush");
  FLock l(f);
  return real(f);
}
namespace dsim::k {
int fileFclose(FILE* f, int (*real)(FILE*));
}
EXP int fclose(FILE* f) {
  static auto real = nextSym<int (*)(FILE*)>("fclose");
  if (f && gActive) {
    auto it = locks().find(f);
    if (it != locks().end()) {
      {
        FLock l(f);
      }
      delete it->second;
      locks().erase(it);
      return real(f);
    }
  }
  return fileFclose(f, real);
}
