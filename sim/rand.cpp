// Entropy behind the simulator's seam: OpenSSL, rdrand engine, std::random_device.
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/engine.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <openssl/x509_vfy.h>
#include <set>
#include <string>
#include <sys/types.h>
#include <time.h>
#include "kernel.h"

using namespace dsim;

namespace {
struct Books {
  std::string only; // calls of this function only may fail
  int64_t nth = -1; // the one of a party with this number
  int party = -1;
  std::map<int, int64_t> count;
  std::map<int, CryptoFailures> failed;
  std::set<const void*> inside; // fibers inside a library call
  std::map<const void*, const char*> live;
};
Books& books() {
  static Books b;
  return b;
}
void failed(const char* fn) {
  auto& f = books().failed[k::gCur ? k::gCur->party : -1];
  (k::gCur && k::gCur->fn ? f.main : f.background)++;
  f.what += std::string(f.what.empty() ? "" : ", ") + fn;
}
// a call into the library: fails, or is passed on
struct Call {
  bool fails = false, outer = false;
  const char* fn;
  explicit Call(const char* fn, bool fallible = true) : fn(fn) {
    if (!k::gActive || !k::gCur) return;
    auto& b = books();
    if (!b.inside.insert(k::gCur).second) return;
    outer = true;
    if (!fallible) return;
    if (!b.only.empty() && b.only != fn) return;
    int p = k::gCur->party;
    if (b.nth >= 0 && ((b.party >= 0 && b.party != p) || b.count[p]++ != b.nth)) return;
    if (fault("crypto_fail")) {
      fails = true;
      failed(fn);
    }
  }
  ~Call() {
    if (outer) books().inside.erase(k::gCur);
  }
  template <class T>
  T* made(T* p) {
    if (outer && p) books().live[p] = fn;
    return p;
  }
  // references a library object holds on another are its own business
  void freed(const void* p) {
    if (outer || !k::gCur) books().live.erase(p);
  }
};
} // namespace
namespace dsim {
void cryptoFailOnly(const char* fn, int party, int64_t nth) {
  books().only = fn;
  books().party = party;
  books().nth = nth;
}
CryptoFailures cryptoFailures(int party) { return books().failed[party]; }
std::string liveCryptoObjects() {
  std::string r;
  for (auto& x : books().live) r += std::string(r.empty() ? "" : ", ") + x.second;
  return r;
}
} // namespace dsim

static int rbytes(unsigned char* b, int n) {
  if (fault("entropy_fail")) {
    failed("RAND_bytes");
    return 0;
  }
  entropy(b, n);
  return 1;
}
static int rstatus() { return 1; }
static int rseed(const void*, int) { return 1; }
static int radd(const void*, int, double) { return 1; }
static RAND_METHOD gMeth = {rseed, rbytes, nullptr, radd, rbytes, rstatus};

namespace dsim {
void installEntropy() { RAND_set_rand_method(&gMeth); }
} // namespace dsim

#define EXP extern "C" __attribute__((visibility("default")))
static char gEng;
EXP ENGINE* ENGINE_by_id(const char*) { return (ENGINE*)&gEng; }
EXP int ENGINE_init(ENGINE*) { return 1; }
EXP int ENGINE_set_default(ENGINE*, unsigned) { return 1; }
EXP int ENGINE_finish(ENGINE*) { return 1; }
EXP int ENGINE_free(ENGINE*) { return 1; }

EXP void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&) {}
EXP void _ZNSt13random_device7_M_finiEv(void*) {}
EXP unsigned _ZNSt13random_device9_M_getvalEv(void*) {
  unsigned v;
  entropy(&v, sizeof v);
  return v;
}
EXP int getentropy(void* b, size_t n) {
  entropy(b, n);
  return 0;
}
EXP ssize_t getrandom(void* b, size_t n, unsigned) {
  entropy(b, n);
  return n;
}

// ---------------------------------------------------------------- numbers, points and digests
#define REAL(fn) ((decltype(&fn))[] { static auto p = dlsym(RTLD_NEXT, #fn); return p; }())
#define FALLIBLE(R, bad, fn, sig, args) \
  EXP R fn sig {                        \
    Call c(#fn);                        \
    if (c.fails) return bad;            \
    return REAL(fn) args;               \
  }
#define MAKES(T, fn, sig, args)    \
  EXP T* fn sig {                  \
    Call c(#fn);                   \
    if (c.fails) return nullptr;   \
    return c.made(REAL(fn) args);  \
  }
#define FREES(T, fn)    \
  EXP void fn(T* p) {   \
    Call c(#fn, false); \
    c.freed(p);         \
    REAL(fn)(p);        \
  }
MAKES(BIGNUM, BN_new, (), ())
MAKES(BIGNUM, BN_dup, (const BIGNUM* a), (a))
MAKES(BN_CTX, BN_CTX_new, (), ())
MAKES(EC_POINT, EC_POINT_new, (const EC_GROUP* g), (g))
MAKES(EC_GROUP, EC_GROUP_new_by_curve_name, (int n), (n))
FREES(BIGNUM, BN_free)
FREES(BIGNUM, BN_clear_free)
FREES(BN_CTX, BN_CTX_free)
FREES(EC_POINT, EC_POINT_free)
FREES(EC_POINT, EC_POINT_clear_free)
FREES(EC_GROUP, EC_GROUP_free)
FREES(EC_GROUP, EC_GROUP_clear_free)
FALLIBLE(BIGNUM*, nullptr, BN_CTX_get, (BN_CTX* x), (x))
FALLIBLE(int, 0, BN_rand_range, (BIGNUM* r, const BIGNUM* n), (r, n))
FALLIBLE(int, 0, BN_priv_rand_range, (BIGNUM* r, const BIGNUM* n), (r, n))
FALLIBLE(int, 0, BN_add_word, (BIGNUM* a, BN_ULONG w), (a, w))
FALLIBLE(int, 0, BN_lshift, (BIGNUM* r, const BIGNUM* a, int n), (r, a, n))
FALLIBLE(BN_ULONG, (BN_ULONG)-1, BN_mod_word, (const BIGNUM* a, BN_ULONG w), (a, w))
FALLIBLE(int, 0, EC_GROUP_get_order, (const EC_GROUP* g, BIGNUM* o, BN_CTX* x), (g, o, x))
FALLIBLE(int, 0, EC_POINT_mul, (const EC_GROUP* g, EC_POINT* r, const BIGNUM* n, const EC_POINT* q, const BIGNUM* m, BN_CTX* x), (g, r, n, q, m, x))
FALLIBLE(int, 0, EC_POINT_add, (const EC_GROUP* g, EC_POINT* r, const EC_POINT* a, const EC_POINT* b, BN_CTX* x), (g, r, a, b, x))
FALLIBLE(int, 0, EC_POINT_copy, (EC_POINT* d, const EC_POINT* s), (d, s))
FALLIBLE(int, 0, EC_POINT_invert, (const EC_GROUP* g, EC_POINT* a, BN_CTX* x), (g, a, x))
FALLIBLE(char*, nullptr, EC_POINT_point2hex, (const EC_GROUP* g, const EC_POINT* p, point_conversion_form_t f, BN_CTX* x), (g, p, f, x))
FALLIBLE(EC_POINT*, nullptr, EC_POINT_hex2point, (const EC_GROUP* g, const char* h, EC_POINT* p, BN_CTX* x), (g, h, p, x))
FALLIBLE(int, 0, SHA256_Init, (SHA256_CTX* c2), (c2))
FALLIBLE(int, 0, SHA256_Update, (SHA256_CTX* c2, const void* d, size_t n), (c2, d, n))
FALLIBLE(int, 0, SHA256_Final, (unsigned char* m, SHA256_CTX* c2), (m, c2))

// ---------------------------------------------------------------- encrypted channels
MAKES(SSL_CTX, SSL_CTX_new, (const SSL_METHOD* m), (m))
MAKES(SSL, SSL_new, (SSL_CTX* x), (x))
MAKES(X509, SSL_get1_peer_certificate, (const SSL* s), (s))
MAKES(char, X509_NAME_oneline, (const X509_NAME* a, char* b, int n), (a, b, n))
FREES(SSL_CTX, SSL_CTX_free)
FREES(SSL, SSL_free)
FREES(X509, X509_free)
EXP void CRYPTO_free(void* p, const char* file, int line) {
  if (p && k::gCur) books().live.erase(p);
  REAL(CRYPTO_free)(p, file, line);
}
FALLIBLE(long, 0, SSL_CTX_ctrl, (SSL_CTX* x, int c2, long l, void* p), (x, c2, l, p))
FALLIBLE(int, 0, SSL_CTX_set_num_tickets, (SSL_CTX* x, size_t n), (x, n))
FALLIBLE(int, 0, SSL_CTX_use_certificate_file, (SSL_CTX* x, const char* f, int t), (x, f, t))
FALLIBLE(int, 0, SSL_CTX_use_PrivateKey_file, (SSL_CTX* x, const char* f, int t), (x, f, t))
FALLIBLE(int, 0, SSL_CTX_load_verify_locations, (SSL_CTX* x, const char* f, const char* d), (x, f, d))
FALLIBLE(int, 0, X509_VERIFY_PARAM_set1_host, (X509_VERIFY_PARAM* x, const char* n, size_t l), (x, n, l))
FALLIBLE(int, 0, SSL_set_fd, (SSL* s, int fd), (s, fd))
FALLIBLE(int, -1, SSL_connect, (SSL* s), (s))
FALLIBLE(int, -1, SSL_accept, (SSL* s), (s))
FALLIBLE(int, -1, SSL_read, (SSL* s, void* b, int n), (s, b, n))
FALLIBLE(int, -1, SSL_write, (SSL* s, const void* b, int n), (s, b, n))
